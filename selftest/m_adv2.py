"""bugs written from the property texts alone: cache"""
D='dnscache.c'; H='cacheht.c'; T='cachettlcrtl.c'
BUGS=[
('P17','alias-orig',[(D,'''    char    Name[253 + 1];

    DnsSimpleParserIterator i;''','''    char    Name[253 + 1];
    char    First[253 + 1];

    DnsSimpleParserIterator i;'''),(D,'''    RWLock_RdLock(CacheLock);

    /* If''','''    strcpy(First, Name);
    RWLock_RdLock(CacheLock);

    /* If'''),(D,'DNSCache_GetRawRecordsFromCache(Name, i.Type, i.Klass, g, CurrentTime)','DNSCache_GetRawRecordsFromCache(First, i.Type, i.Klass, g, CurrentTime)')]),
('P17','ret0',[(D,'    int Ret = -100;','    int Ret = 0;')]),
('P17','ignore-wrong',[(D,'IgnoreTTL = ConfigGetBoolean(ConfigInfo, "IgnoreTTL");','IgnoreTTL = ConfigGetBoolean(ConfigInfo, "CacheParallel");')]),
('P17','start-only',[(D,'if( IgnoreTTL == TRUE || (CurrentTime - Node->TimeAdded < Node->TTL) )','if( IgnoreTTL == TRUE || Start != NULL || (CurrentTime - Node->TimeAdded < Node->TTL) )')]),
('P17','gen-fail-ok',[(D,'            Ret = iRet;\n','            Ret = 0;\n'),(D,'''                if( Ret == 0 )
                {
                    INFO("Partial cache used for: %s\\n", Name_Type_Class);
                }
                break;''','''                Ret = 0;
                break;''')]),
('P17','cname-then-ok',[(D,'''    if( DNSCache_GetRawRecordsFromCache(Name, i.Type, i.Klass, g, CurrentTime)
        != 0
        )''','''    if( DNSCache_GetRawRecordsFromCache(Name, i.Type, i.Klass, g, CurrentTime)
        != 0 && g->Header->AnswerCount == 0
        )''')]),
('P17','fetch-ignores',[(D,'''    if( DNSCache_GetByQuestion(&g, &p, time(NULL)) != 0 )
    {
        return -3;''','''    if( DNSCache_GetByQuestion(&g, &p, time(NULL)) == -1 )
    {
        return -3;''')]),
('P17','time-const',[(D,'DNSCache_GetByQuestion(&g, &p, time(NULL))','DNSCache_GetByQuestion(&g, &p, h->TimeStamp)')]) if 0 else
('P17','class-any',[(D,'DNSCache_GetRawRecordsFromCache(Name, i.Type, i.Klass, g, CurrentTime)','DNSCache_GetRawRecordsFromCache(Name, i.Type, DNS_CLASS_ANY, g, CurrentTime)')]),
('P17','prefix-len',[(D,'if( memcmp(Content, MapStart + Node->Offset + 1, Length) == 0 )','if( memcmp(Content, MapStart + Node->Offset + 1, Length - 4) == 0 )')]),
('P18','neg-override',[(D,'    if( OverrideTTL > -1 )\n    {\n        CacheTtl','    if( OverrideTTL > 0 )\n    {\n        CacheTtl')]),
('P18','infect-swap',[(D,'''                    TtlContent = NameTtlContent;
                    if( TtlContent == NULL )
                    {
                        TtlContent = InfectedTtlContent;
                    }
                    break;''','''                    TtlContent = NameTtlContent;
                    break;''')]),
('P18','rule-none-infects',[(D,'''                case TTL_CTRL_INFECTION_NONE:
                    TtlContent = NameTtlContent;''','''                case TTL_CTRL_INFECTION_NONE:
                    TtlContent = NameTtlContent != NULL ? NameTtlContent : InfectedTtlContent;''')]),
('P18','marks-skip',[(T,'memmove(Cmd, Cmd + 2, sizeof(Cmd) - 2);','memmove(Cmd, Cmd + 1, sizeof(Cmd) - 1);')]),
('P18','vari-swapped',[(T,'&Coefficient, &Increment);','&Increment, &Coefficient);')]),
('P18','kind-swapped',[(T,'State = TTL_STATE_ORIGINAL;','State = TTL_STATE_VARIABLE;')]),
('P18','infection-lost',[(T,'CtrlContent cc = {State, Coefficient, Increment, Infection};','CtrlContent cc = {State, Coefficient, Increment, TTL_CTRL_INFECTION_AGGRESSIVLY};')]),
('P18','rule-raw-name',[(D,'NameTtlContent = CacheTtlCrtl_Get(TtlCtrl, Name);','NameTtlContent = CacheTtlCrtl_Get(TtlCtrl, Buffer);')]),
('P18','vari-over',[(D,"""    if( OverrideTTL > -1 )
    {
        CacheTtlCrtl_Add(TtlCtrl, "*", TTL_STATE_FIXED, 1, OverrideTTL, TRUE);
    } else {""","""    if( OverrideTTL > -1 )
    {
        CacheTtlCrtl_Add(TtlCtrl, "*", TTL_STATE_FIXED, 1, OverrideTTL, TRUE);
    }
    {""")]),
('P18','multi-skip',[(D,'} else if( TTLMultiple > 1 ){\n            CacheTtlCrtl_Add(TtlCtrl, "*", TTL_STATE_VARIABLE, TTLMultiple, 0, TRUE);','} else if( TTLMultiple > 1 ){\n            CacheTtlCrtl_Add(TtlCtrl, "*", TTL_STATE_VARIABLE, 0, TTLMultiple, TRUE);')]),
('P18','question-type',[(D,'''        BOOL RightPurpose = i.Purpose != DNS_RECORD_PURPOSE_UNKNOWN &&
                            i.Purpose != DNS_RECORD_PURPOSE_QUESTION;''','''        BOOL RightPurpose = i.Purpose != DNS_RECORD_PURPOSE_UNKNOWN ||
                            i.Purpose != DNS_RECORD_PURPOSE_QUESTION;''')]),
('P18','name-question',[(D,'    if( i->GetName(i, Item, sizeof(Buffer) -1) < 0 )\n    {\n        return -1;\n    }','    i->GetName(i, Item, sizeof(Buffer) -1);')]),
('P18','state-default',[(D,'''                case TTL_STATE_NO_CACHE:
                    RecordTTL = 0;
                    break;''','''                case TTL_STATE_NO_CACHE:
                    RecordTTL = i->GetTTL(i) > 60 ? 60 : 0;
                    break;''')]),
('P18','infected-none',[(D,'''    TtlContent =  CacheTtlCrtl_Get(TtlCtrl, Header->Domain);
''','')]),
('P20','head-stays',[(H,'''                HeirSubscript = CurHead->KeyNext;
                if( PreHead == NULL )
                {
                    h->Free2DList = HeirSubscript;
                } else {''','''                HeirSubscript = CurHead->KeyNext;
                if( PreHead != NULL )
                {''')]),
('P20','heir-head-stays',[(H,'''                if( PreHead == NULL )
                {
                    h->Free2DList = HeirSubscript;

                } else if(''','''                if( PreHead == NULL )
                {
                    h->Free2DList = Subscript;

                } else if(''')]),
('P20','grand',[(H,'''                        GrandHead->KeyNext = HeirSubscript;''','''                        GrandHead->KeyNext = Subscript;''')]),
('P20','free-and-drop',[(H,'''    if( SubScriptOfNode != NodeChunk->Used - 1 )
    {
        CacheHT_AddTo2DList(h, SubScriptOfNode, Node);
        ++FreeNodeCount;
    } else {
        --(NodeChunk->Used);
    }''','''    CacheHT_AddTo2DList(h, SubScriptOfNode, Node);
    if( SubScriptOfNode != NodeChunk->Used - 1 )
    {
        ++FreeNodeCount;
    } else {
        --(NodeChunk->Used);
    }''')]),
('P20','add-short',[(D,'Subscript = DNSCache_GetAvailableChunk(BufferItr - Buffer, &Node);','Subscript = DNSCache_GetAvailableChunk(BufferItr - Item, &Node);')]),
('P20','reinit-slot',[(H,'''    h->Slots.Data = BaseAddr + CacheSize - (h->Slots.DataLength) * (h->Slots.Used);
    h->NodeChunk.Data = h->Slots.Data - h->NodeChunk.DataLength;

    return 0;''','''    h->Slots.Data = BaseAddr + CacheSize - (h->Slots.DataLength) * (h->Slots.Used);
    h->NodeChunk.Data = h->Slots.Data;

    return 0;''')]),
('P20','slot-over',[(H,'''    h->Slots.Data = BaseAddr + CacheSize - (h->Slots.DataLength) * (h->Slots.Used);
    h->Slots.Allocated''','''    h->Slots.Data = BaseAddr + CacheSize - (h->Slots.DataLength) * (h->Slots.Used - 1);
    h->Slots.Allocated''')]),
('P20','no-unlink',[(H,'''        Predecessor->Next = Node->Next;''','''        Predecessor->Next = -1;''')]),
('P20','end-zero',[(D,'''        if( ChunkList->Used == 0 )
        {
            (*CacheEnd) = sizeof(struct _Header);
        } else {
            Node = (Cht_Node *)Array_GetBySubscript(ChunkList, ChunkList->Used - 1);''','''        if( ChunkList->Used == 0 )
        {
            (*CacheEnd) = sizeof(struct _Header);
        } else {
            Node = (Cht_Node *)Array_GetBySubscript(ChunkList, 0);''')]),
('P20','slot-mismatch',[(H,'''    Node->Slot = Slot_i;
''','''    Node->Slot = 0;
''')]),
('P20','fail-accounted',[(D,'''    if( NodeNumber >= 0 )
    {
        if( NewCreated == TRUE )
        {
            Node->Offset = (*CacheEnd);
            (*CacheEnd) += RoundedLength;
        }
''','''    if( NewCreated == TRUE )
    {
        (*CacheEnd) += RoundedLength;
    }

    if( NodeNumber >= 0 )
    {
        if( NewCreated == TRUE )
        {
            Node->Offset = (*CacheEnd);
        }
''')]),
('P21','exists-late',[(D,'''        FileExists = FileIsReadable(CacheFile);

        CacheFileHandle = OPEN_FILE(CacheFile);''','''        CacheFileHandle = OPEN_FILE(CacheFile);
        FileExists = FileIsReadable(CacheFile);
''')]),
('P21','inited-early',[(D,'''    if( InitCacheInfoState != 0 )
    {
        return 6;
    }

    RWLock_Init(CacheLock);

    Inited = TRUE;
''','''    RWLock_Init(CacheLock);

    Inited = TRUE;

    if( InitCacheInfoState != 0 )
    {
        return 6;
    }
''')]),
('P21','clear-first',[(D,'''            if( ConfigGetBoolean(ConfigInfo, "OverwriteCache") == FALSE )
            {
                return -1;
            } else {
                CreateNewCache();''','''            CreateNewCache();
            if( ConfigGetBoolean(ConfigInfo, "OverwriteCache") == FALSE )
            {
                return -1;
            } else {''')]),
('P21','size-unrounded',[(D,'    Header->CacheSize = CacheSize;\n','    Header->CacheSize = CacheSize - sizeof(struct _Header);\n')]),
('P21','reload-wrongopt',[(D,'ConfigGetBoolean(ConfigInfo, "ReloadCache")','ConfigGetBoolean(ConfigInfo, "OverwriteCache")')]),
('P21','either',[(D,'''        ERRORMSG("The size of the existing cache and the value of `CacheSize' should be equal.\\n");
        return FALSE;''','''        ERRORMSG("The size of the existing cache and the value of `CacheSize' should be equal.\\n");
        return Header->CacheSize > CacheSize;''')]),
]
