D='dnscache.c'
BUGS=[
('P17','ttl-le',[(D,'(CurrentTime - Node->TimeAdded < Node->TTL)','(CurrentTime - Node->TimeAdded <= Node->TTL)')]),
('P17','ttl-none',[(D,'IgnoreTTL == TRUE || (CurrentTime - Node->TimeAdded < Node->TTL)','IgnoreTTL == TRUE || Node->TTL > 0')]),
('P17','key-prefix',[(D,'        Node = DNSCache_FindFromCache(Name_Type_Class,\n                                      KeyLength + 1,\n                                      Node,','        Node = DNSCache_FindFromCache(Name_Type_Class,\n                                      KeyLength,\n                                      Node,')]),
('P17','ttl-full',[(D,'                NewTTL = Node->TTL - (CurrentTime - Node->TimeAdded);\n            }\n\n            /* Skip key','                NewTTL = Node->TTL;\n            }\n\n            /* Skip key')]),
('P17','cname-ttl',[(D,'                NewTTL = Node->TTL - (CurrentTime - Node->TimeAdded);\n            }\n\n            if( g->CName','                NewTTL = Node->TTL;\n            }\n\n            if( g->CName')]),
('P17','cname-nofollow',[(D,'            strcpy(Name, CName);\n','            strcpy(CName, Name);\n')]),
('P17','klass',[(D,'if( i.Klass != DNS_CLASS_IN || !IsValidCachedType(i.Type) )','if( !IsValidCachedType(i.Type) )'),(D,'    if( DNSCache_GetRawRecordsFromCache(Name, i.Type, i.Klass, g, CurrentTime)','    if( DNSCache_GetRawRecordsFromCache(Name, i.Type, DNS_CLASS_IN, g, CurrentTime)')]) ,
('P17','len-chunk',[(D,'MapStart + Node->Offset + Node->UsedLength - CacheItr,','MapStart + Node->Offset + Node->Length - CacheItr,')]),
('P17','skip1',[(D,'CacheItr = MapStart + Node->Offset + 1 + KeyLength + 1;','CacheItr = MapStart + Node->Offset + KeyLength + 1;')]),
('P17','empty',[(D,'    if( DNSCache_GetRawRecordsFromCache(Name, i.Type, i.Klass, g, CurrentTime)\n        != 0\n        )','    if( DNSCache_GetRawRecordsFromCache(Name, i.Type, i.Klass, g, CurrentTime)\n        == -609\n        )')]),
('P17','memcmp-off',[(D,'memcmp(Content, MapStart + Node->Offset + 1, Length) == 0','memcmp(Content, MapStart + Node->Offset + 1, strlen(Content)) == 0')]),
('P18','noadded',[(D,'            Node->TimeAdded = CurrentTime;\n\n            /* Index','            /* Index')]),
('P18','zero',[(D,'        if( RecordTTL == 0 )\n        {\n            return 0;\n        }\n','')]),
('P18','class',[(D,'if( RightPurpose && IsValidCachedType(i.Type) && CachedClass )','if( RightPurpose && IsValidCachedType(i.Type) )')]),
('P18','purpose',[(D,'i.Purpose != DNS_RECORD_PURPOSE_UNKNOWN &&\n                            i.Purpose != DNS_RECORD_PURPOSE_QUESTION;','i.Purpose != DNS_RECORD_PURPOSE_UNKNOWN;')]),
('P18','type',[(D,'if( RightPurpose && IsValidCachedType(i.Type) && CachedClass )','if( RightPurpose && CachedClass )')]),
('P18','soa',[(D,'            Type == DNS_TYPE_MX;','            Type == DNS_TYPE_MX ||\n            Type == DNS_TYPE_SOA;')]),
('P18','nocache',[(D,'                case TTL_STATE_NO_CACHE:\n                    RecordTTL = 0;\n                    break;\n\n','')]),
('P18','orig',[(D,'                case TTL_STATE_ORIGINAL:\n                    RecordTTL = i->GetTTL(i);','                case TTL_STATE_ORIGINAL:\n                    RecordTTL = TtlContent->Increment;')]),
('P18','coef',[(D,'(TtlContent->Coefficient) * i->GetTTL(i) + (TtlContent->Increment)','(TtlContent->Coefficient) * i->GetTTL(i)')]),
('P18','used',[(D,'Node->UsedLength = BufferItr - Buffer;','Node->UsedLength = BufferItr - Item;')]),
('P18','insert-buf',[(D,'CacheHT_InsertToSlot(CacheInfo, Item, Subscript, Node, NULL);','CacheHT_InsertToSlot(CacheInfo, Buffer, Subscript, Node, NULL);')]),
('P18','time0',[(D,'DNSCache_AddAItemToCache(&i, time(NULL), TtlContent);','DNSCache_AddAItemToCache(&i, 0, TtlContent);')]),
('P19','ns-raw',[('dnsparser.c','    case DNS_TYPE_TXT:\n        RecordParser = NULL;\n        break;\n\n    case DNS_TYPE_CNAME:\n    case DNS_TYPE_PTR:\n    case DNS_TYPE_NS:\n        RecordParser = DnsSimpleParserIterator_ParseCName;\n        break;\n\n    case DNS_TYPE_MX:\n        RecordParser = DnsSimpleParserIterator_ParseMailEx;\n        break;\n\n    case DNS_TYPE_SOA:\n        RecordParser = DnsSimpleParserIterator_ParseSOA;\n        break;\n\n    default:\n        return -1;','    case DNS_TYPE_TXT:\n    case DNS_TYPE_NS:\n        RecordParser = NULL;\n        break;\n\n    case DNS_TYPE_CNAME:\n    case DNS_TYPE_PTR:\n        RecordParser = DnsSimpleParserIterator_ParseCName;\n        break;\n\n    case DNS_TYPE_MX:\n        RecordParser = DnsSimpleParserIterator_ParseMailEx;\n        break;\n\n    case DNS_TYPE_SOA:\n        RecordParser = DnsSimpleParserIterator_ParseSOA;\n        break;\n\n    default:\n        return -1;')]),
('P19','mx-off',[('dnsgenerator.c','GET_16_BIT_U_INT(Data), Data + 2, Ttl','GET_16_BIT_U_INT(Data), Data, Ttl')]),
('P19','https-gone',[('dnsgenerator.c','    case DNS_TYPE_AAAA:\n    case DNS_TYPE_HTTPS:\n    case DNS_TYPE_TXT:\n        Ret = g->RawData','    case DNS_TYPE_AAAA:\n    case DNS_TYPE_TXT:\n        Ret = g->RawData')]),
('P19','ptr-type',[('dnsgenerator.c','Ret = DnsGenerator_NameRecord(g, Name, Type, Data, Ttl);','Ret = g->CName(g, Name, Data, Ttl);')]),
('P19','name-end',[('dnsparser.c','    LabelLength = strlen(Buffer);\n    if( IsToCache )\n    {\n        LabelLength += 1;\n    }','    LabelLength = strlen(Buffer);')]),
('P19','raw-len',[('dnsparser.c','        memcpy(Buffer, Data, i->DataLength);\n        return i->DataLength;','        memcpy(Buffer, Data, i->DataLength);\n        return i->DataLength - 1;')]),
('P19','key-fmt',[(D,'                          " %X %X",\n                          i->Type','                          " %x %X",\n                          i->Type')]),
('P19','mx-swap',[('dnsparser.c','        {"preference", DnsSimpleParserIterator_Parse16Uint},\n        {"mail exchanger", DnsSimpleParserIterator_UnpackLabeledName},','        {"mail exchanger", DnsSimpleParserIterator_UnpackLabeledName},\n        {"preference", DnsSimpleParserIterator_Parse16Uint},')]),
('P20','end-len',[(D,'(*CacheEnd) += RoundedLength;','(*CacheEnd) += Length;')]),
('P20','boundary',[(D,'MapStart + (*CacheEnd) + RoundedLength, &NewCreated','MapStart + (*CacheEnd), &NewCreated')]),
('P20','round',[(D,'    uint32_t    RoundedLength = CACHE_ROUND_UP(Length);','    uint32_t    RoundedLength = Length / 16 * 16;')]),
('P20','reuse-ge',[('cacheht.c','        if( CurNode->Length == ChunkSize )\n        {\n            int32_t HeirSubscript;','        if( CurNode->Length <= ChunkSize )\n        {\n            int32_t HeirSubscript;')]),
('P20','newflag',[('cacheht.c','            *NewCreated = FALSE;\n','            *NewCreated = TRUE;\n')]) ,
('P20','reoff',[(D,'        if( NewCreated == TRUE )\n        {\n            Node->Offset','        if( NewCreated == TRUE || Node->UsedLength == 0 )\n        {\n            Node->Offset')]),
('P20','nobound',[('cacheht.c','Array_PushBack(NodeChunk, NULL, Boundary)','Array_PushBack(NodeChunk, NULL, NULL)')]),
('P20','push',[('array.c','if( Boundary != NULL && ((a->Data) + (-1) * (a->DataLength) * (a->Used)) < (char *)Boundary )','if( Boundary != NULL && a->Data < (char *)Boundary )')]),
('P20','early',[(D,'if( CurrentTime - Node->TimeAdded >= Node->TTL )','if( CurrentTime - Node->TimeAdded + 59 >= Node->TTL )')]),
('P20','nomark',[(D,'                Node->TTL = 0;\n','')]),
('P20','idx',[(D,'CacheHT_RemoveFromSlot(CacheInfo, loop, Node);','CacheHT_RemoveFromSlot(CacheInfo, loop + 1, Node);')]),
('P20','end-off',[(D,'(*CacheEnd) = Node->Offset + Node->Length;','(*CacheEnd) = Node->Offset + Node->UsedLength;')]),
('P20','length',[('cacheht.c','    NewNode->Length = ChunkSize;','    NewNode->Length = ChunkSize - 1;')]),
('P21','ver',[(D,'    if( Header->Ver != CACHE_VERSION )\n','    if( Header->Ver > CACHE_VERSION )\n')]),
('P21','size',[(D,'if( Header->CacheSize != CacheSize )','if( Header->CacheSize > CacheSize )')]),
('P21','overwrite',[(D,'if( ConfigGetBoolean(ConfigInfo, "OverwriteCache") == FALSE )\n            {\n                return -1;\n            } else {','{')]),
('P21','always',[(D,'InitCacheInfo(ConfigInfo, ConfigGetBoolean(ConfigInfo, "ReloadCache"))','InitCacheInfo(ConfigInfo, TRUE)')]),
('P21','state',[(D,'    if( InitCacheInfoState != 0 )\n    {\n        return 6;\n    }\n','    if( InitCacheInfoState > 0 )\n    {\n        return 6;\n    }\n')]),
('P21','nover',[(D,'    Header->Ver = CACHE_VERSION;\n','')]),
]
ALLC=['P17','P18','P19','P20','P21']
QUIET=[
(ALLC,'find-helper',[(D,'static Cht_Node *DNSCache_FindFromCache(','static BOOL DNSCache_IsAlive(const Cht_Node *Node, time_t Now)\n{\n    return IgnoreTTL == TRUE || Now - Node->TimeAdded < Node->TTL;\n}\n\nstatic Cht_Node *DNSCache_FindFromCache('),(D,'if( IgnoreTTL == TRUE || (CurrentTime - Node->TimeAdded < Node->TTL) )','if( DNSCache_IsAlive(Node, CurrentTime) )')]),
(ALLC,'find-flat',[(D,'        if( IgnoreTTL == TRUE || (CurrentTime - Node->TimeAdded < Node->TTL) )\n        {\n            if( memcmp(Content, MapStart + Node->Offset + 1, Length) == 0 )\n            {\n                return Node;\n            }\n        }','        if( memcmp(MapStart + Node->Offset + 1, Content, Length) != 0 )\n        {\n            continue;\n        }\n\n        if( !IgnoreTTL && CurrentTime - Node->TimeAdded >= Node->TTL )\n        {\n            continue;\n        }\n\n        return Node;')]),
(ALLC,'ttl-helper',[(D,'/* State code returned */\nstatic int DNSCache_GetRawRecordsFromCache','static uint32_t DNSCache_RemainingTTL(const Cht_Node *Node, time_t Now)\n{\n    if( IgnoreTTL == TRUE )\n    {\n        return Node->TTL;\n    }\n    return Node->TTL - (Now - Node->TimeAdded);\n}\n\n/* State code returned */\nstatic int DNSCache_GetRawRecordsFromCache'),(D,'            if( IgnoreTTL == TRUE )\n            {\n                NewTTL = Node->TTL;\n            } else {\n                NewTTL = Node->TTL - (CurrentTime - Node->TimeAdded);\n            }\n\n            /* Skip','            NewTTL = DNSCache_RemainingTTL(Node, CurrentTime);\n\n            /* Skip'),(D,'            if( IgnoreTTL == TRUE )\n            {\n                NewTTL = Node->TTL;\n            } else {\n                NewTTL = Node->TTL - (CurrentTime - Node->TimeAdded);\n            }\n\n            if( g->CName','            NewTTL = DNSCache_RemainingTTL(Node, CurrentTime);\n\n            if( g->CName')]),
(ALLC,'add-order',[(D,'            /* Assign TTL */\n            Node->TTL = RecordTTL;\n\n            Node->TimeAdded = CurrentTime;\n','            Node->TimeAdded = CurrentTime;\n            Node->TTL = RecordTTL;\n')]),
(ALLC,'add-guard',[(D,'    if(DNSCache_FindFromCache(Item, BufferItr - Item, NULL, CurrentTime) == NULL)\n    {','    if(DNSCache_FindFromCache(Item, BufferItr - Item, NULL, CurrentTime) != NULL)\n    {\n        return 0;\n    }\n    {')]),
(ALLC,'items-cont',[(D,'        if( RightPurpose && IsValidCachedType(i.Type) && CachedClass )\n        {\n            DNSCache_AddAItemToCache(&i, time(NULL), TtlContent);\n        }','        if( !RightPurpose || !CachedClass )\n        {\n            continue;\n        }\n\n        if( !IsValidCachedType(i.Type) )\n        {\n            continue;\n        }\n\n        DNSCache_AddAItemToCache(&i, time(NULL), TtlContent);')]),
(ALLC,'type-switch',[(D,'    return  /* raw */\n            Type == DNS_TYPE_A ||\n            Type == DNS_TYPE_AAAA ||\n            Type == DNS_TYPE_HTTPS ||\n            Type == DNS_TYPE_TXT ||\n            /* labeled names */\n            Type == DNS_TYPE_CNAME ||\n            Type == DNS_TYPE_PTR ||\n            Type == DNS_TYPE_NS ||\n            /* Has labeled names */\n            Type == DNS_TYPE_MX;','    switch( Type )\n    {\n    case DNS_TYPE_A:\n    case DNS_TYPE_AAAA:\n    case DNS_TYPE_HTTPS:\n    case DNS_TYPE_TXT:\n    case DNS_TYPE_CNAME:\n    case DNS_TYPE_PTR:\n    case DNS_TYPE_NS:\n    case DNS_TYPE_MX:\n        return TRUE;\n    default:\n        return FALSE;\n    }')]),
(ALLC,'chunk-early',[(D,'    if( NodeNumber >= 0 )\n    {\n        if( NewCreated == TRUE )','    if( NodeNumber < 0 )\n    {\n        *Out = NULL;\n        return -1;\n    }\n    {\n        if( NewCreated )'),(D,'        *Out = Node;\n        return NodeNumber;\n    } else {\n        *Out = NULL;\n        return -1;\n    }','        *Out = Node;\n        return NodeNumber;\n    }')]),
(ALLC,'sweep-cont',[(D,'        if( Node->TTL > 0 )\n        {\n            if( CurrentTime - Node->TimeAdded >= Node->TTL )\n            {\n','        {\n            if( Node->TTL > 0 && !(CurrentTime - Node->TimeAdded < Node->TTL) )\n            {\n')]),
(ALLC,'sweep-for',[(D,'    Node = (Cht_Node *)Array_GetBySubscript(ChunkList, loop);\n\n    while( Node != NULL )\n    {','    for( ; (Node = (Cht_Node *)Array_GetBySubscript(ChunkList, loop)) != NULL; --loop )\n    {'),(D,'\n        Node = (Cht_Node *)Array_GetBySubscript(ChunkList, --loop);\n','\n')]),
(ALLC,'gen-if',[('dnsgenerator.c','    case DNS_TYPE_MX:\n        Ret = g->MX(g, Name, GET_16_BIT_U_INT(Data), Data + 2, Ttl);\n        break;','    case DNS_TYPE_MX:\n        {\n            const char *Exchange = Data + 2;\n            int Preference = GET_16_BIT_U_INT(Data);\n            Ret = g->MX(g, Name, Preference, Exchange, Ttl);\n        }\n        break;')]),
(ALLC,'tocache-ret',[('dnsparser.c','    if( RecordParser != NULL )\n    {\n        return RecordParser(i,\n                            Data,\n                            NULL,\n                            Buffer,\n                            BufferLength\n                            );\n\n    } else {\n        if( i->DataLength >= BufferLength )\n        {\n            return 0;\n        }\n        memcpy(Buffer, Data, i->DataLength);\n        return i->DataLength;\n    }\n}\n\nstatic uint32_t','    if( RecordParser == NULL )\n    {\n        int DataLength = i->DataLength;\n\n        if( DataLength >= BufferLength )\n        {\n            return 0;\n        }\n        memcpy(Buffer, Data, DataLength);\n        return DataLength;\n    }\n\n    return RecordParser(i, Data, NULL, Buffer, BufferLength);\n}\n\nstatic uint32_t')]),
(ALLC,'reload-helper',[(D,'    if( Reload == TRUE )\n    {\n        if( IsReloadable() )\n        {\n            ReloadCache();\n        } else {\n            if( ConfigGetBoolean(ConfigInfo, "OverwriteCache") == FALSE )\n            {\n                return -1;\n            } else {\n                CreateNewCache();\n                INFO("The existing cache has been overwritten.\\n");\n            }\n        }\n    } else {\n        CreateNewCache();\n    }\n    return 0;','    if( !Reload )\n    {\n        CreateNewCache();\n        return 0;\n    }\n\n    if( IsReloadable() )\n    {\n        ReloadCache();\n        return 0;\n    }\n\n    if( !ConfigGetBoolean(ConfigInfo, "OverwriteCache") )\n    {\n        return -1;\n    }\n\n    CreateNewCache();\n    INFO("The existing cache has been overwritten.\\n");\n    return 0;')]),
(ALLC,'unused-else',[('cacheht.c','            CurNode->UsedLength = 0;\n            CurNode->Next = -1;\n\n            if( Out != NULL )\n            {\n                *Out = CurNode;\n            }\n\n            *NewCreated = FALSE;','            *NewCreated = FALSE;\n            CurNode->Next = -1;\n            CurNode->UsedLength = 0;\n\n            if( Out != NULL )\n            {\n                *Out = CurNode;\n            }\n')]),
]
