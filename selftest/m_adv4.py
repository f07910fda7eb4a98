"""bugs written from the property texts alone: building and reading messages, reload, hosts, shared data"""
G='dnsgenerator.c'; D='dnsparser.c'; MM='mmgr.c'; H='hosts.c'; HU='hostsutils.c'; DH='dynamichosts.c'; F='filter.c'; IM='ipmisc.c'; DC='dnscache.c'; UM='udpm.c'; TM='tcpm.c'
BUGS=[
('P07','label-room',[(G,'    if( OriginSpaceLength < strlen(Origin) + 2 )\n        return NULL;\n',''),(G,'#define LABEL_LENGTH(name)  (*(name) == \'\\0\' ? 1 : strlen(name) + 2)','#define LABEL_LENGTH(name)  (*(name) == \'\\0\' ? 1 : strlen(name) + 1)')]),
('P07','mx-pref-late',[(G,'''    if( DnsGenerator_16Uint(g, Preference) != 0 )
    {
        return -6;
    }

    if( DnsGenerator_NamePart(g, Server) != 0 )
    {
        return -7;
    }
''','''    if( DnsGenerator_NamePart(g, Server) != 0 )
    {
        return -7;
    }

    if( DnsGenerator_16Uint(g, Preference) != 0 )
    {
        return -6;
    }
''')]),
('P07','copycname-len',[(G,'if( DnsGenerator_16Uint(g, CNameLabelLength) != 0 )','if( DnsGenerator_16Uint(g, i->DataLength) != 0 )')]),
('P07','copya-klass-ttl',[(G,'''    if( DnsGenerator_32Uint(g, i->GetTTL(i)) != 0 )
    {
        return -4;
    }

    if( DnsGenerator_16Uint(g, 4) != 0 )''','''    if( i->GetTTL(i) != 0 && DnsGenerator_32Uint(g, i->GetTTL(i)) != 0 )
    {
        return -4;
    }

    if( DnsGenerator_16Uint(g, 4) != 0 )''')]),
('P07','compress-stale-len',[(G,'        p.RawDnsLength -= LengthDifference;\n','        if( LengthDifference > 0 && i.Type != DNS_TYPE_CNAME )\n        {\n            p.RawDnsLength -= LengthDifference;\n        }\n')]),
('P07','compress-move',[(G,'p.RawDnsLength - ((CurrentName + LengthDifference) - p.RawDns)','p.RawDnsLength - (CurrentName - p.RawDns)')]),
('P07','strip-counts',[(G,'''            DNSSetNameServerCount(g->Buffer, 0);
            DNSSetAdditionalCount(g->Buffer, 0);
        }
''','''            DNSSetNameServerCount(g->Buffer, 0);
        }
''')]),
('P07','counts-not-zeroed',[(G,'''        DNSSetQuestionCount(g->Buffer, 0);
        DNSSetAnswerCount(g->Buffer, 0);
        DNSSetNameServerCount(g->Buffer, 0);''','''        DNSSetQuestionCount(g->Buffer, 0);
        DNSSetNameServerCount(g->Buffer, 0);''')]),
('P07','purpose-skip',[(G,'        g->Itr = g->Buffer + DNS_HEADER_LENGTH;\n','        g->Itr = g->Buffer + DNS_HEADER_LENGTH - 2;\n')]),
('P07','edns-order',[(G,'''    if( DnsGenerator_32Uint(g, 0) != 0 )
    {
        return -4;
    }

    if( DnsGenerator_16Uint(g, 0) != 0 )
    {
        return -5;
    }
''','''    if( DnsGenerator_32Uint(g, 0) != 0 )
    {
        return -4;
    }
''')]),
('P07','copyname-unchecked',[(G,'    if( LabelLength < 0 || LEFT_LENGTH(g) < LabelLength )','    if( LabelLength < 0 || g->BufferLength < LabelLength )')]),
('P07','aaaa-as-a',[(G,'    if( DnsGenerator_IPv6(g, ip) != 0 )','    if( (strchr(ip, \':\') == NULL ? DnsGenerator_IPv4(g, ip) : DnsGenerator_IPv6(g, ip)) != 0 )')]),
('P07','raw-zero-len',[(G,'    memcpy(g->Itr, Data, DataLength);\n    g->Itr += DataLength;','    memcpy(g->Itr, Data, DataLength);\n    g->Itr += Type == DNS_TYPE_TXT ? strlen(Data) : DataLength;')]),
('P07','count-wrong-section',[(G,'''    memcpy(g->Itr, i->RowData(i), 16);

    g->Itr += 16;

    SET_16_BIT_U_INT(g->NumberOfRecords,
                     GET_16_BIT_U_INT(g->NumberOfRecords) + 1
                     );''','''    memcpy(g->Itr, i->RowData(i), 16);

    g->Itr += 16;

    DNSSetAnswerCount(g->Buffer, DNSGetAnswerCount(g->Buffer) + 1);''')]),
('P08','backwards-eq',[(D,'            if( LabelPointer >= NameItr - DNSBody )','            if( LabelPointer > NameItr - DNSBody )')]),
('P09','txt-inner',[(D,'if( n >= BufferLeft || n >= Data + DataLength - DataItr )','if( n >= BufferLeft || n > Data + DataLength - DataItr )')]),
('P09','mx-short',[(D,'''    if( *DataLength < 2 )
    {
        return -1;
    }

    if( IsToCache )
    {
        if( 2 > BufferLength )''','''    if( *DataLength < 1 )
    {
        return -1;
    }

    if( IsToCache )
    {
        if( 2 > BufferLength )''')]),
('P09','datalen-stale',[(D,'            i->DataLength = DNSGetResourceDataLength(i->CurrentPosition);\n\n            if( NameLength + 10 + i->DataLength > LeftLength )','            i->DataLength = DNSGetResourceDataLength(i->CurrentPosition);\n\n            if( i->Type != DNS_TYPE_OPT && NameLength + 10 + i->DataLength > LeftLength )')]),
('P09','left-from-start',[(D,'''    LeftLength = i->Parser->RawDnsLength -
                 (i->CurrentPosition - i->Parser->RawDns);''','''    LeftLength = i->Parser->RawDnsLength - DNS_HEADER_LENGTH;''')]),
('P09','init-tcp',[(D,'if( RawDns == NULL || Length < DNS_HEADER_LENGTH )','if( RawDns == NULL || Length < 4 )')]),
('P09','question-ex',[(D,'''                       4 :
''','''                       10 :
''')]) if 0 else
('P09','goto-nocheck',[(D,'''    if( NameLength < 0 ||
        NameLength +''','''    if( NameLength == -1 && i->Purpose == DNS_RECORD_PURPOSE_QUESTION )
    {
        return NULL;
    }

    if( NameLength +''')]),
('P09','copya-anylen',[(G,'if( i->Type != DNS_TYPE_AAAA || i->Klass != DNS_CLASS_IN || i->DataLength != 16 )','if( i->Type != DNS_TYPE_AAAA || i->Klass != DNS_CLASS_IN || i->DataLength < 4 )')]),
('P02','blocked-no-return',[(H,'''        DomainStatistic_Add(Header, STATISTIC_TYPE_REFUSED);
        return 0;
        break;
''','''        DomainStatistic_Add(Header, STATISTIC_TYPE_REFUSED);
        break;
''')]),
('P02','dyn-when-error',[(H,'''    if( ret != HOSTSUTILS_TRY_NONE )
    {
        return ret;
    }
''','''    if( ret == HOSTSUTILS_TRY_OK || ret == HOSTSUTILS_TRY_RECURSED )
    {
        return ret;
    }
''')]) if 0 else
('P02','group-fallthrough',[(MM,'    if( Hosts_Get(MsgCtx, BufferLength) == 0 )\n    {\n        return 0;\n    }\n','    if( Hosts_Get(MsgCtx, BufferLength) == 0 && !MsgContext_IsFromTCP(MsgCtx) )\n    {\n        return 0;\n    }\n')]),
('P02','exclude-static-first',[(H,'''    if( Hosts_TypeExisting(Header->Domain, HOSTS_TYPE_EXCLUEDE) )
    {
        return HOSTSUTILS_TRY_NONE;
    }

    ret = Hosts_Try_Inner(MsgCtx, BufferLength);
''','''    ret = Hosts_Try_Inner(MsgCtx, BufferLength);

    if( ret == HOSTSUTILS_TRY_NONE || Hosts_TypeExisting(Header->Domain, HOSTS_TYPE_EXCLUEDE) )
    {
        return HOSTSUTILS_TRY_NONE;
    }
''')]),
('P13','dyn-null-old',[(DH,'RWLock_WrLock(HostsLock);','if( MainDynamicContainer != NULL ) { MainDynamicContainer->Free((HostsContainer *)MainDynamicContainer); }\n    RWLock_WrLock(HostsLock);')]) ,
('P16','udp-threads-or',[(MM,'InUse |= M->ModuleUnion.Udp.WorkThread != NULL_THREAD;','InUse |= M->ModuleUnion.Udp.IsServer;')]),
('P16','only-last',[(MM,'''            for( i = 0; i * sizeof(ModuleInterface) < BytesOfMetaInfo; ++i, ++M )''','''            for( i = 1; i * sizeof(ModuleInterface) < BytesOfMetaInfo; ++i, ++M )''')]),
('P16','old-freed-now',[(MM,'''    CREATE_THREAD(Modules_SafeCleanup, CurModuleMap, th);
    DETACH_THREAD(th);
    CurModuleMap = NewModuleMap;''','''    Modules_Free(CurModuleMap);
    CurModuleMap = NewModuleMap;''')]),
('P16','new-cleaned',[(MM,'''    CREATE_THREAD(Modules_SafeCleanup, CurModuleMap, th);
    DETACH_THREAD(th);
    CurModuleMap = NewModuleMap;''','''    CurModuleMap = NewModuleMap;
    CREATE_THREAD(Modules_SafeCleanup, CurModuleMap, th);
    DETACH_THREAD(th);''')]),
('P15','list-file-fatal-skip',[(MM,'''                StrToLower(Buffer);

                Domains.Add(&Domains, Buffer, NULL);
            } while( TRUE );''','''                StrToLower(Buffer);

                if( Domains.Count(&Domains) < 1024 )
                {
                    Domains.Add(&Domains, Buffer, NULL);
                }
            } while( TRUE );''')]),
('P15','unknown-type-ok',[(MM,'''            ERRORMSG("Initializing server groups failed, near %s.\\n", Type);
            return -230;''','''            ERRORMSG("Initializing server groups failed, near %s.\\n", Type);
            break;''')]),
('P15','load-before-init',[(MM,'''    ret = Modules_Init(NewModuleMap, ConfigInfo);

    if (ret)
    {''','''    CurModuleMap = CurModuleMap == NULL ? NewModuleMap : CurModuleMap;
    ret = Modules_Init(NewModuleMap, ConfigInfo);

    if (ret)
    {''')]),
('P13','swap-unlocked',[(MM,'''    RWLock_WrLock(ModulesLock);

    CREATE_THREAD(Modules_SafeCleanup, CurModuleMap, th);
    DETACH_THREAD(th);
    CurModuleMap = NewModuleMap;

    RWLock_UnWLock(ModulesLock);''','''    RWLock_WrLock(ModulesLock);

    CREATE_THREAD(Modules_SafeCleanup, CurModuleMap, th);
    DETACH_THREAD(th);

    RWLock_UnWLock(ModulesLock);
    CurModuleMap = NewModuleMap;''')]),
('P31','no-connect',[('utils.c','connect(','listen(')]) if 0 else

('P24','keepalive-bool',[(MM,'TCPM_Keep_Alive = ConfigGetInt32(ConfigInfo, "TCPKeepAlive");','TCPM_Keep_Alive = ConfigGetBoolean(ConfigInfo, "TCPKeepAlive");')]),
('P24','udp-tcp-swapped',[(MM,'EnableUDPtoTCP = ConfigGetBoolean(ConfigInfo, "EnableUDPtoTCP");\n    EnableTCPtoUDP = ConfigGetBoolean(ConfigInfo, "EnableTCPtoUDP");','EnableUDPtoTCP = ConfigGetBoolean(ConfigInfo, "EnableTCPtoUDP");\n    EnableTCPtoUDP = ConfigGetBoolean(ConfigInfo, "EnableUDPtoTCP");')]),
('P24','block6-neg',[(H,'''    BlockIpv6WhenIpv4Exists = ConfigGetBoolean(ConfigInfo,
                                                 "BlockIpv6WhenIpv4Exists"
                                                 );''','''    BlockIpv6WhenIpv4Exists = !ConfigGetBoolean(ConfigInfo,
                                                 "BlockIpv6WhenIpv4Exists"
                                                 );''')]),
('P04','parent-wrong',[(H,'OuterHeader->Parent = (IHeader *)MsgCtxStored;','OuterHeader->Parent = (IHeader *)InnerMsgCtx;')]),
('P04','outer-id-dropped',[(H,'            DNSCopyQueryIdentifier(InnerHeader + 1, BackTraceHeader + 1);\n','')]),
('P06','inner-short',[(H,'''            if( State < 1 )
            {
                continue;
            }

            if( Hosts_GetCName(''','''            if( State < 0 )
            {
                continue;
            }

            if( Hosts_GetCName(''')]) if 0 else
('P04','combine-fail-sent',[(H,'''                ERRORMSG("Fatal error 279.\\n");
                continue;''','''                ERRORMSG("Fatal error 279.\\n");''')]),
('P04','gen-fail-sent',[(H,'''                ERRORMSG("Fatal error 267.\\n");
                continue;''','''                ERRORMSG("Fatal error 267.\\n");''')]),
]
QUIET=[]
