BUGS=[
('P03','len-exact',[('ipmisc.c','        if( i.DataLength < DataLength )\n        {\n            continue;','        if( i.DataLength <= DataLength && i.Type == DNS_TYPE_AAAA )\n        {\n            continue;')]),
('P03','neg-after',[('ipmisc.c','p._Flags.ResponseCode(&p) != RESPONSE_CODE_NO_ERROR','p._Flags.ResponseCode(&p) == RESPONSE_CODE_NAME_ERROR')]),
('P03','authority-too-late',[('ipmisc.c','    i.GotoAnswers(&i);\n    while( i.Next(&i) != NULL && i.Purpose','    i.Next(&i);\n    i.Next(&i);\n    while( i.Next(&i) != NULL && i.Purpose')]),
('P03','parse-fail-block',[('ipmisc.c','        case IP_MISC_TYPE_BLOCK:\n            return IP_MISC_FILTERED_IP;','        case IP_MISC_TYPE_BLOCK:\n            if( i.TTL != 0 ) return IP_MISC_FILTERED_IP;')]),
('P03','block-load-once',[('ipmisc.c','IpMiscMapping->SetBlockNegative(IpMiscMapping, BlockNegative);','if( BlockIP == NULL ) IpMiscMapping->SetBlockNegative(IpMiscMapping, BlockNegative);')]),
('P03','prefix-L',[('ipchunk.c','} else if( n > L ) {\n            n = L;','} else if( n >= 32 ) {\n            n = 32;')]),
('P13','proc-null-outside',[('ipmisc.c','    RWLock_RdLock(IpMiscMappingLock);\n\n    ret = CurrIpMiscMapping->Process(CurrIpMiscMapping,','    IPMisc *cur = CurrIpMiscMapping;\n    RWLock_RdLock(IpMiscMappingLock);\n\n    ret = cur->Process(cur,')]),
('P13','dyn-free-before',[('dynamichosts.c','    RWLock_WrLock(HostsLock);\n\n    DynamicHosts_ContainerCleanup((HostsContainer *)MainDynamicContainer);\n','    DynamicHosts_ContainerCleanup((HostsContainer *)MainDynamicContainer);\n\n    RWLock_WrLock(HostsLock);\n')]),
('P13','stat-unlocked',[('domainstatistic.c','    EFFECTIVE_LOCK_GET(StatisticLock);\n    SkipStatistic = TRUE;\n    EFFECTIVE_LOCK_RELEASE(StatisticLock);','    SkipStatistic = TRUE;')]),
('P13','ttl-task-rd',[('dnscache.c','    RWLock_WrLock(CacheLock);\n\n    loop = ','    RWLock_RdLock(CacheLock);\n\n    loop = '),('dnscache.c','        }\n    }\n\n    RWLock_UnWLock(CacheLock);\n}\n\nstatic BOOL IsReloadable','        }\n    }\n\n    RWLock_UnRLock(CacheLock);\n}\n\nstatic BOOL IsReloadable')]),
('P15','hosts-load-inplace',[('dynamichosts.c','    TempContainer = (HostsContainer *)SafeMalloc(sizeof(HostsContainer));\n    if( TempContainer == NULL )','    TempContainer = MainDynamicContainer ? (HostsContainer *)MainDynamicContainer : (HostsContainer *)SafeMalloc(sizeof(HostsContainer));\n    if( TempContainer == NULL )')]),
('P15','block-mapping-file-fatal',[('ipmisc.c','                ERRORMSG("Failed loading: %s.\\n", FilePath);','                ERRORMSG("Failed loading: %s.\\n", FilePath);\n                ret = -200;\n                goto EXIT_2;')]),
('P15','mapping-line-part',[('ipmisc.c','                ipMiscMapping->AddSubstituteFromString(ipMiscMapping, Itr, Itr2);\n            }else','                ipMiscMapping->AddSubstituteFromString(ipMiscMapping, Itr, Itr2);\n                if( ferror(fp) || Itr != Mapping ) break;\n            }else')]),
('P15','reload-hosts-only',[('dynamichosts.c','        Filter_Update();\n','        if( Ret != 0 ) Filter_Update();\n')]),
('P31','tcpm-incoming-any',[('utils.c','        if( connect(ret,\n                    (struct sockaddr *)&(Address1.Addr),','        if( Ipv6 && connect(ret,\n                    (struct sockaddr *)&(Address1.Addr),')]),
('P31','open-nobind',[('hosts.c','    OuterSocket = TryBindLocal(Ipv6_Enabled, 10200, &OuterAddress);','    OuterSocket = socket(AF_INET, SOCK_DGRAM, IPPROTO_UDP);')]),
('P33','info-domain',[('domainstatistic.c','"Domain:\\"%s\\","\n                        "Total:%d,"','"Domain:\\"%s\\","\n                        "Total:%s,"')]),
('P33','logs-va',[('filter.c','ERRORMSG("','Log_Print("ERROR", Buffer); ERRORMSG("')]),
('P12','hosts-in-modules',[('mmgr.c','    RWLock_WrLock(ModulesLock);\n','    RWLock_WrLock(ModulesLock);\n    Filter_Update();\n')]),
('P12','filter-holding-cache',[('dnscache.c','    TtlContent =  CacheTtlCrtl_Get(TtlCtrl, Header->Domain);\n    RWLock_WrLock(CacheLock);','    RWLock_WrLock(CacheLock);\n    TtlContent =  CacheTtlCrtl_Get(TtlCtrl, Header->Domain);\n    IPMiscMapping_Process(MsgCtx);')]),
('P10','statpath',[('domainstatistic.c','    char FilePath[1024];','    char FilePath[64];')]),
('P10','goodip-n',[('goodiplist.c','        char n[128];\n','        char n[127];\n')]),
('P10','agent-copy',[('iheader.c','strncpy(h->Agent, Agent, sizeof(h->Agent));','strcpy(h->Agent, Agent);')]),
('P10','addr-copy',[('iheader.c','memcpy(&(h->BackAddress.Addr), BackAddress, GetAddressLength(Family));','memcpy(&(h->BackAddress.Addr), BackAddress, sizeof(Address_Type) + 4);')]),
('P10','cmd-template',[('downloader.c','strcpy(TempFile, File);\n    strcat(TempFile, ".tmp");','strcpy(TempFile, File);\n    strcat(TempFile, ".tmp.download");')]),
('P10','utils-hex',[('goodiplist.c','ip_str[LENGTH_OF_IPV4_ADDRESS_ASCII]','ip_str[LENGTH_OF_IPV4_ADDRESS_ASCII - 1]')]),
('P08','goodip-count',[('goodiplist.c','        if( skt == INVALID_SOCKET )\n        {\n            continue;','        if( skt == INVALID_SOCKET )\n        {\n            --i;\n            continue;')]),
('P08','readline-eof',[('ipmisc.c','        if( Status == READ_FAILED_OR_END )\n        {\n            break;\n        }\n\n        if( Status == READ_DONE )','        if( Status == READ_FAILED_OR_END && Mapping[0] == 0 )\n        {\n            break;\n        }\n\n        if( Status == READ_DONE )')]),
('P02','block6-a-type',[('hosts.c','Header->Type == DNS_TYPE_AAAA &&','Header->Type != DNS_TYPE_A &&')]),
('P02','blocked-is-none',[('hosts.c','            /** TODO: Show blocked message */\n            return HOSTSUTILS_TRY_BLOCKED;','            /** TODO: Show blocked message */\n            return HOSTSUTILS_TRY_NONE;')]),
('P02','recursed-fail-ok',[('hosts.c','            < 0 )\n        {\n            return HOSTSUTILS_TRY_NONE;','            < 0 )\n        {\n            return HOSTSUTILS_TRY_OK;')]),
('P23','swap-after-free',[('dynamichosts.c','    DynamicHosts_ContainerCleanup((HostsContainer *)MainDynamicContainer);\n    MainDynamicContainer = TempContainer;','    DynamicHosts_ContainerCleanup((HostsContainer *)MainDynamicContainer);\n    if( TempContainer->TypeExisting != NULL ) TempContainer->Load(TempContainer, "");\n    if( MainDynamicContainer != NULL && MainDynamicContainer->Load != NULL ) MainDynamicContainer = NULL;\n    MainDynamicContainer = TempContainer;')]),
('P22','goodip-addfail',[('goodiplist.c','            FatalErrorDecideding(GET_LAST_ERROR()) != 0\n            )\n        {\n            CLOSE_SOCKET(skt);','            FatalErrorDecideding(GET_LAST_ERROR()) != 0\n            )\n        {')]),
('P22','goodip-free',[('goodiplist.c','    if( p.Select(&p, &Time, (void **)&Fastest, FALSE, TRUE, NULL) == INVALID_SOCKET )\n    {\n        ret = NULL;\n    }','    if( p.Select(&p, &Time, (void **)&Fastest, FALSE, TRUE, NULL) == INVALID_SOCKET )\n    {\n        return NULL;\n    }')]),
('P26','tcp-accept-recv-loop',[('tcpfrontend.c','RecvState = TcpFrontend_Recv(sock_c, Entity, TCPLength);','RecvState = recv(sock_c, Entity, TCPLength, MSG_WAITALL);')]),
('P26','tcpm-wait-forever',[('tcpm.c','    if( SetSocketNonBlock(s, TRUE) != 0 )','    if( af == AF_INET6 && SetSocketNonBlock(s, TRUE) != 0 )')]),
]
QUIET=[]
