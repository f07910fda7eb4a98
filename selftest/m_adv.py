# bugs written from the statements alone
BUGS=[
# P01
('P01','type-cmp-gt',[('filter.c','    return *_1 - *_2;','    return *_1 > *_2;')]),
('P01','type-cmp-byte',[('filter.c','    return *_1 - *_2;','    return (char)*_1 - (char)*_2;')]),
('P01','list-longline',[('filter.c','            ReadLine_GoToNextLine(fp);\n        }\n    }\n\n    fclose(fp);','            break;\n        }\n    }\n\n    fclose(fp);')]),
('P01','exact-only',[('filter.c','StringChunk_Domain_Match(DisabledDomain, Domain, &HashValue, NULL, NULL, NULL)','StringChunk_Match(DisabledDomain, Domain, &HashValue, NULL, NULL, NULL)')]),
('P01','nowild',[('filter.c','StringChunk_Domain_Match(DisabledDomain, Domain, &HashValue, NULL, NULL, NULL)','StringChunk_Domain_Match_NoWildCard(DisabledDomain, Domain, &HashValue, NULL, NULL, NULL)')]),
('P01','first-type-only',[('filter.c','        OneTypePendingToAdd_Str = sli.Next(&sli);\n    }\n\n    DisableType_Str','        OneTypePendingToAdd_Str = NULL;\n    }\n\n    DisableType_Str')]),
('P01','reload-config-lost',[('filter.c','    if( InitChunk(List) != 0 )\n    {\n        return -117;','    if( *List == NULL && InitChunk(List) != 0 )\n    {\n        return -117;'),('filter.c','    if( FilterDomain_Init(&TempDisabledDomain, ConfigInfo) != 0 )','    if( DisabledDomain == NULL && FilterDomain_Init(&TempDisabledDomain, ConfigInfo) != 0 )')]),
('P01','tcp-not-filtered',[('filter.c','    if(IsDisabledType(h->Type) || IsDisabledDomain(h->Domain, h->HashValue) )','    if( (IsDisabledType(h->Type) && !MsgContext_IsFromTCP(MsgCtx)) || IsDisabledDomain(h->Domain, h->HashValue) )')]),
('P01','hash-in-parents',[('stringchunk.c','        if( StringChunk_Match_NoWildCard(dl, Domain + 1, NULL, Data, cb, Expected) == TRUE )\n        {\n            return TRUE;\n        }\n\n        Domain = strchr(Domain + 1, \'.\');\n    }\n\n    return FALSE;\n}\n\nBOOL StringChunk_Domain_Match(','        if( StringChunk_Match_NoWildCard(dl, Domain + 1, HashValue, Data, cb, Expected) == TRUE )\n        {\n            return TRUE;\n        }\n\n        Domain = strchr(Domain + 1, \'.\');\n    }\n\n    return FALSE;\n}\n\nBOOL StringChunk_Domain_Match(')]),
('P01','wild-skip-first',[('stringchunk.c','    for( loop = 0; loop != Array_GetUsed(wl); ++loop )','    for( loop = 1; loop < Array_GetUsed(wl); ++loop )')]),
('P01','one-parent-only',[('stringchunk.c','            return TRUE;\n        }\n\n        Domain = strchr(Domain + 1, \'.\');\n    }\n\n    return FALSE;\n}\n\nBOOL StringChunk_Domain_Match(','            return TRUE;\n        }\n\n        Domain = NULL;\n    }\n\n    return FALSE;\n}\n\nBOOL StringChunk_Domain_Match(')]),
('P01','refuse-keeps-query',[('iheader.c','    RequestContent->Flags.Direction = 1;\n','    RequestContent->Flags.Direction = MsgContext_IsFromTCP(MsgCtx) ? 0 : 1;\n')]),
('P01','lowercase-lost',[('iheader.c','            StrToLower(h->Domain);\n            h->HashValue','            h->HashValue')]),
('P01','hash-before-lower',[('iheader.c','            StrToLower(h->Domain);\n            h->HashValue = HASH(h->Domain, 0);','            h->HashValue = HASH(h->Domain, 0);\n            StrToLower(h->Domain);')]),
# P02
('P02','block6-a-only',[('hosts.c','    if( Hosts_TypeExisting(Header->Domain, HOSTS_TYPE_EXCLUEDE) )\n    {\n        return HOSTSUTILS_TRY_NONE;\n    }\n','    if( StaticHosts_TypeExisting(Header->Domain, HOSTS_TYPE_EXCLUEDE) )\n    {\n        return HOSTSUTILS_TRY_NONE;\n    }\n')]),
('P02','send-all-groups',[('mmgr.c','        ret = TheModule->Send(&(TheModule->ModuleUnion), h, BufferLength);\n','        ret = TheModule->Send(&(TheModule->ModuleUnion), h, BufferLength);\n        if( ret != 0 && Array_GetUsed(CurModuleMap->ModuleArray) > 1 )\n        {\n            i = Array_GetBySubscript(CurModuleMap->ModuleArray, 0);\n            ret = (*i)->Send(&((*i)->ModuleUnion), h, BufferLength);\n        }\n')]),
('P02','cache-reply-then-fwd',[('dnscache.c','        ShowErrorMessage(h, \'C\');\n        return 0;','        ShowErrorMessage(h, \'C\');\n        return -8;')]),
('P02','hosts-ok-after-fail',[('hostsutils.c','        MsgContext_SendBack(MsgCtx);\n\n        return HOSTSUTILS_TRY_OK;','        if( MsgContext_SendBack(MsgCtx) != 0 )\n        {\n            return HOSTSUTILS_TRY_NONE;\n        }\n\n        return HOSTSUTILS_TRY_OK;')]),
('P02','aaaa-recursed',[('hostsutils.c','    if( Header->Type != DNS_TYPE_CNAME &&','    if( Header->Type == DNS_TYPE_A &&')]),
('P02','cache-when-edns',[('mmgr.c','    if( DNSCache_FetchFromCache(MsgCtx, BufferLength) == 0 )','    if( !h->EDNSEnabled && DNSCache_FetchFromCache(MsgCtx, BufferLength) == 0 )')]),
('P02','dyn-on-cname-static',[('hosts.c','    ret = StaticHosts_Try(MsgCtx, BufferLength);\n    if( ret != HOSTSUTILS_TRY_NONE )','    ret = StaticHosts_Try(MsgCtx, BufferLength);\n    if( ret != HOSTSUTILS_TRY_NONE && ret != HOSTSUTILS_TRY_RECURSED )')]),
# P03
('P03','cname-stops',[('ipmisc.c','        default:\n            continue;\n        }\n\n        if( i.DataLength < DataLength )','        default:\n            return IP_MISC_NOTHING;\n        }\n\n        if( i.DataLength < DataLength )')]),
('P03','sub-stops',[('ipmisc.c','            memcpy(RowDataPos, Data, DataLength);\n            break;','            memcpy(RowDataPos, Data, DataLength);\n            return IP_MISC_NOTHING;')]),
('P03','neg-nxdomain-only',[('ipmisc.c','        p._Flags.ResponseCode(&p) != RESPONSE_CODE_NO_ERROR','        p._Flags.ResponseCode(&p) == RESPONSE_CODE_NAME_ERROR')]),
('P03','neg-reload-lost',[('ipmisc.c','    IpMiscMapping->SetBlockNegative(IpMiscMapping, BlockNegative);\n','    if( CurrIpMiscMapping == NULL )\n    {\n        IpMiscMapping->SetBlockNegative(IpMiscMapping, BlockNegative);\n    }\n')]),
('P03','cidr-mask',[('ipchunk.c','mask = htonl(~(~0U >> prefixBitsElm));','mask = ~(~0U >> prefixBitsElm);')]),
('P03','cidr-word',[('ipchunk.c','for(; prefixBitsElm >= 32; prefixBitsElm -= 32)','for(; prefixBitsElm > 32; prefixBitsElm -= 32)')]),
('P03','cidr-skip',[('ipchunk.c','            bn += 12;\n            be += 12;','            bn += 12;\n            be += 10;')]),
('P03','single-only',[('ipchunk.c','    if( Result == NULL )\n    {\n        /* Ranges','    if( Result == NULL && IpBytes == 4 )\n    {\n        /* Ranges')]),
('P03','cidr-search-only',[('ipchunk.c','        ic->CidrChunk.Enum(&(ic->CidrChunk), IpChunk_FindCidr_Inner, &Lookup);','')]),
('P03','cidr-cb-stop',[('ipchunk.c','    if( Contain(Lookup->Key, (IpElement *)Data) != 0 )\n    {\n        return 0;','    if( Contain(Lookup->Key, (IpElement *)Data) != 0 )\n    {\n        return Lookup->Result != NULL || ((IpElement *)Data)->IpSet.PrefixBits == 0;')]),
('P03','edns-hdr',[('tcpm.c','            if( MsgContext_IsBlocked(MsgCtx) )\n','            if( MsgContext_IsBlocked(MsgCtx) && m->SocksProxies == NULL )\n')]),
('P03','edns-kept',[('iheader.c','    h->RequestTcp = FALSE;\n    h->EDNSEnabled = FALSE;\n\n    if( DnsSimple','    h->RequestTcp = FALSE;\n\n    if( DnsSimple')]),
('P03','aaaa-len4',[('ipmisc.c','            DataLength = 16;\n','            DataLength = 4;\n')]),
('P03','v6-substitute',[('ipmisc.c','                              IpSubstituter,\n                              16\n','                              IpSubstituter,\n                              4\n')]),
('P03','second-answer',[('ipmisc.c','    i.GotoAnswers(&i);\n    while( i.Next(&i)','    i.GotoAnswers(&i);\n    i.Next(&i);\n    while( i.Next(&i)')]),
# P04
('P04','cmp-id-only',[('mcontext.c','        return (One->HashValue > Two->HashValue) - (One->HashValue < Two->HashValue);','        return 0;')]),
('P04','cmp-hash16',[('mcontext.c','        return (One->HashValue > Two->HashValue) - (One->HashValue < Two->HashValue);','        return (int)(uint16_t)One->HashValue - (int)(uint16_t)Two->HashValue;')]),
('P04','cmp-id-mask',[('mcontext.c','    int Id_1 = DNSGetQueryIdentifier(One + 1);\n    int Id_2 = DNSGetQueryIdentifier(Two + 1);','    int Id_1 = DNSGetQueryIdentifier(One + 1) & 0xff;\n    int Id_2 = DNSGetQueryIdentifier(Two + 1) & 0xff;')]),
('P04','not-removed-parallel',[('mcontext.c','    IHeader_Reset((IHeader *)ri);\n    c->d.Delete(&(c->d), ri);','    if( h1->EDNSEnabled )\n    {\n        IHeader_Reset((IHeader *)ri);\n    }\n    c->d.Delete(&(c->d), ri);\n    if( EntityLength > 4096 ) c->d.Add(&(c->d), Output);')]),
('P04','reset-before-copy',[('mcontext.c','    memcpy(Output, ri, sizeof(IHeader));\n\n    h2->EntityLength = EntityLength;\n    h2->EDNSEnabled = EDNSEnabled;\n\n    IHeader_Reset((IHeader *)ri);','    IHeader_Reset((IHeader *)ri);\n    memcpy(Output, ri, sizeof(IHeader));\n\n    h2->EntityLength = EntityLength;\n    h2->EDNSEnabled = EDNSEnabled;')]),
('P04','partial-copy',[('mcontext.c','    memcpy(Output, ri, sizeof(IHeader));','    memcpy(Output, ri, sizeof(IHeader) - sizeof(h1->Agent) - sizeof(h1->BackAddress));')]),
('P04','first-on-miss',[('udpm.c','        DNSCache_AddItemsToCache(MsgCtx, ContextState == 0);','        DNSCache_AddItemsToCache(MsgCtx, ContextState == 0 || m->Parallels.addrs != NULL);')]),
('P04','hosts-sendback-miss',[('hosts.c','            if( Context.GenAnswerHeaderAndRemove(&Context, BackTraceMsgCtx, InnerMsgCtx) != 0 )\n            {\n                ERRORMSG("Fatal error 267.\\n");\n                continue;\n            }','            if( Context.GenAnswerHeaderAndRemove(&Context, BackTraceMsgCtx, InnerMsgCtx) != 0 )\n            {\n                ERRORMSG("Fatal error 267.\\n");\n            }')]),
('P04','hosts-id',[('hosts.c','            DNSCopyQueryIdentifier(InnerHeader + 1, BackTraceHeader + 1);\n','')]),
('P04','combine-id',[('hostsutils.c','    g.SetIdentifier(&g, OriginalIdentifier);\n','')]),
('P04','combine-id-late',[('hostsutils.c','    uint16_t OriginalIdentifier = DNSGetQueryIdentifier(NewEntity);','    uint16_t OriginalIdentifier = DNSGetQueryIdentifier(RecursedEntity);')]),
('P04','bst-equal',[('bst.c','        if( CompareResult == 0 )\n        {\n            return (const void *)(Current + 1);\n        } else if( CompareResult < 0 ){','        if( CompareResult == 0 || (Current->Left == NULL && Current->Right == NULL) )\n        {\n            return (const void *)(Current + 1);\n        } else if( CompareResult < 0 ){')]),
# P05
('P05','sb-tcp-agent',[('iheader.c','    return (h->BackAddress.family == AF_UNSPEC);','    return (h->BackAddress.family != AF_INET);')]),
('P05','par-addr',[('udpm.c','                               *a,\n                               m->Parallels.addrlen','                               *m->Parallels.addrs,\n                               m->Parallels.addrlen')]),
('P05','edns-len',[('iheader.c','    h->EntityLength = g.Length(&g);\n    h->EDNSEnabled = TRUE;','    h->EDNSEnabled = TRUE;')]),
('P05','wrapper-zero',[('tcpm.c','        if( State > 0 )\n        {\n            Sent += State;\n            continue;\n        }','        if( State >= 0 )\n        {\n            Sent += State;\n            break;\n        }')]),
('P05','tcp-prefix-once',[('tcpm.c','    DNSSetTcpLength(msg, h->EntityLength);\n\n    if( SingleServerIndex','    if( SingleServerIndex == -1 )\n    {\n        DNSSetTcpLength(msg, h->EntityLength);\n    }\n\n    if( SingleServerIndex')]),
('P05','type-from-hdr',[('iheader.c','h->Type = (DNSRecordType)DNSGetRecordType(DNSJumpHeader(DnsEntity));','h->Type = (DNSRecordType)(DNSGetRecordType(DNSJumpHeader(DnsEntity)) & 0xff);')]),
('P05','family-size',[('iheader.c','memcpy(&(h->BackAddress.Addr), BackAddress, GetAddressLength(Family));','memcpy(&(h->BackAddress.Addr), BackAddress, sizeof(struct sockaddr_in));')]),
('P05','hosts-len',[('hostsutils.c','        Header->EntityLength = ResultLength;\n        memmove(RequestEntity, HereToGenerate, ResultLength);','        memmove(RequestEntity, HereToGenerate, Header->EntityLength);\n        Header->EntityLength = ResultLength;')]),
# P06
('P06','tcp-ignore-fill',[('tcpm.c','                INFO("Invalid data received from the upstream server.\\n");\n                continue;','                INFO("Invalid data received from the upstream server.\\n");')]),
('P06','fe-short-ok',[('tcpfrontend.c','                if( RecvState == TCPLength &&','                if( RecvState > 0 && RecvState <= TCPLength &&')]),
('P06','noquestion',[('iheader.c','    if( !HasQuestion )\n    {\n        return -84;\n    }\n','    if( !HasQuestion && !ReturnHeader && BackAddress != NULL )\n    {\n        return -84;\n    }\n')]),
('P06','len-part',[('tcpm.c','            } while ( State > 0 && TCPLength > 0 );\n\n            if( TCPLength != 0 )','            } while ( State > 0 && TCPLength > 0 );\n\n            if( State <= 0 && PartialData <= Entity )')]),
('P06','udp-neg',[('udpm.c','        if( RecvState <= 0 )\n        {\n            ERRORMSG("recvfrom %s error: %d\\n", m->ServiceName, RecvState);\n            continue;\n        }','        if( RecvState <= 0 )\n        {\n            ERRORMSG("recvfrom %s error: %d\\n", m->ServiceName, RecvState);\n            RecvState = Header->EntityLength;\n        }')]),
]
QUIET=[]
