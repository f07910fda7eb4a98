BUGS=[
('P01','or-and',[('filter.c','IsDisabledType(h->Type) || IsDisabledDomain(','IsDisabledType(h->Type) && IsDisabledDomain(')]),
('P02','dyn-first',[('hosts.c','ret = StaticHosts_Try(MsgCtx, BufferLength);','ret = DynamicHosts_Try(MsgCtx, BufferLength);'),('hosts.c','return DynamicHosts_Try(MsgCtx, BufferLength);','return StaticHosts_Try(MsgCtx, BufferLength);')]),
('P02','static-hit-falls',[('hosts.c','if( ret != HOSTSUTILS_TRY_NONE )','if( ret == HOSTSUTILS_TRY_OK )')]),
('P02','no-exclusion',[('hosts.c','    if( Hosts_TypeExisting(Header->Domain, HOSTS_TYPE_EXCLUEDE) )\n    {\n        return HOSTSUTILS_TRY_NONE;\n    }\n','')]),
('P02','excl-static-only',[('hosts.c','    if( Hosts_TypeExisting(Header->Domain, HOSTS_TYPE_EXCLUEDE) )','    if( StaticHosts_TypeExisting(Header->Domain, HOSTS_TYPE_EXCLUEDE) )')]),
('P02','cache-first',[('mmgr.c','if( Hosts_Get(MsgCtx, BufferLength) == 0 )','if( DNSCache_FetchFromCache(MsgCtx, BufferLength) == 0 )'),('mmgr.c','    if( DNSCache_FetchFromCache(MsgCtx, BufferLength) == 0 )\n    {\n        return 0;\n    }\n\n    /* Ord','    if( Hosts_Get(MsgCtx, BufferLength) == 0 )\n    {\n        return 0;\n    }\n\n    /* Ord')]),
('P02','recursed-lost',[('hosts.c','            < 0 )\n        {\n            return HOSTSUTILS_TRY_NONE;','            < 0 )\n        {\n            return HOSTSUTILS_TRY_RECURSED;')]),
('P02','recursed-minus',[('hosts.c','    case HOSTSUTILS_TRY_RECURSED:\n        /** TODO: Show hosts message */\n        return 0;','    case HOSTSUTILS_TRY_RECURSED:\n        return -1;')]),
('P02','ok-ret-none',[('hostsutils.c','        return HOSTSUTILS_TRY_OK;','        return HOSTSUTILS_TRY_NONE;')]),
('P02','blocked-falls',[('hosts.c','        DomainStatistic_Add(Header, STATISTIC_TYPE_REFUSED);\n        return 0;','        DomainStatistic_Add(Header, STATISTIC_TYPE_REFUSED);\n        return -1;')]),
('P02','cache-no-reply',[('dnscache.c','    if( MsgContext_SendBack(MsgCtx) < 0 )\n','    if( ResultLength > 0 && ResultLength < 512 && MsgContext_SendBack(MsgCtx) < 0 )\n')]),
]
QUIET=[
(['P01','P02'],'mmgr-helper',[('mmgr.c','int MMgr_Send(const char *Buffer, int BufferLength)\n{','static BOOL MMgr_Local(MsgContext *MsgCtx, int BufferLength)\n{\n    if( Hosts_Get(MsgCtx, BufferLength) == 0 ) { return TRUE; }\n    return DNSCache_FetchFromCache(MsgCtx, BufferLength) == 0;\n}\n\nint MMgr_Send(const char *Buffer, int BufferLength)\n{'),
  ('mmgr.c','    if( Hosts_Get(MsgCtx, BufferLength) == 0 )\n    {\n        return 0;\n    }\n\n    if( DNSCache_FetchFromCache(MsgCtx, BufferLength) == 0 )\n    {\n        return 0;\n    }\n','    if( MMgr_Local(MsgCtx, BufferLength) )\n    {\n        return 0;\n    }\n')]),
(['P01','P02'],'hosts-switch-to-if',[('hosts.c','    ret = StaticHosts_Try(MsgCtx, BufferLength);\n    if( ret != HOSTSUTILS_TRY_NONE )\n    {\n        return ret;\n    }\n\n    return DynamicHosts_Try(MsgCtx, BufferLength);','    ret = StaticHosts_Try(MsgCtx, BufferLength);\n    if( ret == HOSTSUTILS_TRY_NONE )\n    {\n        ret = DynamicHosts_Try(MsgCtx, BufferLength);\n    }\n    return ret;')]),
(['P01','P02'],'filter-split',[('filter.c','    if(IsDisabledType(h->Type) || IsDisabledDomain(h->Domain, h->HashValue) )','    BOOL Bad = IsDisabledType(h->Type);\n    if( !Bad ) { Bad = IsDisabledDomain(h->Domain, h->HashValue); }\n    if( Bad )')]),
]
