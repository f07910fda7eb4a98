BUGS=[
('P11','noUnlockCname',[('dnscache.c','                RWLock_UnRLock(CacheLock);\n                return -5;','                return -5;')]),
('P11','udpm-break',[('udpm.c','                ERRORMSG("Fatal error 68.\\n");\n                EFFECTIVE_LOCK_RELEASE(m->Lock);\n','                ERRORMSG("Fatal error 68.\\n");\n')]),
('P11','udpm-send-full',[('udpm.c','        EFFECTIVE_LOCK_RELEASE(m->Lock);\n        return -242;','        return -242;')]),
('P11','filter-ret',[('filter.c','    RWLock_UnRLock(DisabledDomainLock);','    if( !ret ) { RWLock_UnRLock(DisabledDomainLock); }')]),
('P11','mmgr-early',[('mmgr.c','    RWLock_UnRLock(ModulesLock);','    if( ret != -190 ) { RWLock_UnRLock(ModulesLock); }')]),
('P11','logs-ret',[('logs.c','    if( LogFile != NULL )\n    {\n        CheckLength();\n','    if( LogFile != NULL )\n    {\n        CheckLength();\n        if( LogFile == NULL ) { return; }\n')]),
('P11','additem-early',[('dnscache.c','    while( i.Next(&i) != NULL )\n    {\n        BOOL RightPurpose','    while( i.Next(&i) != NULL )\n    {\n        if( i.DataLength == 0 ) { return -3; }\n        BOOL RightPurpose')]),
('P12','opp',[('dynamichosts.c','    RWLock_WrLock(HostsLock);\n','    RWLock_WrLock(HostsLock);\n    DynCacheA();\n'),('dynamichosts.c','static RWLock','static RWLock OtherL; static void DynCacheA(void){ RWLock_WrLock(OtherL); RWLock_UnWLock(OtherL); }\nstatic RWLock')] if False else [('domainstatistic.c','    EFFECTIVE_LOCK_GET(StatisticLock);\n\n    if( SkipStatistic == FALSE )','    EFFECTIVE_LOCK_GET(StatisticLock);\n    INFO("x\\n");\n    if( SkipStatistic == FALSE )'),('logs.c','    EFFECTIVE_LOCK_GET(PrintLock);','    EFFECTIVE_LOCK_GET(PrintLock);\n    DomainStatistic_Add(NULL,0);'),('logs.c','#include "utils.h"','#include "utils.h"\n#include "domainstatistic.h"')]),
('P13','no-lock-lookup',[('ipmisc.c','    RWLock_RdLock(IpMiscMappingLock);\n',''),('ipmisc.c','    RWLock_UnRLock(IpMiscMappingLock);\n','')]),
('P13','stale-map',[('mmgr.c','    RWLock_RdLock(ModulesLock);\n','    ModuleMap *Cur = CurModuleMap;\n    RWLock_RdLock(ModulesLock);\n'),('mmgr.c','StringChunk_Domain_Match_WildCardRandom(CurModuleMap->Distributor','StringChunk_Domain_Match_WildCardRandom(Cur->Distributor')]),
('P13','unlock-early',[('filter.c','    RWLock_RdLock(DisabledDomainLock);\n','    RWLock_RdLock(DisabledDomainLock);\n    RWLock_UnRLock(DisabledDomainLock);\n'),('filter.c','    RWLock_UnRLock(DisabledDomainLock);\n\n','')] if False else [('udpm.c','        EFFECTIVE_LOCK_GET(m->Lock);\n        ContextState = m->Context','        ContextState = m->Context'),('udpm.c','        EFFECTIVE_LOCK_RELEASE(m->Lock);\n\n        DNSCache_Add','\n        DNSCache_Add')]),
('P13','rd-for-wr',[('dnscache.c','    TtlContent =  CacheTtlCrtl_Get(TtlCtrl, Header->Domain);\n    RWLock_WrLock(CacheLock);','    TtlContent =  CacheTtlCrtl_Get(TtlCtrl, Header->Domain);\n    RWLock_RdLock(CacheLock);')]),
('P13','late-lock',[('dnscache.c','    RWLock_RdLock(CacheLock);\n\n    /* If',' \n    /* If'),('dnscache.c','    if( DNSCache_GetRawRecordsFromCache(Name, i.Type','    RWLock_RdLock(CacheLock);\n    if( DNSCache_GetRawRecordsFromCache(Name, i.Type'),('dnscache.c','                RWLock_UnRLock(CacheLock);\n                return -5;','                return -5;')]),
('P13','swap-no-lock',[('dynamichosts.c','    RWLock_WrLock(HostsLock);\n',''),('dynamichosts.c','    RWLock_UnWLock(HostsLock);\n','')]),
]
QUIET=[
(['P11','P12','P13'],'wrappers',[('dnscache.c','/* State code returned */\nstatic int DNSCache_GetByQuestion','static void CacheRead(void) { RWLock_RdLock(CacheLock); }\nstatic void CacheDone(void) { RWLock_UnRLock(CacheLock); }\nstatic int DNSCache_GetByQuestion'),('dnscache.c','    RWLock_RdLock(CacheLock);\n\n    /* If','    CacheRead();\n\n    /* If'),('dnscache.c','                RWLock_UnRLock(CacheLock);\n                return -5;','                CacheDone();\n                return -5;'),('dnscache.c','        RWLock_UnRLock(CacheLock);\n        return -6;','        CacheDone();\n        return -6;'),('dnscache.c','    RWLock_UnRLock(CacheLock);\n    return 0;','    CacheDone();\n    return 0;')]),
(['P11','P12','P13'],'local-under-lock',[('mmgr.c','    RWLock_RdLock(ModulesLock);\n','    RWLock_RdLock(ModulesLock);\n    ModuleMap *Cur = CurModuleMap;\n'),('mmgr.c','StringChunk_Domain_Match_WildCardRandom(CurModuleMap->Distributor','StringChunk_Domain_Match_WildCardRandom(Cur->Distributor')]),
(['P11','P12','P13'],'one-exit',[('dnscache.c','        RWLock_UnRLock(CacheLock);\n        return -6;\n    }\n\n    RWLock_UnRLock(CacheLock);\n    return 0;','        RWLock_UnRLock(CacheLock);\n        return -6;\n    } else {\n        int r = 0;\n        RWLock_UnRLock(CacheLock);\n        return r;\n    }')]),
(['P11','P13'],'udpm-helper',[('udpm.c','static int UdpM_Send(UdpM *m,','static MsgContext *UdpM_Remember(UdpM *m, MsgContext *c)\n{\n    MsgContext *r;\n    EFFECTIVE_LOCK_GET(m->Lock);\n    r = m->Context.Add(&(m->Context), c);\n    EFFECTIVE_LOCK_RELEASE(m->Lock);\n    return r;\n}\n\nstatic int UdpM_Send(UdpM *m,'),('udpm.c','    EFFECTIVE_LOCK_GET(m->Lock);\n    if( m->Context.Add(&(m->Context), (MsgContext *)Buffer) == NULL )\n    {\n        EFFECTIVE_LOCK_RELEASE(m->Lock);\n        return -242;\n    }\n    EFFECTIVE_LOCK_RELEASE(m->Lock);','    if( UdpM_Remember(m, (MsgContext *)Buffer) == NULL )\n    {\n        return -242;\n    }')]),
]
