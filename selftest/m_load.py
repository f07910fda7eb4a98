BUGS=[
('P15','publish-before-file',[('filter.c','''    if( FilterDomain_InitFromFile(&TempDisabledDomain, ConfigInfo) != 0 )
    {
        StringChunk_Free(TempDisabledDomain, TRUE);
        SafeFree(TempDisabledDomain);
        INFO("Loading DisabledList failed.\\n");
        return -1;
    } else {
        INFO("Loading DisabledList completed.\\n");
    }

    RWLock_WrLock(DisabledDomainLock);
    DisabledDomain_Cleanup();
    DisabledDomain = TempDisabledDomain;
    RWLock_UnWLock(DisabledDomainLock);
''','''    RWLock_WrLock(DisabledDomainLock);
    DisabledDomain_Cleanup();
    DisabledDomain = TempDisabledDomain;
    RWLock_UnWLock(DisabledDomainLock);

    if( FilterDomain_InitFromFile(&DisabledDomain, ConfigInfo) != 0 )
    {
        INFO("Loading DisabledList failed.\\n");
        return -1;
    } else {
        INFO("Loading DisabledList completed.\\n");
    }
''')]),
('P15','hosts-cleared-first',[('dynamichosts.c','''    fp = fopen(File, "r");
    if( fp == NULL )
    {
        goto EXIT_1;
    }

    TempContainer''','''    RWLock_WrLock(HostsLock);
    DynamicHosts_ContainerCleanup((HostsContainer *)MainDynamicContainer);
    MainDynamicContainer = NULL;
    RWLock_UnWLock(HostsLock);

    fp = fopen(File, "r");
    if( fp == NULL )
    {
        goto EXIT_1;
    }

    TempContainer''')]),
('P15','hosts-trunc-ends',[('dynamichosts.c','''            ReadLine_GoToNextLine(fp);
            continue;''','''            ReadLine_GoToNextLine(fp);
            break;''')]),
('P15','ipmisc-block-return0',[('ipmisc.c','        while( (Itr = i.Next(&i)) != NULL )\n        {\n            IpMiscMapping->AddBlock','        if( (Itr = i.Next(&i)) != NULL )\n        {\n            IpMiscMapping->AddBlock')]),
('P15','ipsub-file-fails',[('ipmisc.c','                ERRORMSG("Failed loading: %s.\\n", FilePath);','                ERRORMSG("Failed loading: %s.\\n", FilePath);\n                ret = -300;\n                goto EXIT_2;')]),
('P15','groups-publish-failed',[('mmgr.c','    if (ret)\n    {','    if (ret && CurModuleMap == NULL)\n    {')]),
('P15','groups-udp-ignored',[('mmgr.c','''    if( Udp_Init_Core(ModuleMap, Services, &DomainList, Parallel) != 0 )
    {
        ret = -153;
    }''','''    if( Udp_Init_Core(ModuleMap, Services, &DomainList, Parallel) != 0 )
    {
        ERRORMSG("UDP group failed.\\n");
    }''')]),
('P15','reload-order',[('filter.c','    if ( ConfigGetBoolean(CurrConfigInfo, "ReloadDisabledList") )','    if ( ConfigGetBoolean(CurrConfigInfo, "ReloadGroupFile") )')]),
('P15','reload-skip-rest',[('dynamichosts.c','        DynamicHosts_Load();\n        Filter_Update();','        if( DynamicHosts_Load() != 0 )\n        {\n            return;\n        }\n        Filter_Update();')]),
('P15','group-list-long',[('mmgr.c','''                    WARNING("Line is too long %s, file \\"%s\\".\\n", Buffer, ListFile);
                    ReadLine_GoToNextLine(fp);
                    continue;''','''                    WARNING("Line is too long %s, file \\"%s\\".\\n", Buffer, ListFile);
                    continue;''')]),
('P15','map-null-on-fail',[('mmgr.c','        INFO("Loading GroupFile(s) failed.\\n");\n        return ret;\n    }\n','        INFO("Loading GroupFile(s) failed.\\n");\n        RWLock_WrLock(ModulesLock);\n        CurModuleMap = NULL;\n        RWLock_UnWLock(ModulesLock);\n        return ret;\n    }\n')]),
('P15','domain-half',[('mmgr.c','    while( (OneDomain = i.Next(&i)) != NULL )\n    {\n        StringChunk_Add_Domain','    while( (OneDomain = i.Next(&i)) != NULL )\n    {\n        if( strlen(OneDomain) > 64 )\n        {\n            break;\n        }\n        StringChunk_Add_Domain')]),
('P16','no-wait',[('mmgr.c','        if( !InUse )\n        {\n            break;\n        }\n\n        SLEEP(1000);','        SLEEP(1000);\n        break;')]),
('P16','sweep-not-waited',[('mmgr.c','                    InUse |= M->ModuleUnion.Udp.SweepThread != NULL_THREAD;\n','')]),
('P16','inuse-overwritten',[('mmgr.c','InUse |= M->ModuleUnion.Udp.SweepThread','InUse = M->ModuleUnion.Udp.SweepThread')]),
('P16','reset-per-module',[('mmgr.c','                if( strcmp(M->ModuleName, "UDP") == 0 )\n                {\n                    M->','                InUse = FALSE;\n                if( strcmp(M->ModuleName, "UDP") == 0 )\n                {\n                    M->')]),
('P16','udp-mark-early',[('udpm.c','''    m->IsServer = 0;

    CLOSE_SOCKET(m->Departure);
    m->Departure = INVALID_SOCKET;
''','''    m->IsServer = 0;
    m->WorkThread = NULL_THREAD;

    CLOSE_SOCKET(m->Departure);
    m->Departure = INVALID_SOCKET;
'''),('udpm.c','    SafeFree(m->ServiceName);\n\n    m->WorkThread = NULL_THREAD;\n','    SafeFree(m->ServiceName);\n')]),
('P16','tcp-not-stopped',[('mmgr.c','                    M->ModuleUnion.Tcp.IsServer = 0;\n','')]),
('P16','tcp-mark-lost',[('tcpm.c','    SafeFree(m->ProxyName);\n\n    m->WorkThread = NULL_THREAD;','    SafeFree(m->ProxyName);\n\n    if( m->SocksProxies == NULL )\n    {\n        m->WorkThread = NULL_THREAD;\n    }')]),
('P16','free-direct',[('mmgr.c','''        /* Some of the modules may be running already. */
        CREATE_THREAD(Modules_SafeCleanup, NewModuleMap, th);
        DETACH_THREAD(th);
''','''        Modules_Free(NewModuleMap);
''')]),
('P16','sweep-forever',[('udpm.c','    while( m->IsServer || m->WorkThread != NULL_THREAD)','    while( TRUE )')]),
('P16','sweep-mark-first',[('udpm.c','''    ModuleContext_Free(&(m->Context));
    EFFECTIVE_LOCK_DESTROY(m->Lock);

    m->SweepThread = NULL_THREAD;
''','''    m->SweepThread = NULL_THREAD;

    ModuleContext_Free(&(m->Context));
    EFFECTIVE_LOCK_DESTROY(m->Lock);
''')]),
('P02','append-first',[('statichosts.c','        Itr = sli.Next(&sli);\n    }','        Itr = NULL;\n    }')]),
('P02','hosts-case',[('hostscontainer.c','    StrToLower(Domain);\n','')]),
('P18','control-case',[('cachettlcrtl.c','    StrToLower(Domain);\n','')]),
('P18','control-first',[('cachettlcrtl.c','        CacheTtlCrtl_Add_From_String(c, Itr);','        if( CacheTtlCrtl_Add_From_String(c, Itr) != 0 )\n        {\n            return 0;\n        }')]),
('P01','list-case',[('filter.c','            StrToLower(Domain);\n','')]),
('P01','dd-case',[('filter.c','    Domains->LowercaseAll(Domains);\n','')]),
]
QUIET=[
('P15,P01','load-for-loop',[('filter.c','''    Str = sli.Next(&sli);
    while( Str != NULL )
    {
        StringChunk_Add_Domain(List, Str, NULL, 0);
        Str = sli.Next(&sli);
    }
''','''    for( Str = sli.Next(&sli); Str != NULL; Str = sli.Next(&sli) )
    {
        if( StringChunk_Add_Domain(List, Str, NULL, 0) != 0 )
        {
            ERRORMSG("Cannot add %s.\\n", Str);
        }
    }
''')]),
('P15,P01','readline-switch',[('filter.c','''        Status = ReadLine(fp, Domain, sizeof(Domain));
        if( Status == READ_FAILED_OR_END )
        {
            break;
        }

        if( Status == READ_DONE )
        {
            StrToLower(Domain);
            StringChunk_Add_Domain(List, Domain, NULL, 0);
        } else {
            ReadLine_GoToNextLine(fp);
        }
    }
''','''        Status = ReadLine(fp, Domain, sizeof(Domain));
        if( Status == READ_TRUNCATED )
        {
            ReadLine_GoToNextLine(fp);
            continue;
        }

        if( Status != READ_DONE )
        {
            break;
        }

        StrToLower(Domain);
        StringChunk_Add_Domain(List, Domain, NULL, 0);
    }
''')]),
('P15','publish-helper',[('filter.c','''int Filter_Init(ConfigFileInfo *ConfigInfo)''','''static void DisabledDomain_Put(StringChunk *New)
{
    RWLock_WrLock(DisabledDomainLock);
    DisabledDomain_Cleanup();
    DisabledDomain = New;
    RWLock_UnWLock(DisabledDomainLock);
}

int Filter_Init2(ConfigFileInfo *ConfigInfo);
int Filter_Init(ConfigFileInfo *ConfigInfo)'''),('filter.c','''static int DisabledDomain_Init(ConfigFileInfo *ConfigInfo)
{''','''static void DisabledDomain_Put(StringChunk *New);
static int DisabledDomain_Init(ConfigFileInfo *ConfigInfo)
{'''),('filter.c','''    RWLock_WrLock(DisabledDomainLock);
    DisabledDomain_Cleanup();
    DisabledDomain = TempDisabledDomain;
    RWLock_UnWLock(DisabledDomainLock);

    return 0;''','''    DisabledDomain_Put(TempDisabledDomain);

    return 0;''')]),
('P16','retire-helper',[('mmgr.c','''static int
#ifdef WIN32
WINAPI
#endif
Modules_SafeCleanup(''','''static BOOL Module_Stop(ModuleInterface *M)
{
    if( strcmp(M->ModuleName, "UDP") == 0 )
    {
        M->ModuleUnion.Udp.IsServer = 0;
        return M->ModuleUnion.Udp.WorkThread != NULL_THREAD || M->ModuleUnion.Udp.SweepThread != NULL_THREAD;
    }
    if( strcmp(M->ModuleName, "TCP") == 0 )
    {
        M->ModuleUnion.Tcp.IsServer = 0;
        return M->ModuleUnion.Tcp.WorkThread != NULL_THREAD;
    }
    return FALSE;
}

static int
#ifdef WIN32
WINAPI
#endif
Modules_SafeCleanup('''),('mmgr.c','''                if( strcmp(M->ModuleName, "UDP") == 0 )
                {
                    M->ModuleUnion.Udp.IsServer = 0;
                    InUse |= M->ModuleUnion.Udp.WorkThread != NULL_THREAD;
                    InUse |= M->ModuleUnion.Udp.SweepThread != NULL_THREAD;
                }
                else if( strcmp(M->ModuleName, "TCP") == 0 )
                {
                    M->ModuleUnion.Tcp.IsServer = 0;
                    InUse |= M->ModuleUnion.Tcp.WorkThread != NULL_THREAD;
                }
''','''                if( Module_Stop(M) )
                {
                    InUse = TRUE;
                }
''')]),
('P16','retire-dowhile',[('mmgr.c','    while( InUse )\n    {\n        InUse = FALSE;','    do\n    {\n        InUse = FALSE;'),('mmgr.c','        if( !InUse )\n        {\n            break;\n        }\n\n        SLEEP(1000);\n    }','        if( InUse )\n        {\n            SLEEP(1000);\n        }\n    }while( InUse );')]),
('P15','updates-reordered',[('dynamichosts.c','        DynamicHosts_Load();\n        Filter_Update();\n        IpMiscMapping_Update();\n        Modules_Update();','        Modules_Update();\n        IpMiscMapping_Update();\n        Filter_Update();\n        DynamicHosts_Load();')]),
('P15,P03','ipmisc-pair-for',[('ipmisc.c','''        Itr = i.Next(&i);
        Itr2 = i.Next(&i);
        while( Itr != NULL && Itr2 != NULL )
        {
            IpMiscMapping->AddSubstituteFromString(IpMiscMapping, Itr, Itr2);

            Itr = i.Next(&i);
            Itr2 = i.Next(&i);
        }

        if( Itr != NULL )
        {
            WARNING("Invalid IPSubstituting: %s\\n", Itr);
        }
''','''        while( (Itr = i.Next(&i)) != NULL )
        {
            Itr2 = i.Next(&i);
            if( Itr2 == NULL )
            {
                WARNING("Invalid IPSubstituting: %s\\n", Itr);
                break;
            }
            IpMiscMapping->AddSubstituteFromString(IpMiscMapping, Itr, Itr2);
        }
''')]),
]
