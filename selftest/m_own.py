G='goodiplist.c'; T='tcpm.c'; U='udpm.c'; M='mmgr.c'; H='hosts.c'; DH='dynamichosts.c'; DC='dnscache.c'; UT='utils.c'; TF='tcpfrontend.c'
BUGS=[
('P22','group-init-1',[(M,'    if( StringChunk_Init(&Args, NULL) != 0 )\n    {\n        fclose(fp);\n','    if( StringChunk_Init(&Args, NULL) != 0 )\n    {\n')]),
('P22','group-init-2',[(M,'        fclose(fp);\n        ret = -235;','        ret = -235;')]),
('P22','group-list',[(M,'            } while( TRUE );\n\n            fclose(fp);\n','            } while( TRUE );\n')]),
('P22','group-domains',[(M,"        ERRORMSG(\"No protocol specified, file \\\"%s\\\".\\n\", File);\n        ret = -270;\n        goto EXIT_2;","        ERRORMSG(\"No protocol specified, file \\\"%s\\\".\\n\", File);\n        ret = -270;\n        goto EXIT_1;")]),
('P22','fast-fatal',[(G,'            CLOSE_SOCKET(skt);\n            continue;\n        }\n\n        p.Add','            continue;\n        }\n\n        p.Add')]),
('P22','fast-puller',[(G,'    p.Free(&p);\n\n    return ret;','    return ret;')]),
('P22','fast-puller-early',[(G,'    if( Fastest == NULL )\n    {\n        ret = NULL;\n    } else {','    if( Fastest == NULL )\n    {\n        return NULL;\n    } else {')]),
('P22','tcp-connect',[(T,'        if( GET_LAST_ERROR() != CONNECT_FUNCTION_BLOCKED )\n        {\n            CLOSE_SOCKET(s);\n','        if( GET_LAST_ERROR() != CONNECT_FUNCTION_BLOCKED )\n        {\n')]),
('P22','tcp-nonblock',[(T,'    if( SetSocketNonBlock(s, TRUE) != 0 )\n    {\n        CLOSE_SOCKET(s);\n        return INVALID_SOCKET;','    if( SetSocketNonBlock(s, TRUE) != 0 )\n    {\n        return INVALID_SOCKET;')]),
('P22','tcp-down-addr',[(T,'        AddressList_Free(&(m->SocksProxyList));\n        SafeFree(m->SocksProxyFamilies);\n    }\n\n    m->QueryPuller','        SafeFree(m->SocksProxyFamilies);\n    }\n\n    m->QueryPuller')]),
('P22','tcp-down-ctx',[(T,'    ModuleContext_Free(&(m->Context));\n\n    if( m->SocksProxies != NULL )','    if( m->SocksProxies != NULL )')]),
('P22','tcp-down-sock',[(T,'    CLOSE_SOCKET(m->Incoming);\n    m->Incoming = INVALID_SOCKET;\n    m->Puller.Free(&(m->Puller));\n\n    ModuleContext_Free(&(m->Context));\n\n    if','    m->Incoming = INVALID_SOCKET;\n    m->Puller.Free(&(m->Puller));\n\n    ModuleContext_Free(&(m->Context));\n\n    if')]),
('P22','tcp-down-agents',[(T,'    SocketPullers_Free(m->Agents);\n    SafeFree(m->Services);\n    AddressList_Free(&(m->ServiceList));\n    SafeFree(m->ServiceFamilies);\n    SafeFree(m->ServiceName);\n    SafeFree(m->ProxyName);\n\n    m->WorkThread','    SafeFree(m->Services);\n    AddressList_Free(&(m->ServiceList));\n    SafeFree(m->ServiceFamilies);\n    SafeFree(m->ServiceName);\n    SafeFree(m->ProxyName);\n\n    m->WorkThread')]),
('P22','udp-down-departure',[(U,'    CLOSE_SOCKET(m->Departure);\n    m->Departure = INVALID_SOCKET;\n\n    SafeFree','    m->Departure = INVALID_SOCKET;\n\n    SafeFree')]),
('P22','udp-down-list',[(U,'    AddressList_Free(&(m->AddrList));\n    SafeFree(m->ServiceName);\n\n    m->WorkThread','    SafeFree(m->ServiceName);\n\n    m->WorkThread')]),
('P22','udp-down-context',[(U,'    ModuleContext_Free(&(m->Context));\n    EFFECTIVE_LOCK_DESTROY(m->Lock);\n\n    m->SweepThread','    EFFECTIVE_LOCK_DESTROY(m->Lock);\n\n    m->SweepThread')]),
('P22','copy-file',[(UT,'        fclose(Src_Fp);\n        return -2;','        return -2;')]),
('P22','copy-file-end',[(UT,'    fclose(Src_Fp);\n    fclose(Dst_Fp);\n','    fclose(Dst_Fp);\n')]),
('P22','hosts-load-fp',[(DH,'        TempContainer->Load(TempContainer, Buffer);\n    }\n\n    fclose(fp);\n','        TempContainer->Load(TempContainer, Buffer);\n    }\n')]),
('P22','hosts-load-init',[(DH,'    if( HostsContainer_Init(TempContainer) != 0 )\n    {\n        SafeFree(TempContainer);\n','    if( HostsContainer_Init(TempContainer) != 0 )\n    {\n')]),
('P22','hosts-load-nomem',[(DH,'    if( TempContainer == NULL )\n    {\n        goto EXIT_2;','    if( TempContainer == NULL )\n    {\n        goto EXIT_1;')]),
('P23','hosts-load-dead',[(DH,'    fclose(fp);\n\n    RWLock_WrLock(HostsLock);\n','    fclose(fp);\n\n    RWLock_WrLock(HostsLock);\n    if( TempContainer->Load(TempContainer, Buffer) != 0 ) { HostsContainer *Dead = TempContainer; SafeFree(Dead); }\n')]),
('P23','hosts-load-unchecked',[(DH,'    if( TempContainer == NULL )\n    {\n        goto EXIT_2;\n    }\n','')]),
('P23','hosts-load-double',[(DH,'    fclose(fp);\n\n    RWLock_WrLock(HostsLock);','    fclose(fp);\n    if( Status == READ_FAILED_OR_END ) goto EXIT_2;\n\n    RWLock_WrLock(HostsLock);')]),
('P23','copy-unchecked',[(UT,'    if( Dst_Fp == NULL )\n    {\n        fclose(Src_Fp);\n        return -2;\n    }\n','')]),
('P23','proxies-elem',[(T,'        SafeFree(m->SocksProxies);\n        AddressList_Free(&(m->SocksProxyList));\n        SafeFree(m->SocksProxyFamilies);\n    }\n\n    m->QueryPuller','        SafeFree(*(m->SocksProxies));\n        AddressList_Free(&(m->SocksProxyList));\n        SafeFree(m->SocksProxyFamilies);\n    }\n\n    m->QueryPuller')]),
('P23','tcp-connect-reuse',[(T,'            CLOSE_SOCKET(s);\n            return INVALID_SOCKET;\n        }\n    }\n\n    return s;','            CLOSE_SOCKET(s);\n        }\n    }\n\n    return s;')]),
('P22','down-double',[(T,'    SafeFree(m->ServiceName);\n    SafeFree(m->ProxyName);\n\n    m->WorkThread','    SafeFree(m->ServiceName);\n    SafeFree(m->ServiceName);\n\n    m->WorkThread')]),
('P23','down-close-twice',[(T,'    CLOSE_SOCKET(m->Incoming);\n    m->Incoming = INVALID_SOCKET;\n    m->Puller.Free(&(m->Puller));\n\n    ModuleContext_Free(&(m->Context));\n\n    if','    CLOSE_SOCKET(m->Incoming);\n    CLOSE_SOCKET(m->Incoming);\n    m->Puller.Free(&(m->Puller));\n\n    ModuleContext_Free(&(m->Context));\n\n    if')]),
('P23','down-ctx-use',[(T,'    SafeFree(m->ServiceName);\n    SafeFree(m->ProxyName);\n\n    m->WorkThread','    free(m->ServiceName);\n    INFO("%s\\n", m->ServiceName);\n    SafeFree(m->ProxyName);\n\n    m->WorkThread')]),
]
QUIET=[
('P22,P23','down-helper',[(T,'static int TcpM_Cleanup(TcpM *m)\n{','static void TcpM_FreeProxies(TcpM *m)\n{\n    m->ProxyPuller.Free(&(m->ProxyPuller));\n    SocketPullers_Free(m->Proxies);\n    SafeFree(m->SocksProxies);\n    AddressList_Free(&(m->SocksProxyList));\n    SafeFree(m->SocksProxyFamilies);\n}\n\nstatic int TcpM_Cleanup(TcpM *m)\n{'),(T,'        m->ProxyPuller.Free(&(m->ProxyPuller));\n        SocketPullers_Free(m->Proxies);\n        SafeFree(m->SocksProxies);\n        AddressList_Free(&(m->SocksProxyList));\n        SafeFree(m->SocksProxyFamilies);\n    }\n\n    m->QueryPuller','        TcpM_FreeProxies(m);\n    }\n\n    m->QueryPuller')]),
('P22,P23','copy-goto',[(UT,'    if( Dst_Fp == NULL )\n    {\n        fclose(Src_Fp);\n        return -2;\n    }\n','    if( Dst_Fp == NULL )\n    {\n        Failed = -2;\n        goto DONE;\n    }\n'),(UT,'    FILE *Src_Fp, *Dst_Fp;\n\n    Src_Fp','    FILE *Src_Fp, *Dst_Fp;\n    int Failed = 0;\n\n    Src_Fp'),(UT,'    fclose(Src_Fp);\n    fclose(Dst_Fp);\n\n    return 0;','    fclose(Dst_Fp);\nDONE:\n    fclose(Src_Fp);\n\n    return Failed;')]),
('P22,P23','connect-single-exit',[(T,'        if( GET_LAST_ERROR() != CONNECT_FUNCTION_BLOCKED )\n        {\n            CLOSE_SOCKET(s);\n            return INVALID_SOCKET;\n        }\n    }\n\n    return s;','        if( GET_LAST_ERROR() != CONNECT_FUNCTION_BLOCKED )\n        {\n            CLOSE_SOCKET(s);\n            s = INVALID_SOCKET;\n        }\n    }\n\n    return s;')]),
('P22,P23','hosts-parse-helper',[(DH,'static int DynamicHosts_Load(void)\n{','static HostsContainer *NewContainer(void)\n{\n    HostsContainer *c = (HostsContainer *)SafeMalloc(sizeof(HostsContainer));\n    if( c == NULL )\n    {\n        return NULL;\n    }\n    if( HostsContainer_Init(c) != 0 )\n    {\n        SafeFree(c);\n        return NULL;\n    }\n    return c;\n}\n\nstatic int DynamicHosts_Load(void)\n{'),(DH,'    TempContainer = (HostsContainer *)SafeMalloc(sizeof(HostsContainer));\n    if( TempContainer == NULL )\n    {\n        goto EXIT_2;\n    }\n\n    if( HostsContainer_Init(TempContainer) != 0 )\n    {\n        SafeFree(TempContainer);\n        goto EXIT_2;\n    }\n','    TempContainer = NewContainer();\n    if( TempContainer == NULL )\n    {\n        goto EXIT_2;\n    }\n')]),
('P22,P23','group-read-helper',[(M,'static int Modules_InitFromFile(','static void ReadDomains(FILE *fp, StringList *Domains, const char *Name)\n{\n    ReadLineStatus  Status;\n    char Buffer[512];\n\n    while( (Status = ReadLine(fp, Buffer, sizeof(Buffer))) != READ_FAILED_OR_END )\n    {\n        if( Status == READ_TRUNCATED )\n        {\n            WARNING("Line is too long %s, file \\"%s\\".\\n", Buffer, Name);\n            ReadLine_GoToNextLine(fp);\n            continue;\n        }\n        StrToLower(Buffer);\n        Domains->Add(Domains, Buffer, NULL);\n    }\n    fclose(fp);\n}\n\nstatic int Modules_InitFromFile('),(M,'''            do {
                char Buffer[MAX_PATH_BUFFER];

                Status = ReadLine(fp, Buffer, sizeof(Buffer));

                if( Status == READ_TRUNCATED )
                {
                    WARNING("Line is too long %s, file \\"%s\\".\\n", Buffer, ListFile);
                    ReadLine_GoToNextLine(fp);
                    continue;
                }

                if( Status == READ_FAILED_OR_END )
                {
                    break;
                }

                StrToLower(Buffer);

                Domains.Add(&Domains, Buffer, NULL);
            } while( TRUE );

            fclose(fp);
''','            ReadDomains(fp, &Domains, ListFile);\n')]),
]
