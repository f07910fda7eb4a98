P='dnsparser.c'
BUGS=[
('P08','backwards-eq',[(P,'            if( LabelPointer >= NameItr - DNSBody )','            if( LabelPointer > NameItr - DNSBody )')]),
('P08','copy-forward',[(P,'''                DNSLabelGetPointer(src) >= src - DNSBody
''','''                DNSLabelGetPointer(src) >= DNSBodyLength
''')]),
('P08','jump-nocheck',[(P,'            if( LabelPointer >= NameItr - DNSBody )','            if( LabelPointer >= DNSBodyLength )')]),
('P08','sub-pair',[('ipmisc.c','''            IpMiscMapping->AddSubstituteFromString(IpMiscMapping, Itr, Itr2);

            Itr = i.Next(&i);
            Itr2 = i.Next(&i);
''','''            if( IpMiscMapping->AddSubstituteFromString(IpMiscMapping, Itr, Itr2) != 0 )
            {
                continue;
            }

            Itr = i.Next(&i);
            Itr2 = i.Next(&i);
''')]),
('P08','goodip-null',[('goodiplist.c','''    while( Domain != NULL )
    {
        if( m != NULL )
        {
''','''    while( Domain != NULL )
    {
        if( m == NULL )
        {
            continue;
        }

        {
''')]),
('P08','ttl-cont',[('cachettlcrtl.c','''        CacheTtlCrtl_Add_From_String(c, Itr);

        Itr''','''        if( CacheTtlCrtl_Add_From_String(c, Itr) != 0 )
        {
            continue;
        }

        Itr''')]),
('P08','udp-addr-cont',[('udpm.c','''        AddressList_Add_From_String(&(m->AddrList), Itr, 53);
''','''        if( AddressList_Add_From_String(&(m->AddrList), Itr, 53) != 0 )
        {
            continue;
        }
''')]),
('P08','par-send',[('udpm.c','''                ret |= (State > 0);
''','''                if( State <= 0 )
                {
                    continue;
                }

                ret |= (State > 0);
''')]),
('P08','txt-zero',[(P,'''        memcpy(BufferItr, DataItr + 1, n);

        DataItr''','''        if( n == 0 )
        {
            continue;
        }

        memcpy(BufferItr, DataItr + 1, n);

        DataItr''')]),
('P08','send-partial',[('tcpm.c','''        if( State > 0 )
        {
            Sent += State;
            continue;
        }

        LastError = GET_LAST_ERROR();
        if( FatalErrorDecideding(LastError) != 0 ||
                !SocketIsWritable(Sock, TIMEOUT_ms_SEND) ||
                time(NULL) - t > TIMEOUT_ms_SEND / 1000
                )
''','''        if( State > 0 )
        {
            Sent += State;
            continue;
        }

        LastError = GET_LAST_ERROR();
        if( FatalErrorDecideding(LastError) != 0 )
''')]),
('P08','tcp-eof',[('tcpm.c','            } while ( State > 0 && TCPLength > 0 );','            } while ( TCPLength > 0 );')]),
('P08','dl-url',[('downloader.c','''        } else {
            break;
        }

        ++URLs;''','''        } else {
            continue;
        }

        ++URLs;''')]),
('P08','cht-walk',[('cacheht.c','''        if( CurNode->Length == ChunkSize )
        {''','''        if( CurNode->TTL == 0 && CurNode->Length != ChunkSize )
        {
            continue;
        }

        if( CurNode->Length == ChunkSize )
        {''')]),
('P08','count-sub',[('utils.c','        Itr = strstr(Itr + SubStrLen, SubStr);','        Itr = strstr(Itr, SubStr);')]),
('P08','cname-loop',[('dnscache.c','''            if( g->CName(g, "a", CName, NewTTL) != 0 )
            {
                RWLock_UnRLock(CacheLock);
                return -5;
            }
''','''            g->CName(g, "a", CName, NewTTL);
''')]),
('P08','hosts-alias',[('hosts.c','        if( !Hosts_AliasesEnd(Header->Domain) )','        if( Header->EntityLength < 0 )')]),
('P08','hosts-alias2',[('hosts.c','    for( i = 0; i < ALIAS_CHAIN_LENGTH_MAX; ++i )','    for( i = 0; TRUE; ++i )')]),
]
QUIET=[
('P08','name-order',[(P,'            if( LabelPointer >= NameItr - DNSBody )','            if( NameItr <= DNSBody + LabelPointer )')]),
('P08','name-step',[(P,'            if( LabelPointer >= NameItr - DNSBody )','            if( LabelPointer + 1 > NameItr - DNSBody )')]),
('P08','for-form',[('ipmisc.c','''        Itr2 = i.Next(&i);
        while( Itr != NULL && Itr2 != NULL )
        {
            IpMiscMapping->AddSubstituteFromString(IpMiscMapping, Itr, Itr2);

            Itr = i.Next(&i);
            Itr2 = i.Next(&i);
        }
''','''        Itr2 = i.Next(&i);
        for( ; Itr != NULL && Itr2 != NULL; Itr = i.Next(&i), Itr2 = i.Next(&i) )
        {
            if( IpMiscMapping->AddSubstituteFromString(IpMiscMapping, Itr, Itr2) != 0 )
            {
                continue;
            }
        }
''')]),
]
