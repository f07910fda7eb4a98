"""bugs written from the property texts alone: transport, messages, bounds, locks, ownership"""
I='iheader.c'; M='mcontext.c'; UF='udpfrontend.c'; TF='tcpfrontend.c'; TM='tcpm.c'; UM='udpm.c'
BUGS=[
('P06','tcp-short-prefix',[(TF,'        if( RecvState == 2 )','        if( RecvState > 0 )')]),
('P06','udp-whole-buffer',[(UF,'''                         Entity,
                         RecvState,
                         IncomingAddress,''','''                         Entity,
                         RecvState < DNS_HEADER_LENGTH ? DNS_HEADER_LENGTH : RecvState,
                         IncomingAddress,''')]),
('P06','no-question-ok',[(I,'''    if( !HasQuestion )
    {
        return -84;
    }
''','''    if( !HasQuestion && DNSGetAnswerCount(DnsEntity) == 0 )
    {
        return -84;
    }
''')]),
('P06','name-unparsed',[(I,'i.GetName(&i, h->Domain, sizeof(h->Domain)) < 0','i.GetName(&i, h->Domain, sizeof(h->Domain)) == 0')]),
('P06','tcpm-short',[(TM,'            } while ( State > 0 && TCPLength > 0 );\n\n            if( TCPLength != 0 )','            } while ( State > 0 && TCPLength > 0 );\n\n            if( TCPLength != 0 && PartialData == Entity )')]),
('P06','fill-result-dropped',[(UM,'''                         NULL
                         )
            != 0 )
        {
            INFO("Invalid data received from the upstream server.\\n");
            continue;
        }''','''                         NULL
                         )
            != 0 )
        {
            INFO("Invalid data received from the upstream server.\\n");
        }''')]),
('P06','fill-late-length',[(I,'''    h->EntityLength = EntityLength;

    return 0;''','''    if( h->EntityLength < EntityLength )
    {
        h->EntityLength = EntityLength;
    }

    return 0;''')]),
('P06','recv-error-ok',[(UF,'''        if( RecvState < 0 )
        {
            INFO("An error''','''        if( RecvState < 0 && GET_LAST_ERROR() != EINTR )
        {
            INFO("An error''')]),
('P06','tcp-recv-neq',[(TF,'                if( RecvState == TCPLength &&','                if( RecvState > 0 &&')]),
('P04','id-only',[(M,'''    if( Id_1 != Id_2 )
    {
        return Id_1 - Id_2;
    } else {''','''    if( Id_1 != Id_2 || One->Type != Two->Type )
    {
        return Id_1 - Id_2;
    } else {''')]),
('P04','hash-trunc',[(M,'return (One->HashValue > Two->HashValue) - (One->HashValue < Two->HashValue);','return (int)((One->HashValue & 0xFFFF) - (Two->HashValue & 0xFFFF));')]),
('P04','del-input-only-tcp',[(M,'''    c->d.Delete(&(c->d), ri);

    return 0;''','''    if( MsgContext_IsFromTCP((MsgContext *)h2) )
    {
        c->d.Delete(&(c->d), ri);
    }

    return 0;''')]),
('P04','hash-case',[(I,'''            StrToLower(h->Domain);
            h->HashValue = HASH(h->Domain, 0);''','''            h->HashValue = HASH(h->Domain, 0);
            StrToLower(h->Domain);''')]),
('P04','send-on-fail',[(UM,'''        if( ContextState != 0 )
        {
            continue;
        }
''','''        if( ContextState != 0 && !MsgContext_IsFromTCP(MsgCtx) )
        {
            continue;
        }
''')]),
('P05','prefix-host-order',[(TM,'DNSSetTcpLength(msg, h->EntityLength);','memcpy(msg, &(h->EntityLength), 2);')]),
('P05','resend-from-start',[(TM,'send(Sock, Start + Sent, Length - Sent, MSG_NOSIGNAL)','send(Sock, Start, Length - Sent, MSG_NOSIGNAL)')]),
('P05','short-is-ok',[(I,'''                 MSG_NOSIGNAL
                 )
            != Length )''','''                 MSG_NOSIGNAL
                 )
            < 0 )''')]),
('P05','addr-len',[(I,'GetAddressLength(h->BackAddress.family)','GetAddressLength(AF_INET)')]),
('P05','header-return',[(I,'''        if( h->ReturnHeader )
        {
            Content -= sizeof(IHeader);
            Length += sizeof(IHeader);
        }''','''        if( h->ReturnHeader )
        {
            Content -= sizeof(IHeader);
        }''')]),
('P05','backaddr-family',[(I,'''        memcpy(&(h->BackAddress.Addr), BackAddress, GetAddressLength(Family));
        h->BackAddress.family = Family;''','''        memcpy(&(h->BackAddress.Addr), BackAddress, sizeof(struct sockaddr_in));
        h->BackAddress.family = Family;''')]),
('P05','type-late',[(I,'h->Type = (DNSRecordType)DNSGetRecordType(DNSJumpHeader(DnsEntity));','h->Type = i.Type;\n            DNSSetAnswerCount(DnsEntity, 0);')]) if 0 else
('P05','socket-kept',[(I,'''    h->SendBackSocket = SendBackSocket;
''','''    if( SendBackSocket != INVALID_SOCKET && h->SendBackSocket == INVALID_SOCKET )
    {
        h->SendBackSocket = SendBackSocket;
    }
''')]),
('P05','edns-length',[(I,'''    g.EDns(&g, 1280);

    h->EntityLength = g.Length(&g);''','''    h->EntityLength = g.Length(&g);
    g.EDns(&g, 1280);
''')]),
('P05','tcp-len-minus',[(TM,'''                             msg,
                             h->EntityLength + 2
                             )''','''                             msg,
                             h->EntityLength
                             )''')]),
('P05','sendw-ok',[(TM,'            return (-1) * LastError;\n        }\n    }\n\n    return Length;','            return Sent > 0 ? Sent : (-1) * LastError;\n        }\n    }\n\n    return Length;')]),
('P05','incoming-len',[(TM,'''                   Buffer,
                   sizeof(IHeader) + h->EntityLength,''','''                   Buffer,
                   BufferLength - sizeof(IHeader),''')]),
('P05','parallel-first',[(UM,'''                ret |= (State > 0);

                ++a;''','''                ret |= (State > 0);
                if( ret ) break;
                ++a;''')]),
('P05','udp-ret',[(UM,'            ret = (State > 0);','            ret = 1;')]),
('P10','udp-left',[(UF,'''                             Entity,
                             LEFT_LENGTH,
                             0,''','''                             Entity,
                             SOCKET_CONTEXT_LENGTH,
                             0,''')]),
('P10','tcp-left',[(TF,'            if( TCPLength <= LEFT_LENGTH )','            if( TCPLength <= SOCKET_CONTEXT_LENGTH )')]),
('P10','tcpm-recv',[(TM,'            if( TCPLength > LEFT_LENGTH )','            if( TCPLength > SOCKET_CONTEXT_LENGTH )')]),
('P10','edns-room',[(I,'''                          BufferLength - sizeof(IHeader),
''','''                          BufferLength,
''')]),
('P10','agent-size',[(TF,'        char Agent[sizeof(Header->Agent)];','        char Agent[16];')]),
('P10','domain-size',[(I,'i.GetName(&i, h->Domain, sizeof(h->Domain)) < 0','i.GetName(&i, h->Domain, DOMAIN_NAME_LENGTH_MAX * 2) < 0')]) if 0 else
('P10','proxy-buf',[(TM,'char AddressInfos[4 + 1 + LENGTH_OF_IPV6_ADDRESS_ASCII + 2 + 1];','char AddressInfos[4 + 1 + LENGTH_OF_IPV4_ADDRESS_ASCII + 2 + 1];')]),
('P11','udp-dup-return',[(UM,'''    if( m->Context.Add(&(m->Context), (MsgContext *)Buffer) == NULL )
    {
        EFFECTIVE_LOCK_RELEASE(m->Lock);
        return -242;''','''    if( m->Context.Add(&(m->Context), (MsgContext *)Buffer) == NULL )
    {
        return -242;''')]),
('P11','udp-break',[(UM,'''                    ERRORMSG("Fatal error 53.\\n");
                    EFFECTIVE_LOCK_RELEASE(m->Lock);''','''                    ERRORMSG("Fatal error 53.\\n");''')]),
('P11','sweep-double',[(UM,'''        SweepTask(m, (SweepCallback)SweepWorks);
        SLEEP(10000);''','''        EFFECTIVE_LOCK_GET(m->Lock);
        if( m->CountOfTimeout >= 0 )
        {
            SweepTask(m, (SweepCallback)SweepWorks);
        }
        EFFECTIVE_LOCK_RELEASE(m->Lock);
        SLEEP(10000);''')]),
('P13','pending-unlocked',[(UM,'''        EFFECTIVE_LOCK_GET(m->Lock);
        ContextState = m->Context.GenAnswerHeaderAndRemove(&(m->Context), MsgCtx, MsgCtx);
        EFFECTIVE_LOCK_RELEASE(m->Lock);''','''        ContextState = m->Context.GenAnswerHeaderAndRemove(&(m->Context), MsgCtx, MsgCtx);''')]),
('P13','add-late',[(UM,'''    EFFECTIVE_LOCK_GET(m->Lock);
    if( m->Context.Add(''','''    EFFECTIVE_LOCK_GET(m->Lock);
    EFFECTIVE_LOCK_RELEASE(m->Lock);
    if( m->Context.Add('''),(UM,'''    {
        EFFECTIVE_LOCK_RELEASE(m->Lock);
        return -242;
    }
    EFFECTIVE_LOCK_RELEASE(m->Lock);''','''    {
        return -242;
    }''')]),
('P22','tcp-proxy-fail',[(TM,'''                AddressList_Advance(&(m->ServiceList));
                CLOSE_SOCKET(s);
                continue;
            }
        }
''','''                AddressList_Advance(&(m->ServiceList));
                continue;
            }
        }
''')]),
('P22','udp-bind-fail',[(UF,'''            ShowSocketError(p, GET_LAST_ERROR());
            CLOSE_SOCKET(sock);
            continue;''','''            ShowSocketError(p, GET_LAST_ERROR());
            continue;''')]),
('P22','nonblock-fail',[(TM,'''    if( SetSocketNonBlock(s, TRUE) != 0 )
    {
        CLOSE_SOCKET(s);
''','''    if( SetSocketNonBlock(s, TRUE) != 0 )
    {
''')]),
('P22','sweep-array',[(M,'''    Array_Free(&Pending);
''','')]),
('P22','tcp-not-added',[(TF,'''                    if( IsNewConnected )
                    {
                        Frontend.Add(&Frontend, sock_c, ClientAddr, sizeof(Address_Type));
                    }

                    continue;''','''                    if( IsNewConnected && TCPLength < 512 )
                    {
                        Frontend.Add(&Frontend, sock_c, ClientAddr, sizeof(Address_Type));
                    }

                    continue;''')]),
('P22','cleanup-name',[(TM,'    SafeFree(m->ProxyName);\n','')]),
('P22','list-leak',[(TM,'''        l.Free(&l);
    }

    m->Services''','''    }

    m->Services''')]),
('P23','closed-readded',[(TM,'''                INFO("Existing TCP connection expired, discard.\\n");
                CLOSE_SOCKET(s);
            } else {
                break;
            }''','''                INFO("Existing TCP connection expired, discard.\\n");
                CLOSE_SOCKET(s);
            }
            break;''')]),
('P23','reset-after-del',[(M,'''    IHeader_Reset((IHeader *)ri);
    c->d.Delete(&(c->d), ri);''','''    c->d.Delete(&(c->d), ri);
    IHeader_Reset((IHeader *)ri);''')]),
('P23','cb-after',[(M,'''        if( cb != NULL )
        {
            cb(*Context, i + 1, Arg);
        }

        c->d.Delete(&(c->d), *Context);''','''        c->d.Delete(&(c->d), *Context);

        if( cb != NULL )
        {
            cb(*Context, i + 1, Arg);
        }''')]),
]
