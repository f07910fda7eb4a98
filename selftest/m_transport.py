BUGS=[
('P05','sb-nohtons',[('iheader.c','        DNSSetTcpLength(Content, h->EntityLength);','        *(uint16_t *)Content = h->EntityLength;')]),
('P05','sb-len',[('iheader.c','        Length += 2;','        Length += 0;')]),
('P05','sb-prefix-total',[('iheader.c','        DNSSetTcpLength(Content, h->EntityLength);','        DNSSetTcpLength(Content, Length);')]),
('P05','sb-noheader',[('iheader.c','            Length += sizeof(IHeader);','')]),
('P05','sb-alwaysok',[('iheader.c','            return -138;','            return 0;')]),
('P05','sb-lt0',[('iheader.c','                 MSG_NOSIGNAL\n                 )\n            != Length )','                 MSG_NOSIGNAL\n                 )\n            < 0 )')]),
('P05','sb-addrlen',[('iheader.c','                   GetAddressLength(h->BackAddress.family)\n                   )\n           != Length','                   sizeof(struct sockaddr)\n                   )\n           != Length')]),
('P05','sw-restart',[('tcpm.c','send(Sock, Start + Sent, Length - Sent, MSG_NOSIGNAL)','send(Sock, Start, Length - Sent, MSG_NOSIGNAL)')]),
('P05','sw-short',[('tcpm.c','    while( Sent < Length )\n    {\n        int State = send','    while( Sent == 0 )\n    {\n        int State = send')]),
('P05','sa-len',[('tcpm.c','                             h->EntityLength + 2\n','                             h->EntityLength\n')]),
('P05','sa-prefix',[('tcpm.c','    DNSSetTcpLength(msg, h->EntityLength);','    DNSSetTcpLength(msg, h->EntityLength + 2);')]),
('P05','us-len',[('udpm.c','                               h->EntityLength,\n                               MSG','                               BufferLength,\n                               MSG')]),
('P05','fill-lower',[('iheader.c','            StrToLower(h->Domain);\n            h->HashValue = HASH(h->Domain, 0);','            h->HashValue = HASH(h->Domain, 0);\n            StrToLower(h->Domain);')]),
('P05','fill-class',[('iheader.c','if( i.Klass != DNS_CLASS_IN )','if( i.Klass == 255 )')]),
('P05','fill-nameerr',[('iheader.c','sizeof(h->Domain)) < 0 )','sizeof(h->Domain)) == 0 )')]),
('P05','fill-size',[('iheader.c','sizeof(h->Domain)) < 0 )','sizeof(h->Domain) + 8) < 0 )')]),
('P05','fill-family',[('iheader.c','        h->BackAddress.family = AF_UNSPEC;\n    }\n\n    h->SendBack','        h->BackAddress.family = Family;\n    }\n\n    h->SendBack')]),
('P05','fill-noq',[('iheader.c','    if( !HasQuestion )\n    {\n        return -84;\n    }\n','')]),
('P05','fe-socket',[('tcpfrontend.c','                                 sock_c,\n                                 ClientAddr->family','                                 sock,\n                                 ClientAddr->family')]),
('P06','rx-len',[('tcpm.c','    } while ( State > 0 && TCPLength > 0 );\n\n            if( TCPLength != 0 )','    } while ( State > 0 && TCPLength > 0 );\n\n            if( State < 0 )')]),
('P06','rx-fe-partial',[('tcpfrontend.c','if( RecvState == TCPLength &&','if( RecvState > 0 &&')]),
]
QUIET=[
(['P05','P06'],'sb-loop',[('iheader.c','''        if( send(h->SendBackSocket,
                 Content,
                 Length,
                 MSG_NOSIGNAL
                 )
            != Length )
        {
            /** TODO: Show error */
            return -112;
        }
''','''        int Done = 0;

        while( Done < Length )
        {
            int r = send(h->SendBackSocket, Content + Done, Length - Done, MSG_NOSIGNAL);

            if( r <= 0 )
            {
                return -112;
            }

            Done += r;
        }
''')]),
(['P05','P06'],'sb-helper',[('iheader.c','int MsgContext_SendBack(MsgContext *MsgCtx)\n{','''static int SendTcp(SOCKET s, char *Entity, int Len)
{
    char *p = Entity - 2;
    DNSSetTcpLength(p, Len);
    return send(s, p, Len + 2, MSG_NOSIGNAL) == Len + 2 ? 0 : -112;
}

int MsgContext_SendBack(MsgContext *MsgCtx)
{'''),('iheader.c','''        /* TCP */
        Content -= 2;
        Length += 2;

        DNSSetTcpLength(Content, h->EntityLength);

        if( send(h->SendBackSocket,
                 Content,
                 Length,
                 MSG_NOSIGNAL
                 )
            != Length )
        {
            /** TODO: Show error */
            return -112;
        }
''','''        return SendTcp(h->SendBackSocket, Content, h->EntityLength);
''')]),
(['P05','P06'],'sw-ptr',[('tcpm.c','''        int State = send(Sock, Start + Sent, Length - Sent, MSG_NOSIGNAL);
        int LastError;

        if( State > 0 )
        {
            Sent += State;
            continue;
        }
''','''        int State = send(Sock, Start, Length - Sent, MSG_NOSIGNAL);
        int LastError;

        if( State > 0 )
        {
            Start += State;
            Sent += State;
            continue;
        }
''')]),
(['P05','P06'],'fill-order',[('iheader.c','''    h->ReturnHeader = ReturnHeader;

    if( BackAddress != NULL )
    {
        memcpy(&(h->BackAddress.Addr), BackAddress, GetAddressLength(Family));
        h->BackAddress.family = Family;
    } else {
        h->BackAddress.family = AF_UNSPEC;
    }

    h->SendBackSocket = SendBackSocket;
''','''    h->EntityLength = EntityLength;
    h->SendBackSocket = SendBackSocket;

    h->BackAddress.family = AF_UNSPEC;
    if( BackAddress != NULL )
    {
        h->BackAddress.family = Family;
        memcpy(&(h->BackAddress.Addr), BackAddress, GetAddressLength(Family));
    }

    h->ReturnHeader = ReturnHeader;
''')]),
(['P05','P06'],'fill-if',[('iheader.c','''        switch( i.Purpose )
        {
        case DNS_RECORD_PURPOSE_QUESTION:
            if( HasQuestion''','''        if( i.Purpose == DNS_RECORD_PURPOSE_QUESTION )
        {
            if( HasQuestion'''),('iheader.c','''            HasQuestion = TRUE;
            break;

        case DNS_RECORD_PURPOSE_ADDITIONAL:
            if( i.Type == DNS_TYPE_OPT )
            {
                h->EDNSEnabled = TRUE;
            }
            break;

        default:
            break;
        }''','''            HasQuestion = TRUE;
        } else if( i.Purpose == DNS_RECORD_PURPOSE_ADDITIONAL && i.Type == DNS_TYPE_OPT )
        {
                h->EDNSEnabled = TRUE;
        }''')]),
]
