BUGS=[
('P10','ufe-size',[('udpfrontend.c','                             LEFT_LENGTH,\n                             0,\n                             IncomingAddress','                             SOCKET_CONTEXT_LENGTH,\n                             0,\n                             IncomingAddress')]),
('P10','um-size',[('udpm.c','                             LEFT_LENGTH,\n                             0,\n                             NULL','                             SOCKET_CONTEXT_LENGTH,\n                             0,\n                             NULL')]),
('P10','tcp-nolimit',[('tcpm.c','if( TCPLength > LEFT_LENGTH )','if( TCPLength > 65000 )')]),
('P10','tcp-whole',[('tcpm.c','if( TCPLength > LEFT_LENGTH )','if( TCPLength > SOCKET_CONTEXT_LENGTH )')]),
('P10','tcp-chunk',[('tcpm.c','State = TcpM_RecvWrapper(s, PartialData, TCPLength);\n                PartialData += State;\n                TCPLength -= State;','State = TcpM_RecvWrapper(s, PartialData, LEFT_LENGTH);\n                PartialData += State;\n                TCPLength -= State;')]),
('P10','tfe-limit',[('tcpfrontend.c','if( TCPLength <= LEFT_LENGTH )','if( TCPLength <= SOCKET_CONTEXT_LENGTH )')]),
('P10','name-off',[('dnsparser.c','if( BufferItr + LabelCount + 1 - buffer <= BufferLength )','if( BufferItr + LabelCount - buffer <= BufferLength )')]),
('P10','cname-buf',[('hosts.c','char RecursedDomain[DOMAIN_NAME_LENGTH_MAX + 1]','char RecursedDomain[128]')]),
('P10','scan-width',[('hostscontainer.c','char IPOrCName[DOMAIN_NAME_LENGTH_MAX + 1];','char IPOrCName[DOMAIN_NAME_LENGTH_MAX];')]),
('P07','np-check',[('dnsgenerator.c','if( LEFT_LENGTH(g) < LabelLen )','if( LEFT_LENGTH(g) < LabelLen - 1 )')]),
('P07','16-check',[('dnsgenerator.c','if( LEFT_LENGTH(g) < 2 )','if( LEFT_LENGTH(g) < 1 )')]),
('P07','raw-check',[('dnsgenerator.c','    if( LEFT_LENGTH(g) < DataLength )\n    {\n        return -6;\n    }\n\n    memcpy','    memcpy')]),
('P07','rdlen-mx',[('dnsgenerator.c','LABEL_LENGTH(Server) + 2)','LABEL_LENGTH(Server))')]),
('P07','rdlen-name',[('dnsgenerator.c','DnsGenerator_16Uint(g, LABEL_LENGTH(CName))','DnsGenerator_16Uint(g, LABEL_LENGTH(Name))')]),
('P07','rdlen-root',[('dnsgenerator.c',"#define LABEL_LENGTH(name)  (*(name) == '\\0' ? 1 : strlen(name) + 2)","#define LABEL_LENGTH(name)  (strlen(name) + 2)")]),
('P07','count-early',[('dnsgenerator.c','    if( DnsGenerator_IPv4(g, ip) != 0 )\n    {\n        return -6;\n    }\n\n    SET_16_BIT_U_INT(g->NumberOfRecords,\n                     GET_16_BIT_U_INT(g->NumberOfRecords) + 1\n                     );\n','    SET_16_BIT_U_INT(g->NumberOfRecords,\n                     GET_16_BIT_U_INT(g->NumberOfRecords) + 1\n                     );\n    if( DnsGenerator_IPv4(g, ip) != 0 )\n    {\n        return -6;\n    }\n\n')]),
('P07','type-const',[('dnsgenerator.c','    if( DnsGenerator_16Uint(g, DNS_TYPE_AAAA) != 0 )','    if( DnsGenerator_16Uint(g, DNS_TYPE_A) != 0 )')]),
('P07','init-less',[('dnsgenerator.c','        if( SourceLength > BufferLength )\n        {\n            return -3;\n        }\n','')]),
('P07','ttl16',[('dnsgenerator.c','    if( DnsGenerator_32Uint(g, Ttl) != 0 )','    if( DnsGenerator_16Uint(g, Ttl) != 0 )')]),
('P07','try-room',[('hostsutils.c','BufferLength - sizeof(IHeader) - Header->EntityLength;\n\n        int ResultLength','BufferLength - Header->EntityLength;\n\n        int ResultLength')]),
]
QUIET=[
(['P10','P07'],'gen-helper',[('dnsgenerator.c','static int DnsGenerator_16Uint(DnsGenerator *g, int Value)\n{\n    if( LEFT_LENGTH(g) < 2 )\n    {\n        return -1;\n    }','static int HasRoom(const DnsGenerator *g, int n)\n{\n    return LEFT_LENGTH(g) >= n;\n}\nstatic void CountUp(DnsGenerator *g)\n{\n    uint16_t n = GET_16_BIT_U_INT(g->NumberOfRecords);\n    ++n;\n    SET_16_BIT_U_INT(g->NumberOfRecords, n);\n}\nstatic int DnsGenerator_16Uint(DnsGenerator *g, int Value)\n{\n    if( !HasRoom(g, 2) )\n    {\n        return -1;\n    }'),('dnsgenerator.c','    if( DnsGenerator_IPv4(g, ip) != 0 )\n    {\n        return -6;\n    }\n\n    SET_16_BIT_U_INT(g->NumberOfRecords,\n                     GET_16_BIT_U_INT(g->NumberOfRecords) + 1\n                     );\n','    if( DnsGenerator_IPv4(g, ip) != 0 )\n    {\n        return -6;\n    }\n    CountUp(g);\n')]),
(['P10','P07'],'gen-fixed',[('dnsgenerator.c','    if( DnsGenerator_NamePart(g, Name) != 0 )\n    {\n        return -1;\n    }\n\n    if( DnsGenerator_16Uint(g, DNS_TYPE_A) != 0 )\n    {\n        return -2;\n    }\n\n    if( DnsGenerator_16Uint(g, DNS_CLASS_IN) != 0 )\n    {\n        return -3;\n    }\n\n    if( DnsGenerator_32Uint(g, Ttl) != 0 )\n    {\n        return -4;\n    }\n\n    if( DnsGenerator_16Uint(g, 4) != 0 )\n    {\n        return -5;\n    }\n','    { int r = Fixed(g, Name, DNS_TYPE_A, DNS_CLASS_IN, Ttl, 4); if( r != 0 ) return r; }\n'),
  ('dnsgenerator.c','/* Record generations */\n','static int Fixed(DnsGenerator *g, const char *Name, int Type, int Klass, int Ttl, int Len)\n{\n    if( DnsGenerator_NamePart(g, Name) != 0 )\n        return -1;\n    if( LEFT_LENGTH(g) < 10 )\n        return -2;\n    SET_16_BIT_U_INT(g->Itr, Type);\n    SET_16_BIT_U_INT(g->Itr + 2, Klass);\n    SET_32_BIT_U_INT(g->Itr + 4, Ttl);\n    SET_16_BIT_U_INT(g->Itr + 8, Len);\n    g->Itr += 10;\n    return 0;\n}\n/* Record generations */\n')]),
(['P10','P06','P05'],'recv-while',[('tcpm.c','            do\n            {\n                State = TcpM_RecvWrapper(s, PartialData, TCPLength);\n                PartialData += State;\n                TCPLength -= State;\n            } while ( State > 0 && TCPLength > 0 );','            for( ;; )\n            {\n                State = TcpM_RecvWrapper(s, PartialData, TCPLength);\n                PartialData += State;\n                TCPLength -= State;\n                if( State <= 0 || TCPLength == 0 )\n                {\n                    break;\n                }\n            }')]),
(['P10','P06','P05'],'recv-helper',[('tcpm.c','            PartialData = Entity;\n            do\n            {\n                State = TcpM_RecvWrapper(s, PartialData, TCPLength);\n                PartialData += State;\n                TCPLength -= State;\n            } while ( State > 0 && TCPLength > 0 );','            PartialData = TcpM_RecvRest(s, Entity, &TCPLength);'),('tcpm.c','static int TcpM_ProxyPreparation(','static char *TcpM_RecvRest(SOCKET s, char *At, uint16_t *Left)\n{\n    int State;\n    do\n    {\n        State = TcpM_RecvWrapper(s, At, *Left);\n        At += State;\n        *Left -= State;\n    } while ( State > 0 && *Left > 0 );\n    return At;\n}\n\nstatic int TcpM_ProxyPreparation(')]),
]
