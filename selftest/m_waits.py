BUGS=[
('P26','accept-blocking',[('tcpfrontend.c','SetSocketNonBlock(sock_c, TRUE) != 0 ||\n                Frontend.Add','Frontend.Add')]),
('P26','recv-direct',[('tcpfrontend.c','            ClientAddr_c.family = ClientAddr->family;\n','            ClientAddr_c.family = ClientAddr->family;\n            recv(sock_c, (char *)&TCPLength, 2, 0);\n')]),
('P26','no-wait',[('tcpfrontend.c','        if( !SocketIsStillReadable(Sock, TIMEOUT_ms_CLIENT) ||\n            time','        if( time')]),
('P26','connect-blocking',[('tcpm.c','    if( SetSocketNonBlock(s, TRUE) != 0 )\n    {\n        CLOSE_SOCKET(s);\n        return INVALID_SOCKET;\n    }\n','')]),
('P26','nonblock-late',[('tcpm.c','SetSocketNonBlock(s, TRUE) != 0 )','SetSocketNonBlock(s, FALSE) != 0 )')]),
('P26','ping-blocking',[('goodiplist.c','SetSocketNonBlock(skt, TRUE) != 0','SetSocketNonBlock(skt, FALSE) != 0')]),
('P26','udpm-second',[('udpm.c','        switch( select(m->Departure + 1, &ReadySet, NULL, NULL, &Timeout) )\n        {\n            case SOCKET_ERROR:','        switch( select(m->Departure + 1, NULL, &ReadySet, NULL, &Timeout) )\n        {\n            case SOCKET_ERROR:')]),
('P26','hosts-other',[('hosts.c','            State = recvfrom(OuterSocket,','            State = recvfrom(InnerSocket,')]),
('P26','ufe-drain',[('udpfrontend.c','        RecvState = recvfrom(sock,','        recvfrom(sock, Entity, LEFT_LENGTH, 0, NULL, NULL);\n        RecvState = recvfrom(sock,')]),
]
QUIET=[]
