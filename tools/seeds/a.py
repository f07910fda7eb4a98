SEEDS=[
dict(id='s01-filter-after-hosts',property='P01',needs='a disabled name that also has a hosts entry',breaks='a disabled name is answered from hosts instead of being refused',
 edits=[('mmgr.c','    /* Determine whether to discard the query */\n    if( Filter_Out(MsgCtx) )\n    {\n        return 0;\n    }\n\n    /* Hosts & Cache */\n    if( Hosts_Get(MsgCtx, BufferLength) == 0 )\n    {\n        return 0;\n    }\n','    /* Hosts & Cache */\n    if( Hosts_Get(MsgCtx, BufferLength) == 0 )\n    {\n        return 0;\n    }\n\n    /* Determine whether to discard the query */\n    if( Filter_Out(MsgCtx) )\n    {\n        return 0;\n    }\n')],
 demo='''
up=Upstream(lambda q:[response(q,[rr(b'\\xc0\\x0c',1,300,ip4('1.2.3.4'))])])
s=Server('UDPGroup 127.0.0.1:%d * on\\nAppendHosts 9.9.9.9 bad.test\\nDisabledDomain bad.test\\n'%up.port)
r=s.ask(query('ok.test')); assert r and parse(r)['rcode']==0
r=s.ask(query('bad.test')); assert r
p=parse(r); print(p)
sys.exit(0 if not p['answers'] else 1)
'''),
dict(id='s02-screen-stops-at-cname',property='P03',needs='an answer whose blocked address record follows an alias record',breaks='a blocked address behind an alias record reaches the client',
 edits=[('ipmisc.c','        default:\n            continue;\n        }\n\n        if( i.DataLength < DataLength )','        default:\n            return IP_MISC_NOTHING;\n        }\n\n        if( i.DataLength < DataLength )')],
 demo='''
def h(q):
    n,t=qname(q)
    a=[rr(b'\\xc0\\x0c',1,300,ip4('6.6.6.6' if n.startswith('b') else '1.2.3.4'))]
    if n.endswith('c.test'): a=[rr(b'\\xc0\\x0c',5,300,b'\\xc0\\x0c')]+a
    return [response(q,a)]
up=Upstream(h)
s=Server('UDPGroup 127.0.0.1:%d * on\\nBlockIP 6.6.6.6\\n'%up.port)
assert s.ask(query('a.test')) and s.ask(query('a.c.test'))
assert s.ask(query('b.test'),1) is None
r=s.ask(query('b.c.test',1,77),1.5); print(r)
sys.exit(0 if r is None else 1)
'''),
dict(id='s03-pending-not-removed',property='P04',needs='two answers for one query, the first one without EDNS',breaks='one query is answered twice',
 edits=[('mcontext.c','    IHeader_Reset((IHeader *)ri);\n    c->d.Delete(&(c->d), ri);\n\n    return 0;','    if( EDNSEnabled )\n    {\n        IHeader_Reset((IHeader *)ri);\n        c->d.Delete(&(c->d), ri);\n    }\n\n    return 0;')],
 demo='''
up=Upstream(lambda q:[response(q,[rr(b'\\xc0\\x0c',1,300,ip4('1.2.3.4'))]),response(q,[rr(b'\\xc0\\x0c',1,300,ip4('6.6.6.6'))])])
s=Server('UDPGroup 127.0.0.1:%d * on\\n'%up.port)
u=s.sock(); u.send(query('a.test')); n=0; u.settimeout(1)
try:
    while True: u.recv(4096); n+=1
except socket.timeout: pass
print(n); assert n>=1
sys.exit(0 if n==1 else 1)
'''),
dict(id='s04-exclusion-static-only',property='P02',needs='an exclusion that only the hosts file carries and an address entry for the same name',breaks='a name excluded in the hosts file is still answered from hosts',
 edits=[('hosts.c','    if( Hosts_TypeExisting(Header->Domain, HOSTS_TYPE_EXCLUEDE) )','    if( StaticHosts_TypeExisting(Header->Domain, HOSTS_TYPE_EXCLUEDE) )')],
 demo='''
up=Upstream(lambda q:[response(q,[rr(b'\\xc0\\x0c',1,300,ip4('1.2.3.4'))])])
s=Server('UDPGroup 127.0.0.1:%d * on\\nHosts file://@DIR@/h.txt\\nHostsDownloadPath @DIR@/dl.txt\\nAppendHosts 9.9.9.9 *.ex.test\\n'%up.port,files={'h.txt':'@@ a.ex.test\\n'})
time.sleep(2)
r=s.ask(query('b.ex.test')); assert r and parse(r)['answers'][0][2]==ip4('9.9.9.9'),r
r=s.ask(query('a.ex.test')); assert r
print(parse(r)); sys.exit(0 if parse(r)['answers'][0][2]==ip4('1.2.3.4') else 1)
'''),
]
