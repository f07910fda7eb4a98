SEEDS=[
dict(id='s05-alias-alone-served',property='P17',needs='a cached alias record that outlives the cached record of its target',breaks='the cache answers with an alias record only, without a record of the asked type',
 edits=[('dnscache.c','    if( DNSCache_GetRawRecordsFromCache(Name, i.Type, i.Klass, g, CurrentTime)\n        != 0\n        )','    if( DNSCache_GetRawRecordsFromCache(Name, i.Type, i.Klass, g, CurrentTime)\n        != 0 && g->Header->AnswerCount == 0\n        )')],
 demo='''
def h(q):
    n,t=qname(q)
    return [response(q,[rr(b'\\xc0\\x0c',5,600,name('b.test')),rr('b.test',1,1,ip4('1.2.3.4'))])]
up=Upstream(h)
s=Server('UDPGroup 127.0.0.1:%d * on\\nUseCache true\\nMemoryCache true\\nCacheSize 1048576\\n'%up.port)
r=s.ask(query('www.a.test')); assert r and any(a[0]==1 for a in parse(r)['answers'])
time.sleep(3.2)
r=s.ask(query('www.a.test',1,9)); assert r
print(parse(r)); sys.exit(0 if any(a[0]==1 for a in parse(r)['answers']) else 1)
'''),
dict(id='s06-ttl-multiple-as-fixed',property='P18',needs='MultipleTTL above 1 in the configuration',breaks='a cached record is stored with a lifetime other than its own times MultipleTTL',
 edits=[('dnscache.c','CacheTtlCrtl_Add(TtlCtrl, "*", TTL_STATE_VARIABLE, TTLMultiple, 0, TRUE);','CacheTtlCrtl_Add(TtlCtrl, "*", TTL_STATE_VARIABLE, 1, TTLMultiple, TRUE);')],
 demo='''
up=Upstream(lambda q:[response(q,[rr(b'\\xc0\\x0c',1,100,ip4('1.2.3.4'))])])
s=Server('UDPGroup 127.0.0.1:%d * on\\nUseCache true\\nMemoryCache true\\nCacheSize 1048576\\nMultipleTTL 5\\n'%up.port)
assert s.ask(query('a.test'))
time.sleep(0.5)
r=s.ask(query('a.test',1,9)); assert r and len(up.seen)==1
t=parse(r)['answers'][0][1]; print(t); sys.exit(0 if 480<=t<=500 else 1)
'''),
dict(id='s07-ns-kept-raw',property='P19',needs='an NS answer whose server name is compressed',breaks='a cached NS record does not come back as it was stored',
 edits=[('dnsparser.c','    case DNS_TYPE_TXT:\n        RecordParser = NULL;\n        break;\n\n    case DNS_TYPE_CNAME:\n    case DNS_TYPE_PTR:\n    case DNS_TYPE_NS:','    case DNS_TYPE_TXT:\n    case DNS_TYPE_NS:\n        RecordParser = NULL;\n        break;\n\n    case DNS_TYPE_CNAME:\n    case DNS_TYPE_PTR:')],
 demo='''
def nm(m,o):
    l=[]
    while m[o]:
        if m[o]>=0xc0: o=((m[o]&63)<<8)|m[o+1]; continue
        l.append(m[o+1:o+1+m[o]].decode('latin1')); o+=m[o]+1
    return '.'.join(l)
up=Upstream(lambda q:[response(q,[rr(b'\\xc0\\x0c',2,300,b'\\x03ns1\\xc0\\x0c')])])
s=Server('UDPGroup 127.0.0.1:%d * on\\nUseCache true\\nMemoryCache true\\nCacheSize 1048576\\n'%up.port)
assert s.ask(query('zone.test',2))
r=s.ask(query('zone.test',2,9)); assert r
try:
    o=skip(r,12)+4; o=skip(r,o)+10; n=nm(r,o)
except Exception as ex: n=repr(ex)
print(n,r); sys.exit(0 if n=='ns1.zone.test' else 1)
'''),
dict(id='s08-alias-to-itself-cached',property='P08',needs='an upstream answer with an alias record that points at its own name',breaks='a query of that name never ends; the server hangs',
 edits=[('dnscache.c','            if( g->CName(g, "a", CName, NewTTL) != 0 )\n            {\n                RWLock_UnRLock(CacheLock);\n                return -5;\n            }','            g->CName(g, "a", CName, NewTTL);')],
 demo='''
up=Upstream(lambda q:[response(q,[rr(b'\\xc0\\x0c',5,300,b'\\xc0\\x0c')])] if qname(q)[0]=='loop.test' else [response(q,[rr(b'\\xc0\\x0c',1,300,ip4('1.2.3.4'))])])
s=Server('UDPGroup 127.0.0.1:%d * on\\nUseCache true\\nMemoryCache true\\nCacheSize 1048576\\n'%up.port)
assert s.ask(query('a.test'))
s.ask(query('loop.test')); s.ask(query('loop.test',1,2),0.5)
r=s.ask(query('b.test',1,3)); print(r); sys.exit(0 if r else 1)
'''),
dict(id='s09-filter-lock-kept',property='P11',needs='a refused query before a reload',breaks='the lock of the filter is never released after a name was found; the next reload waits for ever',
 edits=[('filter.c','    RWLock_UnRLock(DisabledDomainLock);\n','    if( !ret )\n    {\n        RWLock_UnRLock(DisabledDomainLock);\n    }\n')],
 demo='''
up=Upstream(lambda q:[response(q,[rr(b'\\xc0\\x0c',1,300,ip4('1.2.3.4'))])])
up2=Upstream(lambda q:[response(q,[rr(b'\\xc0\\x0c',1,300,ip4('5.6.7.8'))])])
s=Server('UDPGroup 127.0.0.1:%d * on\\nDisabledDomain bad.test\\nReloadDisabledList true\\nModulesUpdateInterval 2\\nHosts file://@DIR@/h.txt\\nHostsDownloadPath @DIR@/dl.txt\\n'%up.port,files={'h.txt':'9.9.9.9 h.test\\n','g.txt':'PROTOCOL UDP\\nSERVER 127.0.0.1:%d\\nPARALLEL on\\nDOMAIN *\\n'%up.port,'l.txt':'bad.test\\n'})
s.ask(query('bad.test')); time.sleep(4.5)
open(s.dir+'/h.txt','w').write('8.8.8.8 h.test\\n'); time.sleep(6)
r=s.ask(query('h.test')); assert r; print(parse(r))
sys.exit(0 if parse(r)['answers'][0][2]==ip4('8.8.8.8') else 1)
'''),
dict(id='s10-rest-of-long-line',property='P15',needs='a group domain list file with a line longer than the buffer',breaks='the rest of a line that was refused as too long is taken as a line of its own',
 edits=[('mmgr.c','                    WARNING("Line is too long %s, file \\"%s\\".\\n", Buffer, ListFile);\n                    ReadLine_GoToNextLine(fp);\n                    continue;','                    WARNING("Line is too long %s, file \\"%s\\".\\n", Buffer, ListFile);\n                    continue;')],
 demo='''
up=Upstream(lambda q:[response(q,[rr(b'\\xc0\\x0c',1,300,ip4('1.2.3.4'))])])
up2=Upstream(lambda q:[response(q,[rr(b'\\xc0\\x0c',1,300,ip4('5.6.7.8'))])])
L=''.join('x'*k+'sub.test\\n' for k in (127,128,254,255,256,257,258,259,260,261,319,320,383,384,511,512,1022,1023,1024,2047,2048,4094,4095,4096,4097))
s=Server('GroupFile @DIR@/g.txt\\nGroupFile @DIR@/g2.txt\\n',wait=False); s.kill()
d=s.dir
for k,v in (('l.txt',L+'c.test\\n'),('g.txt','PROTOCOL UDP\\nSERVER 127.0.0.1:%d\\nPARALLEL on\\nLIST %s/l.txt\\n'%(up2.port,d)),('g2.txt','PROTOCOL UDP\\nSERVER 127.0.0.1:%d\\nPARALLEL on\\n*\\n'%up.port)): open(d+'/'+k,'w').write(v)
s=Server('GroupFile %s/g.txt\\nGroupFile %s/g2.txt\\n'%(d,d))
r=s.ask(query('c.test')); assert r and parse(r)['answers'][0][2]==ip4('5.6.7.8'),(r,s.out())
r=s.ask(query('sub.test')); assert r; print(parse(r))
sys.exit(0 if parse(r)['answers'][0][2]==ip4('1.2.3.4') else 1)
'''),
dict(id='s11-tcp-connection-forgotten',property='P22',needs='TCP clients whose first message is 512 bytes or longer',breaks='the descriptor of such a connection is neither watched nor closed: it leaks',
 edits=[('tcpfrontend.c','                    if( IsNewConnected )\n                    {','                    if( IsNewConnected && TCPLength < 512 )\n                    {')],
 demo='''
up=Upstream(lambda q:[response(q,[rr(b'\\xc0\\x0c',1,300,ip4('1.2.3.4'))])])
s=Server('UDPGroup 127.0.0.1:%d * on\\n'%up.port)
def fds():
    d='/proc/%d/task'%s.p.pid
    return max(len(os.listdir('%s/%s/fd'%(d,t))) for t in os.listdir(d))
def big(n,i):
    q=query(n,1,i); q=q[:10]+b'\\0\\1'+q[12:]
    return q+b'\\0'+struct.pack('>HHIH',41,1280,0,600)+struct.pack('>HH',12,596)+b'\\0'*596
assert s.ask_tcp(query('a.test'))
time.sleep(0.5); a=fds()
for i in range(12): s.ask_tcp(big('n%d.test'%i,i),1)
time.sleep(1.5); s.ask_tcp(query('z.test'),1); time.sleep(0.5); b=fds(); print(a,b)
sys.exit(0 if b-a<=3 else 1)
'''),
dict(id='s13-bigger-cache-reused',property='P21',needs='an existing cache file made with a larger CacheSize',breaks='an existing cache file is reused although it was made for another size',
 edits=[('dnscache.c',"        ERRORMSG(\"The size of the existing cache and the value of `CacheSize' should be equal.\\n\");\n        return FALSE;","        ERRORMSG(\"The size of the existing cache and the value of `CacheSize' should be equal.\\n\");\n        return Header->CacheSize > CacheSize;")],
 demo='''
up=Upstream(lambda q:[response(q,[rr(b'\\xc0\\x0c',1,3000,ip4('1.2.3.4'))])])
F=os.path.join(SCR,'cache.bin')
C='UDPGroup 127.0.0.1:%d * on\\nUseCache true\\nMemoryCache false\\nCacheFile %s\\nReloadCache true\\nOverwriteCache true\\nCacheSize '%(up.port,F)
import signal
def run(size):
    s=Server(C+'%d\\n'%size); n=len(up.seen); r=s.ask(query('a.test')); 
    s.p.send_signal(signal.SIGTERM); time.sleep(0.5); s.kill()
    return r,len(up.seen)-n
r,n=run(1048576); assert r and n==1
r,n2=run(1048576)
r,n3=run(204800); print(n,n2,n3)
sys.exit(0 if r and n3==1 else 1)
'''),
dict(id='s14-hosts-exclusion-6',property='P24',needs='BlockIpv6WhenIpv4Exists set to false',breaks='an option takes the opposite effect',
 edits=[('hosts.c','    BlockIpv6WhenIpv4Exists = ConfigGetBoolean(ConfigInfo,\n                                                 "BlockIpv6WhenIpv4Exists"\n                                                 );','    BlockIpv6WhenIpv4Exists = !ConfigGetBoolean(ConfigInfo,\n                                                 "BlockIpv6WhenIpv4Exists"\n                                                 );')],
 demo='''
def h(q):
    n,t=qname(q)
    return [response(q,[rr(b'\\xc0\\x0c',t,300,ip4('1.2.3.4') if t==1 else b'\\1'*16)])]
up=Upstream(h)
s=Server('UDPGroup 127.0.0.1:%d * on\\nBlockIpv6WhenIpv4Exists false\\nAppendHosts 9.9.9.9 v.test\\n'%up.port)
r=s.ask(query('v.test',28)); assert r; p=parse(r); print(p)
sys.exit(0 if len(p['answers'])==1 else 1)
'''),
dict(id='s15-hosts-reply-short',property='P05',needs='a hosts answer longer than its query',breaks='the bytes sent are not those of the message made: the tail of the answer is something else',
 edits=[('hostsutils.c','        Header->EntityLength = ResultLength;\n        memmove(RequestEntity, HereToGenerate, ResultLength);','        memmove(RequestEntity, HereToGenerate, Header->EntityLength);\n        Header->EntityLength = ResultLength;')],
 demo='''
up=Upstream(lambda q:[response(q,[rr(b'\\xc0\\x0c',1,300,ip4('1.2.3.4'))])])
s=Server('UDPGroup 127.0.0.1:%d * on\\nAppendHosts 9.9.9.9 v.test\\n'%up.port)
r=s.ask(query('v.test')); assert r
try: p=parse(r); ok=p['answers'][0][2]==ip4('9.9.9.9')
except Exception as ex: p=ex; ok=False
print(p,r); sys.exit(0 if ok else 1)
'''),
dict(id='s16-hash-of-other-spelling',property='P04',needs='a server that answers with another spelling of the name than the query had',breaks='an answer that matches a pending query is not delivered',
 edits=[('iheader.c','            StrToLower(h->Domain);\n            h->HashValue = HASH(h->Domain, 0);','            h->HashValue = HASH(h->Domain, 0);\n            StrToLower(h->Domain);')],
 demo='''
def h(q):
    r=response(q,[rr(b'\\xc0\\x0c',1,300,ip4('1.2.3.4'))])
    return [r[:12]+r[12:20].lower()+r[20:]]
up=Upstream(h)
s=Server('UDPGroup 127.0.0.1:%d * on\\n'%up.port)
assert s.ask(query('abcdefg.test'))
r=s.ask(query('AbCdEfg.test',1,5)); print(r); sys.exit(0 if r else 1)
'''),
dict(id='s17-v4-names-refuse-all',property='P02',needs='BlockIpv6WhenIpv4Exists true and a query other than A or AAAA for a name with an IPv4 hosts entry',breaks='the hosts refuse queries they are not to refuse',
 edits=[('hosts.c','        if( Header->Type == DNS_TYPE_AAAA &&','        if( Header->Type != DNS_TYPE_A &&')],
 demo='''
def h(q):
    n,t=qname(q)
    return [response(q,[rr(b'\\xc0\\x0c',t,300,b'\\3abc')])]
up=Upstream(h)
s=Server('UDPGroup 127.0.0.1:%d * on\\nBlockIpv6WhenIpv4Exists true\\nAppendHosts 9.9.9.9 v.test\\n'%up.port)
r=s.ask(query('v.test',16)); assert r; p=parse(r); print(p)
sys.exit(0 if len(p['answers'])==1 else 1)
'''),
dict(id='s18-range-wider-than-written',property='P03',needs='a blocked IPv6 range of more than 32 bits and an address beside it',breaks='an answer is dropped although its address is not in a blocked range',
 edits=[('ipchunk.c','        } else if( n > L ) {\n            n = L;','        } else if( n >= 32 ) {\n            n = 32;')],
 demo='''
A=bytes.fromhex('20010db8000000010000000000000001')
up=Upstream(lambda q:[response(q,[rr(b'\\xc0\\x0c',28,300,A)])])
s=Server('UDPGroup 127.0.0.1:%d * on\\nBlockIP 2001:db8::/64\\n'%up.port)
r=s.ask(query('v.test',28)); print(r)
sys.exit(0 if r and len(parse(r)['answers'])==1 else 1)
'''),
]
