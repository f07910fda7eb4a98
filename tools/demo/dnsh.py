"""Tiny black-box driver: runs a dnsforwarder binary on loopback inside a scratch folder."""
import os, sys, socket, struct, subprocess, tempfile, shutil, threading, time, atexit

BIN=os.environ.get('DNSF_BIN', os.path.join(os.getcwd(),'_build','dnsforwarder'))
SCR=tempfile.mkdtemp(prefix='dnsf_demo_'); atexit.register(shutil.rmtree,SCR,True)

def free_port():
    for _ in range(50):
        a=socket.socket(socket.AF_INET,socket.SOCK_DGRAM); a.bind(('127.0.0.1',0)); p=a.getsockname()[1]
        b=socket.socket(socket.AF_INET,socket.SOCK_STREAM)
        try: b.bind(('127.0.0.1',p)); a.close(); b.close(); return p
        except OSError: a.close(); b.close()
    raise RuntimeError('no port')

def name(n): return b''.join(bytes([len(l)])+l.encode() for l in n.split('.') if l)+b'\0'
def query(n,qtype=1,qid=0x1234,edns=False):
    q=struct.pack('>HHHHHH',qid,0x0100,1,0,0,1 if edns else 0)+name(n)+struct.pack('>HH',qtype,1)
    if edns: q+=b'\0'+struct.pack('>HHIH',41,1280,0,0)
    return q
def rr(n,t,ttl,data,cls=1): return (name(n) if isinstance(n,str) else n)+struct.pack('>HHIH',t,cls,ttl,len(data))+data
def response(q,answers=(),rcode=0,extra=b'',nar=0):
    qid=struct.unpack('>H',q[:2])[0]
    e=12
    while q[e]: e+=q[e]+1
    e+=5
    return struct.pack('>HHHHHH',qid,0x8180|rcode,1,len(answers),0,nar)+q[12:e]+b''.join(answers)+extra
def ip4(s): return socket.inet_aton(s)
def qname(q):
    e=12; l=[]
    while q[e]: l.append(q[e+1:e+1+q[e]].decode('latin1')); e+=q[e]+1
    return '.'.join(l),struct.unpack('>H',q[e+1:e+3])[0]
def skip(m,o):
    while m[o]:
        if m[o]>=0xC0: return o+2
        o+=m[o]+1
    return o+1
def parse(m):
    """dict: id,flags,rcode,counts,answers[(type,ttl,data)]"""
    i,f,q,a,n,r=struct.unpack('>HHHHHH',m[:12]); o=12
    for _ in range(q): o=skip(m,o)+4
    ans=[]
    for _ in range(a):
        o=skip(m,o); t,c,ttl,l=struct.unpack('>HHIH',m[o:o+10]); ans.append((t,ttl,m[o+10:o+10+l])); o+=10+l
    return dict(id=i,flags=f,rcode=f&15,counts=(q,a,n,r),answers=ans,end=o)

class Upstream:
    """UDP (and optionally TCP) upstream; handler(query bytes)-> list of replies"""
    def __init__(s,handler,tcp=False,port=None):
        s.h=handler; s.seen=[]; s.port=port or free_port(); s.stop=False
        s.u=socket.socket(socket.AF_INET,socket.SOCK_DGRAM); s.u.bind(('127.0.0.1',s.port))
        threading.Thread(target=s._udp,daemon=True).start()
        if tcp:
            s.t=socket.socket(); s.t.setsockopt(socket.SOL_SOCKET,socket.SO_REUSEADDR,1); s.t.bind(('127.0.0.1',s.port)); s.t.listen(8)
            threading.Thread(target=s._tcp,daemon=True).start()
    def _udp(s):
        while True:
            try: d,a=s.u.recvfrom(4096)
            except OSError: return
            s.seen.append(d)
            for r in s.h(d) or []: s.u.sendto(r,a)
    def _tcp(s):
        while True:
            try: c,_=s.t.accept()
            except OSError: return
            threading.Thread(target=s._conn,args=(c,),daemon=True).start()
    def _conn(s,c):
        try:
            while True:
                l=rx(c,2)
                d=rx(c,struct.unpack('>H',l)[0]); s.seen.append(d)
                for r in s.h(d) or []: c.sendall(struct.pack('>H',len(r))+r)
        except Exception: pass
def rx(c,n):
    b=b''
    while len(b)<n:
        x=c.recv(n-len(b))
        if not x: raise EOFError
        b+=x
    return b

class Server:
    def __init__(s,conf,files={},wait=True,env=None):
        s.dir=tempfile.mkdtemp(dir=SCR); s.port=free_port(); s.tport=s.port
        for k,v in files.items(): open(os.path.join(s.dir,k),'w').write(v)
        base='LogOn false\nUDPLocal 127.0.0.1:%d\nTCPLocal 127.0.0.1:%d\n'%(s.port,s.port)
        open(os.path.join(s.dir,'c.conf'),'w').write(base+conf.replace('@DIR@',s.dir)+'\n')
        e=dict(os.environ,HOME=s.dir); e.update(env or {})
        s.log=open(os.path.join(s.dir,'out.log'),'wb')
        s.p=subprocess.Popen([BIN,'-f',os.path.join(s.dir,'c.conf')],cwd=s.dir,env=e,stdout=s.log,stderr=s.log,stdin=subprocess.DEVNULL)
        atexit.register(s.kill)
        if wait:
            t=time.time()
            while time.time()-t<10:
                try:
                    c=socket.create_connection(('127.0.0.1',s.port),0.3); c.close(); break
                except OSError: time.sleep(0.05)
            time.sleep(0.3)
    def alive(s): return s.p.poll() is None
    def kill(s):
        if s.p.poll() is None: s.p.kill()
        s.p.wait()
    def out(s): s.log.flush(); return open(os.path.join(s.dir,'out.log'),'rb').read().decode('latin1')
    def sock(s):
        u=socket.socket(socket.AF_INET,socket.SOCK_DGRAM); u.settimeout(2); u.connect(('127.0.0.1',s.port)); return u
    def ask(s,q,timeout=2,sock=None):
        u=sock or s.sock(); u.settimeout(timeout); u.send(q)
        try: return u.recv(65535)
        except (socket.timeout,ConnectionError): return None
    def ask_tcp(s,q,timeout=2):
        c=socket.create_connection(('127.0.0.1',s.port),timeout); c.settimeout(timeout)
        try:
            c.sendall(struct.pack('>H',len(q))+q); l=rx(c,2); return rx(c,struct.unpack('>H',l)[0])
        except Exception: return None
        finally: c.close()
