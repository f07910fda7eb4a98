"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json, os, sys
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[]
TESTS='the 15 tests start the program and send a few dozen well-formed messages'
def prop(id,title,statement,over,text,why,files,mech,technique='',note='',na=None,level='other',observe=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if observe: a['observe_at']=observe
    P.append(dict(j={'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a},technique=technique,note=note,na=na,level=level))

PS='static analysis: path-sensitive interprocedural typestate dataflow over LLVM SSA'
prop('P01','Disabled types and domains are refused and never answered or forwarded',
 'A query whose type or name matches the configured disabled types or disabled domains is always answered at once with a refusal, a reply without records. It is never looked up in hosts or cache and never sent upstream, and every query passes this check before anything else is done with it.',
 ['inputs','configurations'],'every query received on either front end, every set of disabled types and domains',
 'a test samples a few names; the claim is about every path from reception to forwarding',
 ['filter.c','mmgr.c','udpfrontend.c','tcpfrontend.c'],[('refusal filter','filter.c:Filter_Out'),('query entry','mmgr.c:MMgr_Send')],
 PS+' from each receiving thread; lookup outcome split per path','every path of the receiving threads, all call depths that reach the events; loops to fixpoint')
prop('P02','Answer sources are consulted in order and each query gets one outcome',
 'A query not refused is answered from the fixed hosts, else the reloadable hosts, else the cache, else it is sent to exactly one upstream group, in this order; an excluded name skips both hosts sources. A query answered or handed over by an earlier source is neither answered again nor forwarded. The hosts refuse a query just when that is configured for IPv6 queries of names with IPv4 entries, or when its aliases have no end.',
 ['inputs','configurations','fault_sequences'],'every query, every combination of hit, miss and send failure in each source',
 'tests exercise hits one source at a time and never a send failure',
 ['mmgr.c','hosts.c','statichosts.c','dynamichosts.c','hostsutils.c','dnscache.c'],[('source order','mmgr.c:MMgr_Send, hosts.c:Hosts_Try'),('cache lookup','dnscache.c:DNSCache_FetchFromCache')],
 PS+'; effect ordering and at-most-one-outcome automaton','all paths; the outcome of each source is split into hit/miss/failure')
prop('P03','Answers with blocked addresses, negatives or missing EDNS are dropped',
 'An upstream answer is screened before it is matched, cached or returned: one holding a blocked address, a negative one when negatives are blocked, or one without EDNS when that check is enabled is dropped entirely, and addresses with a configured substitute are replaced. Every address record of the answer section is looked at, an address range covers what its written length says, and answers for which none of this applies are not dropped by the screening.',
 ['inputs','configurations'],'every upstream answer over UDP or TCP and every screening configuration',
 'needs every combination of record layout, response code and configuration',
 ['ipmisc.c','udpm.c','tcpm.c','mcontext.c','ipchunk.c'],[('screening','ipmisc.c:IPMiscMapping_Process'),('EDNS check','mcontext.c:MsgContext_IsBlocked')],
 PS+'; record-iteration typestate and decision table of the EDNS check','all paths of both answer threads and of the screening')
prop('P04','An answer goes only to the client whose pending query it matches, once',
 'Nothing received from upstream is sent to a client unless its identifier and name match a pending query; the reply then carries that query\'s client address and identifier, with the length of the received answer, and the pending entry is removed so that it is answered at most once. An answer matching no pending query is not stored as a matched one.',
 ['inputs','schedules','histories'],'every message from upstream, every history of pending queries',
 'tests never send unsolicited, late or duplicated answers',
 ['mcontext.c','udpm.c','tcpm.c','hosts.c'],[('pending table','mcontext.c:ModuleContext_GenAnswerHeaderAndRemove'),('identity','mcontext.c comparator given to Bst_Init')],
 PS+'; comparator analysed for what equality implies','all paths of all three threads that answer pending queries')
exec(open(os.path.join(ROOT,'tools','props_more.py')).read()) if os.path.exists(os.path.join(ROOT,'tools','props_more.py')) else None

def main():
    sys.path.insert(0,ROOT)
    from sa.rules import RULES
    with open(ROOT+'/properties.jsonl','w') as f:
        for p in P: f.write(json.dumps(p['j'])+'\n')
    checks=[]; na=[]
    for p in P:
        i=p['j']['id']
        if p['na']: na.append({'property':i,'reason':p['na']})
        elif i in RULES:
            checks.append({'property':i,'quick_cmd':'python3 check.py %s'%i,'thorough_cmd':'python3 check.py %s --thorough'%i,'technique':p['technique'],'level':p['level'],'level_note':p['note']})
        else: na.append({'property':i,'reason':'check not finished'}); print('no rule for',i)
    m={'version':1,'setup_cmd':'python3 -c "import sys; sys.exit(0)"','checks':checks,'not_applicable':na,
       'notes':'Every check compiles the current tree of /repo to LLVM SSA outside /repo (clang -O0 + mem2reg), and decides the property on that form; nothing of dnsforwarder is executed.'}
    json.dump(m,open(ROOT+'/MANIFEST.json','w'),indent=1)
    ids=[p['j']['id'] for p in P]; assert len(ids)==len(set(ids))
    for p in P: assert len(p['j']['title'])<=80,(p['j']['id'],len(p['j']['title']))
    for r in RULES:
        if r not in ids: print('rule without property',r)
if __name__=='__main__': main()
