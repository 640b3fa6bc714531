#!/usr/bin/env python3
"""generates mc/src/plan.rs and MANIFEST.json from tools/cost.json (single-core seconds of
family/depth/deviations) and the table below"""
import json,subprocess
LEV=[(1,1),(2,1),(2,2),(3,1),(3,2),(4,1),(4,2),(5,1),(5,2),(6,1)]
D=dict(
 C07="close closing lrcv credit sess link frag",
 C08="close closing frag lrcv link-gated link sess sess-client window outcome early-gated ctl credit wend byh byh-gated waits",
 C09="sess sess-client cross wend closing many-sess",
 C10="link link-gated ctl cross early early-gated closing rgate many-links fend byh byh-gated",
 C11="cross wend fend credit2 closing outcome router2 many-links many-sess byh",
 C12="credit credit-local credit2 early early-gated window outcome cross many wrap-snd huge-snd",
 C13="window window0 wend frag cross wrap-rcv huge-snd",
 C14="frag fend sizes sizes2 sizes3 credit credit2 window outcome wend mms many",
 C15="outcome outcome2 frag cross credit closing many ranges waits",
 C16="rcv rcv2 rgate lrcv rsize router cross many-rcv wrap-rcv",
 C17="rcv rcv2 rsize lrcv rgate lsettle wrap-rcv huge-rcv",
 C18="lsettle rcv rcv2 router rsize cross many-rcv wrap-rcv ranges-rcv",
 C19="router router0 router2",
 C23="sess link credit window outcome rcv rsize lrcv close ctl cross many-links sess-client link-gated huge-rcv huge-snd byh waits ranges-rcv",
 C20="ctl cflow link-gated link cross closing early-gated rgate byh-gated",
)
exec(open('/verif/tools/plan_extra.py').read())
cost=json.load(open('/verif/tools/cost.json'))
def c(f,l):
    d=cost.get(f,{})
    k='%d/%d'%l
    if k in d: return d[k]
    dep,dev=l
    a,b='%d/1'%(dep-1),'%d/1'%(dep-2)
    if dev==1 and a in d and b in d: return d[a]*(d[a]/max(d[b],.02))
    if dev==2 and c(f,(dep,1)) and ('%d/2'%(dep-1)) in d and a in d: return c(f,(dep,1))*d['%d/2'%(dep-1)]/max(d[a],.02)*1.6
    return None
def choose(fs,budget,first):
    cur={f:0 for f in fs}
    for f in fs:
        while LEV[cur[f]] not in [(l) for l in LEV if c(f,l) is not None]: cur[f]+=1
    tot=lambda: sum(c(f,LEV[cur[f]]) for f in fs)
    while True:
        best=None
        for f in fs:
            for j in range(cur[f]+1,len(LEV)):
                k=c(f,LEV[j])
                if k is None: continue
                # a bigger space costs more; equal cost means the family is exhausted
                extra=k-c(f,LEV[cur[f]])
                if k>budget*.5 and fs.index(f)>=first and len(fs)>1: continue
                if best is None or k<best[0]: best=(k,f,j,extra)
                break
        if best is None: return cur,tot()
        k,f,j,extra=best
        if tot()+max(extra,0)>budget: return cur,tot()
        cur[f]=j
o=['''pub static ASSUMPTIONS: &[&str] = &[
    "the in-memory transport of ntex-io (IoTest) and its filter chain deliver bytes in order and unmodified",
    "one endpoint runs on one thread; what varies is the order of inputs against the executor's polls",
    "peers other than in C03, C04, C05, C06 and C22 follow the AMQP 1.0 protocol",
    "bounds: depth, deviations and menu of each scenario as listed under scenarios",
];

pub static PLANS: &[Plan] = &[''']
for p in sorted(set(D)|set(EXTRA)):
    o.append(f'    Plan {{ id: "{p}", fams: &[')
    fs=D.get(p,'').split()
    if fs:
        q,tq=choose(fs,160,2); t,tt=choose(fs,3600,2)
        print(p,'quick %.0f core-s, thorough %.0f core-s'%(tq,tt))
        for f in fs: o.append(f'        ("{f}", {LEV[q[f]]}, {LEV[t[f]]}),')
    for f,q,t in EXTRA.get(p,[]): o.append(f'        ("{f}", {q}, {t}),')
    o.append('    ] },')
o.append('];\n')
open('/verif/mc/src/plan.rs','w').write('\n'.join(o))
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
have=sorted(set(D)|set(EXTRA))
m=dict(version=1,setup_cmd="bash build.sh",checks=[],not_applicable=[],notes="No hooks: everything is driven through the public API of the crate. See DESIGN.md.")
for p in have:
    m['checks'].append(dict(property=p,quick_cmd=f"bash check.sh {p} quick",thorough_cmd=f"bash check.sh {p} thorough",evidence_file=f"evidence/{p}.json",
      technique=TECH.get(p,"stateless model checking of the real endpoint in lock-step with a reference model (exhaustive event and schedule enumeration)"),level="model_checking",
      level_note=NOTE.get(p,"Every sequence of events and timings within the stated depth and number of timing deviations is executed on the real crate and compared with a reference model of the AMQP 1.0 rules. Trusted: the model, the reference codec, the in-memory transport of ntex-io; nothing is claimed beyond the bounds.")))
for p in props:
    if p['id'] not in have: m['not_applicable'].append(dict(property=p['id'],reason=NA.get(p['id'],"no check yet: the enumeration for this property is not built")))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
