import sys, random, collections, json
import os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from copy import deepcopy
from sim.gen import Gen
from sim.history import HistGen, Live, setup, track
from sim.procs import fork_json
from sim.seam import SEAM
from sim.ref import Ref
def run(seed):
    rng=random.Random(seed)
    gen=Gen(rng).build(); world=deepcopy(gen.world); hist=HistGen(rng,gen)
    ops=[]
    for _ in range(rng.choice((0,2,4,8))):
        op=hist.op(); track(gen,op); ops.append(op)
    qs=[gen.query() for _ in range(12)]
    SEAM.reset(); setup()
    try: live=Live(world)
    except Exception as e: return ['unb']
    for op in ops: live.apply(op)
    ref=Ref(live.world); out=[]
    for q in qs:
        r=live.q.run(q)
        c=ref.check(q,r)
        s=live.world['objs'].get(q[1] if not isinstance(q[1],list) else q[1][0])
        out.append([q,c,r,s['cls'] if 'cls' in s else s['t'],world['kind']])
    return out
cnt=collections.Counter(); bad=collections.defaultdict(list)
a,b=int(sys.argv[1]),int(sys.argv[2])
for seed in range(a,b):
    st,r=fork_json(lambda: run(seed),60)
    if st!='ok': print(seed,st,str(r)[-600:]); continue
    if r==['unb']: cnt['unb']+=1; continue
    for q,c,o,cls,kind in r:
        cnt[q[0],c if c in('ok','undefined') else 'BAD']+=1
        if c not in('ok','undefined'): bad[q[0],cls].append((seed,kind,q,c[:300]))
for k in sorted(cnt,key=str): print(k,cnt[k])
for k,v in bad.items(): print(k,len(v),v[:2])
