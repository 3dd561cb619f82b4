#!/bin/bash
# try.sh PROP N [SEED]: batch with all violations, grouped
rm -rf /tmp/try.$1; SIM_KEEP_GOING=1 $(dirname $0)/../build/sim batch $1 ${3:-1} $2 8 ${CAP:-120} /tmp/try.$1
python3 - $1 <<'P'
import json,glob,collections,sys
c=collections.Counter();p=collections.Counter();fc=collections.Counter();n=0;sh=set();steps=0
d0='/tmp/try.'+sys.argv[1]
for f in glob.glob(d0+'/w*.jsonl'):
    for l in open(f):
        d=json.loads(l); c[d['st']]+=1; n+=1
        if d['st']:
            sh.add(d['h']); steps+=d['steps']
            for e in d['p'].split(';'):
                if e: p[e.split('=')[0]]+=1
            for k,v in d['f'].items(): fc[k]+=v
        else: print(l)
print(sys.argv[1],dict(c),'distinct',len(sh),'steps/run',steps//max(n,1),dict(p),dict(fc))
g=collections.defaultdict(list)
import re
for f in glob.glob(d0+'/viol*'):
    t=open(f,errors='replace').read().split('\n'); cls=[x for x in t if x.startswith('class ')][0]; m=[x for x in t if x.startswith('message ')][0]
    g[cls+' :: '+re.sub(r'\d+','N',m)[:230]].append(f)
for k,v in sorted(g.items(),key=lambda x:-len(x[1]))[:12]: print(len(v),k,v[0])
P
