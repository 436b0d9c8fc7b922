#!/usr/bin/env python3
"""Pretty-print one event of a trace: show.py TRACE INDEX"""
import json, sys
def V(v):
    t=v['t']; x=v['s'] if v['s']!='' else v['n']
    if t=='str': return json.dumps(v['s'], ensure_ascii=False)
    return f"{x}" if t in('long','kw') else f"#{t} {x}"
def A(a): 
    k=a['kw'] or str(a['n'])
    return k.replace('/','/_') if a['rev'] else k
def P(p):
    k=p['k']
    if k=='val': return V(p['v'])
    if k=='ent': return 'E:'+V(p['v'])
    if k=='lu': return f"(lookup-ref {A(p['a'])} {V(p['v'])})"
    if k=='tx': return '(transaction-tx)'
    if k=='vec': return '['+' '.join(P(x) for x in p['xs'])+']'
    if k=='none': return '_'
    if k=='map': return '{'+P(p['id'])+': '+', '.join(A(x['a'])+' '+P(x['v']) for x in p['kvs'])+'}'
    return str(p)
def T(t):
    if t['k']=='map': return P(t)
    return f"[{t['k']} {P(t['e'])} {A(t['a'])} {P(t['v'])}]"
L=[json.loads(x) for x in open(sys.argv[1])]
n=int(sys.argv[2]); e=L[n]
j=n
while L[j]['op']['k']!='reset': j-=1
facts={}
sch=ids=None; parts=None
for x in L[j:n]:
    for f in x['d']['fm']: facts.pop(json.dumps(f),None)
    for f in x['d']['fp']: facts[json.dumps(f)]=f
    if x['m']['sch']: sch=x['m']['sch'][0]
    if x['m']['ids']: ids=x['m']['ids'][0]
    parts=x['m']['parts']
name={y:k for k,y in (ids or [])}
print("op", e['op']['k'], e['op'].get('via',''), {k:v for k,v in e['op'].items() if k not in('terms','k','via')})
for t in e['op'].get('terms',[]): print("   ",T(t))
r={k:v for k,v in e['r'].items() if k not in('imgs',)}
print("result", json.dumps(r)[:600])
for g in e['r'].get('imgs',[]): print("  img", {k:(len(v) if isinstance(v,list) else v) for k,v in g.items()})
print("parts before", parts, "after", e['m']['parts'], "ip", e['ip'])
def F(f): return f"[{f[0]} {name.get(f[1],f[1])} {V(f[2])} {f[3]}]"
for f in e['d']['fm']: print("  -",F(f))
for f in e['d']['fp']: print("  +",F(f))
used=set()
def walk(p):
    if isinstance(p,dict):
        if 'kw' in p and 'rev' in p: used.add(dict(map(tuple,ids or [])).get(p['kw'],p['n']))
        for v in p.values(): walk(v)
    elif isinstance(p,list):
        for v in p: walk(v)
walk(e['op'])
for s in sch or []:
    if s['e'] in used and s['e']>40: print("  attr", name.get(s['e']), s)
if '-f' in sys.argv:
    for f in facts.values():
        if f[1]>40 or f[0]>40 and f[0]<200000000: print("   fact",F(f))
else:
    for f in facts.values():
        if f[1] in used and f[1]>40: print("   fact",F(f))
if '-d' in sys.argv: print(json.dumps(e['d'])[:3000]); print(json.dumps(e['m'])[:3000])
