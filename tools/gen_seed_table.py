"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m=json.load(open(V+'/tools/missed.json'))
open_=json.load(open(V+'/tools/uncaught.json')) if os.path.exists(V+'/tools/uncaught.json') else []
rows=[]
for i in sorted(os.listdir(V+'/seeded')):
    d=json.load(open(f'{V}/seeded/{i}/meta.json'))
    how=('missed' if i in open_ else d['property'])
    rows.append(f"| {i} | {d['needs']} | {how} | {('missed at first: '+m[i]) if i in m else ''} |")
t="| planted change | needs | caught by | strengthened |\n|---|---|---|---|\n"+'\n'.join(rows)+'\n'
p=V+'/DESIGN.md'; s=open(p).read()
a,b='<!-- seeds -->\n','<!-- /seeds -->\n'
s=s[:s.index(a)+len(a)]+t+s[s.index(b):]
open(p,'w').write(s)
for k in m:
    if not os.path.isdir(f'{V}/seeded/{k}'): print('no such seed',k)
