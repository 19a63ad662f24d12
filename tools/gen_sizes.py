#!/usr/bin/env python3
"""rewrite the last column of DESIGN.md's table of properties from the evidence of complete quick runs"""
import json,re
p='/verif/DESIGN.md'; ls=open(p).read().split('\n')
k=lambda n: f'{n:,}'.replace(',',' ')
for i,l in enumerate(ls):
    m=re.match(r'\| (C\d\d) \|',l)
    if not m or l.count('|')!=5: continue
    try: e=json.load(open(f'/verif/evidence/{m[1]}.json'))
    except OSError: continue
    c=e['coverage']
    if e.get('tier')!='quick' or e['violations'] or not c['exhaustive']: print('not',m[1]); continue
    t=k(c['evaluations'])+' runs'
    if c.get('schedules'): t=f"{k(c['evaluations'])} configurations, {k(c['schedules'])} schedules, {k(c['states'])} states"
    if c.get('overlay_steps_replayed',0)>c['evaluations']: t+=f", {k(c['overlay_steps_replayed'])} steps"
    f=l.split('|'); f[4]=f" {t} / {e['wall_s']:.0f} s "; ls[i]='|'.join(f)
open(p,'w').write('\n'.join(ls))
