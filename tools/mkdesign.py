#!/usr/bin/env python3
"""DESIGN.md from tools/design.in.md, the plan and known_findings.txt"""
import json,re
exec(open('/verif/tools/plan_extra.py').read())
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
man=json.load(open('/verif/MANIFEST.json'))
plan=open('/verif/mc/src/plan.rs').read()
NOTES=json.load(open('/verif/tools/notes.json'))
t='## Property by property\n\n'
for p in props:
    i=p['id']; t+=f"**{i} {p['title']}.** {NOTES.get(i,'')}"
    m=re.search(r'id: "%s", fams: &\[(.*?)\n    \]'%i,plan,re.S)
    if m:
        fs=re.findall(r'\("([^"]+)", \((\d+), (\d+)\), \((\d+), (\d+)\)\)',m[1])
        t+=' Spaces (quick -> thorough, depth/deviations or size): '+', '.join(f'{f} {a}/{b} -> {c}/{d}' for f,a,b,c,d in fs)+'.'
    else: t+=' Not claimed: '+NA.get(i,'no check yet')+'.'
    t+='\n\n'
s=open('/verif/tools/design.in.md').read().replace('@@TABLE@@',t)
k=[l for l in open('/verif/known_findings.txt') if l.startswith(('fixed:','finding:'))]
fx=''
for l in k:
    if l.startswith('fixed:'):
        m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l); fx+=f'* {m[1]} `{m[2]}`: {m[3]}\n'
fs=[l for l in k if l.startswith('finding:')]
if fs:
    fx+='\n## Known findings (not repaired)\n\n'+''.join('* '+' | '.join(l[9:].strip().split('\t'))+'\n' for l in fs)
s=s.replace('@@FIXED@@',fx)
r=''
try: r=open('/verif/tools/seeds.md').read()
except Exception: pass
s=s.replace('@@REST@@',r)
open('/verif/DESIGN.md','w').write(s)
