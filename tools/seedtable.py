#!/usr/bin/env python3
# seedtable.py LOG: rewrites the table of planted changes in DESIGN.md from the
# log of a run of the quick checks against them.
import json,os,re,sys
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res={}
for l in open(sys.argv[1],errors='replace'):
    m=re.match(r'(\S+): (C\d\d) (?:rc=\d )?(CAUGHT|MISSED)',l)
    if m: res.setdefault(m[1],{})[m[2]]=m[3]
rows=['| change | what it needs to show | caught by |','|---|---|---|']
for i in sorted(os.listdir(root+'/seeded')):
    m=json.load(open(f'{root}/seeded/{i}/meta.json'))
    c=[k for k,v in res.get(i,{}).items() if v=='CAUGHT']
    rows.append(f"| {i} | {m['needs'].replace('|','/').strip()} | {', '.join(c) or 'missed'} |")
p=root+'/DESIGN.md'; s=open(p).read()
t='<!-- seeds -->\n'+'\n'.join(rows)+'\n<!-- /seeds -->'
if 'SEEDTABLE' in s: s=s.replace('SEEDTABLE',t)
else: s=re.sub(r'<!-- seeds -->.*<!-- /seeds -->',lambda _:t,s,flags=re.S)
open(p,'w').write(s)
