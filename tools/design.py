#!/usr/bin/env python3
"""Regenerates DESIGN.md: head, one section per property (rules from the evidence of the last run), seeds, findings."""
import json,os,glob,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ev=sys.argv[1] if len(sys.argv)>1 else V+'/evidence'
out=[open(V+'/tools/design_head.md').read()]
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
man=json.load(open(V+'/MANIFEST.json'))
chk={c['property']:c for c in man.get('checks',[])}
na={n['property']:n for n in man.get('not_applicable',[])}
seeds={}
for m in sorted(glob.glob(V+'/seeded/*/meta.json')):
    d=json.load(open(m)); seeds.setdefault(d['property'],[]).append((os.path.basename(os.path.dirname(m)),d))
out.append('## The properties\n\nPer property: the method, each rule as it is applied, and what is outside its reach. Obligations and paths are those of the run this file was generated from. Every quick check takes between one second and half a minute.\n')
tot=0
for p in props:
    i=p['id']; out.append(f"### {i} {p['title']}\n\n{p['statement']}\n")
    if i in na:
        out.append('*Not applicable:* '+na[i]['reason']+'\n'); continue
    c=chk[i]
    out.append('*Method:* '+c.get('technique','')+'.\n')
    try: e=json.load(open(f'{ev}/{i}.json'))['coverage']
    except Exception: e={}
    for r,d in sorted(e.get('rules',{}).items()):
        out.append(f"- `{r}` ({d['obligations']} obligations): {d['rule']}")
    if e:
        out.append(f"\nAnalysed: {e.get('functions_walked') or e.get('source_functions')} functions, {e.get('paths')} paths.")
    why=p.get('why_tests_cant') or ''
    if why: out.append('Why tests cannot settle it: '+why)
    n=c.get('level_note') or ''
    if n: out.append('Limits: '+n)
    if i in seeds: out.append('Planted bugs: '+', '.join(s for s,_ in seeds[i])+'.')
    out.append('')
out.append('## Planted bugs (`seeded/`)\n\nEach compiles, passes the existing tests and has a demonstration; all listed are caught by the check of the property they break.\n\n| id | property | needs |\n|---|---|---|')
for i in sorted(seeds):
    for s,d in seeds[i]:
        out.append(f"| {s} | {i} | {d['needs']} |")
tail=V+'/tools/design_tail.md'
if os.path.exists(tail): out.append('\n'+open(tail).read())
out.append('\n## Genuine defects found\n\n`known-findings.txt` lists them: "fixed" entries are repaired in /repo by the named commit and suppress nothing; "known" entries are reported as KNOWN-FINDING.\n')
for l in open(V+'/known-findings.txt'):
    l=l.strip()
    if l and not l.startswith('#'): out.append('- '+l)
open(V+'/DESIGN.md','w').write('\n'.join(out)+'\n')
