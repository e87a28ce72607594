#!/usr/bin/env python3
"""DESIGN.md from tools/design/{head,tail}.md, the checks' own descriptions (last evidence), planted bugs and findings."""
import json, os, glob
R='/verif/'; ld=lambda p: json.load(open(R+p))
props=[json.loads(l) for l in open(R+'properties.jsonl') if l.strip()]; levels=ld('tools/levels.json')
find=[json.loads(l) for l in open(R+'known_findings.jsonl') if l.strip()]
seeds={os.path.basename(os.path.dirname(p)): json.load(open(p)) for p in sorted(glob.glob(R+'seeded/*/meta.json')+glob.glob(R+'planted/*/meta.json'),key=lambda p: p.split('/')[-2])}
caught=ld('tools/design/caught.json') if os.path.exists(R+'tools/design/caught.json') else {}
# a run that found something (a planted bug) covers only part: the line of the last complete run stays
OLD={}
if os.path.exists(R+'DESIGN.md'):
    cur=None
    for l in open(R+'DESIGN.md'):
        if l.startswith('### C'): cur=l.split()[1]
        elif l.startswith('Spaces: ') and cur: OLD[cur]=l
o=open(R+'tools/design/head.md').read()+'\n## The properties\n\nExecutions, states and seconds are those of a quick run on this machine (8 cores, idle).\n'
for p in props:
    i=p['id']; o+='\n### %s %s\n\n'%(i,p['title'])
    if i not in levels: o+='Not claimed: see MANIFEST.json.\n'; continue
    l=levels[i]; o+='*%s* (%s). %s\n\n'%(l['technique'],l['level'],l['note'])
    try: e=ld('evidence/%s.json'%i)
    except FileNotFoundError: continue
    o+='Enumerated and checked: '+e['coverage'].get('rule','')+'\n\n'
    a=e.get('assumptions') or e['coverage'].get('assumptions') or []
    if a: o+='Assumes: '+'; '.join(a)+'.\n\n'
    if e.get('violations') and i in OLD: o+=OLD[i]
    else: o+='Spaces: '+'; '.join('`%s` %s executions%s, %d s'%(s['name'],format(s['executions'],','),', %s states'%format(s['states'],',') if s['states'] else '',round(s['wall_s'])) for s in e['coverage']['spaces'])+'.\n'
    f=[x for x in find if x['property']==i]
    if f: o+='\nFound: '+'; '.join((x['what'].split(' ',3)[3]+' (repaired in %s)'%x['commit']) if x['status']=='fixed' else x['what']+' (known finding)' for x in f)+'.\n'
    s=[k for k,m in seeds.items() if m['property']==i]
    if s: o+='\nPlanted: '+', '.join(s)+'.\n'
o+='\n## Planted bugs\n\nAll compile, pass the stable tests, and have a demonstration that fails with them only.  Those in planted/ have the same form as those in\nseeded/ and are kept apart so that a full vcheck stays within an hour.\n\n| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n'
for k,m in seeds.items(): o+='| %s | %s | %s | %s | %s |\n'%(k,m['property'],m['what_it_breaks'],m['needs'],caught.get(k,m['property']))
o+='\n## Findings\n\n%d genuine defects were found on the original tree; %d are repaired by `fix:` commits in /repo, %d recorded as known (known_findings.jsonl). They are listed with their properties above.\n'%(len(find),sum(x['status']=='fixed' for x in find),sum(x['status']!='fixed' for x in find))
o+=open(R+'tools/design/tail.md').read()
open(R+'DESIGN.md','w').write(o)
