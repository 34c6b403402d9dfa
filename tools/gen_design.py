#!/usr/bin/env python3
"""Put DESIGN.md together."""
import re,json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd=lambda p: open(f'{V}/{p}').read()
props=[json.loads(l) for l in rd('properties.jsonl').splitlines() if l.strip()]
text=dict(re.findall(r'## (C\d\d)\n(.*?)(?=\n## |\Z)',rd('tools/design_props.md'),re.S))
out=[]
for p in props:
    i=p['id']; s=rd(f'mc/src/bin/{i.lower()}.rs')
    lvl='fault enumeration' if 'Level::FaultEnumeration' in s else 'model checking'
    out.append(f"### {i} {p['title']}\n\nExhaustive exploration of the real code ({lvl}). {text[i].strip()}\n")
    for m in re.finditer(r'c\.scenario\(\s*(&format!\(|)"([^"]+)",\s*(?:\)|)\s*(?:&format!\(\s*|)"((?:[^"\\]|\\.|\\\n)*)"',s):
        out.append(f"* `{m.group(2)}`: "+re.sub(r'\\\n\s*','',m.group(3)).replace('\\\\','\\').replace('\\"','"'))
    for m in re.finditer(r'c\.assume\(\s*"((?:[^"\\]|\\.|\\\n)*)"',s):
        out.append('* assumption: '+re.sub(r'\\\n\s*','',m.group(1)))
    out.append('')
find=[]
for l in rd('known_findings.txt').splitlines():
    if l.startswith(('fixed:','open:')): find.append('* '+l)
res=json.loads(rd('tools/seeded_results.json')) if os.path.exists(f'{V}/tools/seeded_results.json') else {}
tab=['| planted bug | needs | reported by | |','|---|---|---|---|']
for b,r in sorted(res.items()):
    f=f'seeded/{b}/meta.json'
    needs=r.get('needs','')
    if os.path.exists(f'{V}/{f}'): needs=json.loads(rd(f))['needs']
    tab.append(f"| {b} | {needs} | {', '.join(r['by']) or 'none'} | {'first missed' if r.get('first_missed') else ''} |")
mut=rd('tools/mutation.md').strip() if os.path.exists(f'{V}/tools/mutation.md') else ''
d=rd('tools/design_src.md').replace('{{PROPERTIES}}','\n'.join(out)).replace('{{FINDINGS}}','\n'.join(find)).replace('{{SEEDED}}','\n'.join(tab)).replace('{{MUTATION}}',mut)
open(f'{V}/DESIGN.md','w').write(d)
