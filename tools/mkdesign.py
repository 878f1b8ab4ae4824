#!/usr/bin/env python3
"""Regenerates the per-property part of DESIGN.md (between the markers) from properties.jsonl, tools/claims.py and the
harness sources.  The text around the markers is written by hand."""
import json,glob,re,os
os.chdir('/verif')
exec(open('tools/claims.py').read())
props=[json.loads(l) for l in open('properties.jsonl')]
har={}
for f in sorted(glob.glob('harness/**/*.go',recursive=True)):
    s=open(f).read()
    for m in re.finditer(r'((?://[^\n]*\n)+)func (Verif_\w+)\(\)',s):
        doc,name=m.groups()
        ids=[i for l in re.findall(r'//verif:id ([^\n]*)',doc) for i in l.split()]
        text=' '.join(l[2:].strip() for l in doc.split('\n') if l.startswith('//') and not l.startswith('//verif:')).strip()
        text=re.sub(r'^'+name+r':?\s*','',text)
        q=re.search(r'//verif:q ([^\n]*)',doc); t=re.search(r'//verif:t ([^\n]*)',doc)
        for i in ids: har.setdefault(i,[]).append((name,f[len('harness/'):],text,q.group(1) if q else '',t.group(1) if t else ''))
seeds={}
for f in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(f)); seeds.setdefault(m['property'],[]).append((f.split('/')[1],m['what_it_breaks']))
out=[]
for p in props:
    i=p['id']
    out.append(f"### {i} {p['title']}\n")
    if i in NOT_APPLICABLE:
        out.append(f"Not claimed: {NOT_APPLICABLE[i]}\n"); continue
    out.append(f"Bounds (thorough in parentheses): {CLAIMED[i]}\n")
    for n,f,t,q,tt in har.get(i,[]):
        out.append(f"- `{n}` ({f}): {t} Quick `{q}`"+(f"; thorough `{tt}`." if tt else "; thorough the same."))
    s=seeds.get(i,[])
    if s: out.append("- Planted bugs: "+"; ".join(f"`{a}` ({b})" for a,b in s)+".")
    out.append("")
s=open('DESIGN.md').read()
A,B="<!-- generated: properties -->","<!-- end of generated part -->"
a=s.index(A)+len(A); b=s.index(B)
open('DESIGN.md','w').write(s[:a]+"\n\n"+"\n".join(out)+"\n"+s[b:])
