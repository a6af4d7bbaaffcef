MISSED={}
import json,os,sys
p='/verif/DESIGN.md'
s=open(p).read()
rows=["| id | property | change | quick check |","|---|---|---|---|"]
for d in ('seeded','more-seeds'):
    if not os.path.isdir('/verif/'+d): continue
    for i in sorted(os.listdir('/verif/'+d)):
        m=json.load(open(f'/verif/{d}/{i}/meta.json'))
        rows.append(f"| {i}{'' if d=='seeded' else ' (more-seeds)'} | {m['property']} | {m['what_it_breaks']} | {'caught' if i not in MISSED else MISSED[i]} |")
a=s.index('<!-- table -->'); b=s.index('<!-- /table -->')
s=s[:a]+'<!-- table -->\n'+'\n'.join(rows)+'\n'+s[b:]
open(p,'w').write(s)
