"""rebuild DESIGN.md: method section (kept) + tools/design_rest.md with the table of planted bugs"""
import json,glob,os
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json')); i=os.path.basename(d[:-1])
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
t="| planted bug | caught by | what breaks | needs |\n|---|---|---|---|\n"+"\n".join(rows)
s=open('/verif/DESIGN.md').read().split('\n## What is trusted')[0].rstrip()+'\n'
open('/verif/DESIGN.md','w').write(s+open('/verif/tools/design_rest.md').read().replace('SEEDTABLE',t))
