import json,os,glob,re
p='/verif/DESIGN.md';s=open(p).read()
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json'));rows.append(f"| `{d.split('/')[-2]}` | {m['property']} | {m['what_it_breaks'].split(';')[0]} |")
t="<!-- seeds -->\nEach is caught by the check of the property it was written for (the middle column; confirmed by `vcheck`, which runs that check with the patch\napplied). A change inside a fork's own function is also reported by the properties whose obligations reach it, and, where a generated copy of the\nfunction exists under `<fork>/spec`, by G01 as a disagreement between the source and its copy.\n\n| change | caught by | what it breaks |\n|---|---|---|\n"+"\n".join(rows)+"\n<!-- /seeds -->"
s=re.sub(r"<!-- seeds -->.*<!-- /seeds -->",lambda _:t,s,flags=re.S)
open(p,'w').write(s)
