"""writes section 6 of DESIGN.md (between the markers) from seeded/*/meta.json"""
import json,glob,os
rows=[]
for m in sorted(glob.glob('seeded/*/meta.json')):
    d=json.load(open(m)); i=os.path.basename(os.path.dirname(m))
    rows.append(f"| {i} | {d['property']} | {d['needs']} |")
n=len(rows)
t=["<!-- bugs -->","## 6. Which checks catch which planted bugs","",
f"Each of the {n} planted bugs is caught (exit 1, VIOLATION line) by the quick check of the property it names, at VERIF_SEED=1.","",
"| bug | caught by | needs |","|---|---|---|"]+rows+["<!-- /bugs -->"]
s=open('DESIGN.md').read()
if '@@BUGS@@' in s: s=s.replace('@@BUGS@@','\n'.join(t))
else:
    a=s.index('<!-- bugs -->'); b=s.index('<!-- /bugs -->')+len('<!-- /bugs -->'); s=s[:a]+'\n'.join(t)+s[b:]
open('DESIGN.md','w').write(s)
