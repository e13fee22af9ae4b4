# puts the table of planted bugs into DESIGN.md
import json,os
d='/verif/seeded'
t=[]
for b in sorted(os.listdir(d)):
    m=json.load(open(f'{d}/{b}/meta.json')); t.append(f"* `{b}` — {m['property']}: {m['needs'].strip().rstrip('.')}")
s=open('/verif/DESIGN.md').read()
open('/verif/DESIGN.md','w').write(s.replace('MATRIX\n','\n'.join(t)+'\n'))
