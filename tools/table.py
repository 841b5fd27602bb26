# Rewrites the table of planted bugs at the end of DESIGN.md.
import json,glob
s=open('/verif/DESIGN.md').read()
k=s.index('| bug | property | needs |')
rows=[]
for p in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(p)); rows.append('| %s | %s | %s |'%(p.split('/')[-2],m['property'],m['needs'].replace('|','/').replace('\n',' ').rstrip('.')))
open('/verif/DESIGN.md','w').write(s[:k]+'| bug | property | needs |\n|---|---|---|\n'+'\n'.join(rows)+'\n')
