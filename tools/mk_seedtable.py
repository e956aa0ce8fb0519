import json,glob,os,re
V='/verif/'
rows=[]
for d in sorted(glob.glob(V+'seeded/*/')):
    m=json.load(open(d+'meta.json')); rows.append((os.path.basename(d[:-1]),m['needs'],m['what_it_breaks']))
t='''## 5. Planted bugs

Each folder of `seeded/` holds one change that passes the tests, with a demonstration. Each is caught by the check of its own property
(the letters before the dash); most are also caught by others (C01-C07 share the families, C14 and C27 compare everything with a
new simulation).

| id | manifests with | what it breaks |
|---|---|---|
'''
for a,b,c in rows: t+='| %s | %s | %s |\n'%(a,b.replace('|','/').replace('\n',' '),c.replace('|','/').replace('\n',' '))
s=open(V+'DESIGN.md').read()
i=s.find('\n## 5. Planted bugs'); s=(s[:i] if i>=0 else s.rstrip('\n')+'\n')
open(V+'DESIGN.md','w').write(s.rstrip('\n')+'\n\n'+t)
