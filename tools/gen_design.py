import json, ast, glob, os, subprocess
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
subs={}
for f in sorted(glob.glob('/verif/harness/checks/c[0-9]*.py')):
  cid='C'+os.path.basename(f)[1:3]; subs[cid]=[]
  for n in ast.walk(ast.parse(open(f).read())):
    if isinstance(n,ast.Call) and getattr(n.func,'id','')=='sub':
      kw={k.arg:k.value for k in n.keywords}
      subs[cid].append((ast.literal_eval(n.args[0]), ast.literal_eval(kw['rule']), ast.unparse(kw['quick']), ast.unparse(kw['thorough'])))
text=open('/verif/tools/design_parts.md').read()
head, rest = text.split('\n%%%PROPS\n')
parts, tail = rest.split('\n%%%TAIL\n')
pp={}
for b in parts.split('\n## ')[0:]:
  b=b.strip()
  if not b: continue
  b=b[3:] if b.startswith('## ') else b
  k,_,v=b.partition('\n'); pp[k.strip()]=v.strip()
out=[head.rstrip(),'']
for p in props:
  i=p['id']
  out+=['### %s %s'%(i,p['title']),'',pp.get(i,'(missing)'),'','Sub-checks (cases quick / thorough):','']
  for n,r,q,t in subs[i]: out.append('* `%s` (%s / %s): %s.'%(n,q,t,r.rstrip('.')))
  out.append('')
k=json.load(open('/verif/known_findings.json'))['findings']
out+=['## Genuine defects found','','Recorded, not repaired (each prints a KNOWN-FINDING line):','']
for e in k:
  if e['status']=='known': out.append('* %s `%s` (%s): %s'%(e['property'],e['ident'],e['sub'],e['what']))
out+=['','Repaired (one `fix:` commit each in /repo):','']
for e in k:
  if e['status']=='fixed': out.append('* %s %s: %s'%(e['property'],e['commit'],e['what']))
out+=['',tail.strip(),'']
res='/verif/tools/seeded_results.json'
if os.path.exists(res):
  R=json.load(open(res))
  out+=['| planted change | property | needs | caught by |','|---|---|---|---|']
  for d in sorted(glob.glob('/verif/seeded/*')):
    i=os.path.basename(d); m=json.load(open(d+'/meta.json'))
    out.append('| %s | %s | %s | %s |'%(i,m['property'],m['needs'],R.get(i,'?')))
  out.append('')
open('/verif/DESIGN.md','w').write('\n'.join(out))
