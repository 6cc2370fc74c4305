import json,re,os
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
M=json.load(open('/verif/MANIFEST.json'))
rows=["| id | property | harnesses (all: CBMC symbolic execution + SAT) | bounds |","|---|---|---|---|"]
H={}
for f in sorted(os.listdir('/verif/harness')):
    if not f.endswith('.c'): continue
    cur=[]
    for l in open('/verif/harness/'+f):
        m=re.match(r'//@ property (.*)',l)
        if m: cur=m.group(1).split()
        m=re.match(r'//@ harness (\S+)(.*)',l)
        if m:
            pm=re.search(r'property=(\S+)',m.group(2))
            ids=pm.group(1).split(',') if pm else cur
            for i in ids: H.setdefault(i,{}).setdefault(f[:-2],[]).append(m.group(1))
g=open('/verif/vp/props.def').read()
ns={'P':[]}
b={}
def prop(id,title,st,kinds,over,why,files,anch,bounds): b[id]=bounds
exec(g,{'prop':prop,'SYM':'','NA':[], **{}} )
for p in P:
    i=p['id']
    hs='; '.join('%s.c: %s'%(f,', '.join(n)) for f,n in H.get(i,{}).items())
    rows.append('| %s | %s | %s | %s |'%(i,p['title'],hs,b.get(i,'')))
srows=["| seed | property | needs | caught by |","|---|---|---|---|"]
for s in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%s))
    srows.append('| %s | %s | %s | %s quick |'%(s,m['property'],m['needs'],m['property']))
t=open('/verif/DESIGN.md').read()
def sub(t,name,rows):
    blk='<!-- %s -->\n%s\n<!-- end %s -->'%(name,'\n'.join(rows),name)
    if '<!-- %s -->'%name in t:
        a=t.index('<!-- %s -->'%name); z=t.index('<!-- end %s -->'%name)+len('<!-- end %s -->'%name)
        return t[:a]+blk+t[z:]
    assert name in t
    return t.replace(name,blk)
t=sub(t,'PROPERTIES_TABLE',rows); t=sub(t,'SEEDED_TABLE',srows)
open('/verif/DESIGN.md','w').write(t)
