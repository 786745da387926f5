"""rewrites the table of planted bugs in DESIGN.md"""
import json,os,re
rows={}
for d in sorted(os.listdir('seeded')):
    m=json.load(open('seeded/%s/meta.json'%d)); rows.setdefault(m['property'],[]).append(d)
tab='\n'.join('* %s: %s'%(k,', '.join('`%s`'%x for x in v)) for k,v in sorted(rows.items()))
t=open('DESIGN.md').read()
t=re.sub(r'<!-- seeds -->.*<!-- /seeds -->','<!-- seeds -->\n'+tab.replace('\\','')+'\n<!-- /seeds -->',t,flags=re.S)
open('DESIGN.md','w').write(t)
