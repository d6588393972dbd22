# appends tools/design_tail.md and the table of planted bugs to the head of DESIGN.md
import json,glob,os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
h=open('DESIGN.md').read().split('## What each check specifies')[0].split('\nPlan per property')[0].rstrip()+'\n\n'
caught=json.load(open('tools/caught.json')) if os.path.exists('tools/caught.json') else {}
t='| planted bug | property | needs | reported by |\n|---|---|---|---|\n'
for f in sorted(glob.glob('seeded/*/meta.json')):
    i=f.split('/')[1]; d=json.load(open(f)); t+='| %s | %s | %s | %s |\n'%(i,d['property'],d['needs'].replace('|','/').replace('\n',' '),caught.get(i,'(caught)'))
missed=open('tools/missed.md').read() if os.path.exists('tools/missed.md') else ''
open('DESIGN.md','w').write(h+open('tools/design_tail.md').read()+t+missed)
