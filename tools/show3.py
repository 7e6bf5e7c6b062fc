import sys,os
sys.path.insert(0,'/verif/lib')
os.environ['GEMVERIF_BOOTED']='1'
from boot import boot
g=boot()
import json,re
src=open('/verif/checks/c03.py').read().split('\nmain("C03"')[0].replace('__file__','"/verif/checks/c03.py"').replace('gemlog = boot()','')
import gemlog
exec(src)
d=json.load(open('/verif/replays/C03-mutate.json'))
F=rawgen.build(d['case']['spec'])[0]
raw=mutate([l.encode() for l in F.header+F.lines], d['case']['muts'])
print(d['case']['muts'], d['message'])
for l in raw.split(b'\n')[-40:]: print(l)
open('/tmp/x.059','wb').write(raw)
try:
    L=core._read_single('/tmp/x.059',0,require_gps=False,version=F.version)
    print(L['data'][:5],L['metadata'],L['gps'])
except Exception as e: print(repr(e))
