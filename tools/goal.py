import json,sys
d=json.load(open('/verif/evidence/replay/%s.json'%sys.argv[1]))
k=int(sys.argv[2]) if len(sys.argv)>2 else 0
o=d['failed_obligations'][k]
import re
v=json.dumps(o['verifier_output'],ensure_ascii=False)
for a in sys.argv[4:]:
    x,y=a.split('=>'); v=v.replace(x,y)
print(o['contract'],'::',o['obligation']); print(v[:int(sys.argv[3]) if len(sys.argv)>3 else 3000])
