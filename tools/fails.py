import json,sys
d=json.load(open('/verif/evidence/replay/%s.json'%sys.argv[1]))
w=int(sys.argv[2]) if len(sys.argv)>2 else 1200
flt=sys.argv[3] if len(sys.argv)>3 else ''
n=int(sys.argv[4]) if len(sys.argv)>4 else 1
k=0
if not d.get('failed_obligations'): print('none'); sys.exit()
for i,o in enumerate(d['failed_obligations']):
    if flt not in o['contract']: continue
    v=o['verifier_output']
    print(i,o['contract'],'::',o['obligation'])
    print('  GOAL',str(v.get('goal',v))[:w])
    print('  PC', ' ; '.join(v.get('path_condition',[]))[:w])
    print('  MODEL', {a:b for a,b in (v.get("model") or {}).items() if '#' not in a and '!' not in a})
    k+=1
    if k>=n: break
