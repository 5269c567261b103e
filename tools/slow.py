import json,sys
for p in sys.argv[1:]:
    e=json.load(open('/verif/evidence/%s.json'%p)); print(p,e['wall_s'])
    for k,v in e['coverage'].items():
        if isinstance(v,list) and v and isinstance(v[0],dict):
            for x in sorted(v,key=lambda x:-x.get('wall_s',0))[:12]: print('  ',x['harness'],x['wall_s'],x['solver_s'])
