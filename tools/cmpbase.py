import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in b.items()}, {k:(len(v) if hasattr(v,'__len__') else v) for k,v in r.items()})
stable=b.get('stable') or b.get('passed') or b.get('pass')
ok=set(r.get('passed') or r.get('pass') or [])
print('missing', [t for t in stable if t not in ok])
