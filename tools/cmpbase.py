import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
st=set(b['stable'])
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in t.items()})
p=set(t.get('passed',t.get('pass',[])))
print('stable not passing:',sorted(st-p))
