import json,sys
e=json.load(open(__import__('os').environ.get('V','/verif')+'/evidence/%s.json'%sys.argv[1]))
for r in sorted(e['coverage']['per_harness'],key=lambda r:-(r['wall'] or 0))[:int(sys.argv[2]) if len(sys.argv)>2 else 8]: print(r['wall'],r['name'],r['discharged'],r['obligations'],r['paths'])
