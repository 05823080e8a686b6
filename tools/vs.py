"""summarise the replay files of one property"""
import json,glob,sys,collections,os
c=collections.OrderedDict()
for f in sorted(glob.glob(os.environ.get('V','/verif')+'/evidence/replay/%s-*.json'%sys.argv[1]),key=os.path.getmtime):
    d=json.load(open(f)); k=(d.get('harness'),d.get('claim'))
    c.setdefault(k,[]).append((f,d))
for k,v in c.items():
    d=v[0][1]
    print(k[0],'|',k[1],'|x%d'%len(v),{q:d[q] for q in d if q in('got','want','lhs','rhs','detail','message','error')} and str({q:d[q] for q in d if q in('got','want','lhs','rhs','detail','message','error')})[:160])
e=json.load(open(os.environ.get('V','/verif')+'/evidence/%s.json'%sys.argv[1]))
