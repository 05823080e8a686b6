"""tools/known.py PID commit... : record fix commits"""
import json,subprocess,sys
p='/verif/known_findings.json'; k=json.load(open(p)); pid=sys.argv[1]
for c in sys.argv[2:]:
    m=subprocess.check_output(['git','-C','/repo','log','-1','--format=%h %s',c],text=True).strip(); h,m=m.split(' ',1)
    if any(f.get('commit')==h for f in k['findings']): continue
    k['findings'].append(dict(property=pid,status='fixed',commit=h,what=f"fixed: property={pid} {h} {m.replace('fix: ','')}"))
json.dump(k,open(p,'w'),indent=1)
