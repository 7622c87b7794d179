import sys,time
sys.path.append('/opt/venv/lib/python3.12/site-packages')
sys.path.insert(0,'/verif'); sys.path.insert(0,'/repo')
from pyver import parsing as P, report
t=time.time()
e=P.ParseEngine()
rs=report.verify_work(e,P.verify,60)
print(time.time()-t,len(rs))
from collections import Counter
print(Counter(r.status for r in rs), sum(len(r.obls) for r in rs))
for r in sorted(rs,key=lambda r:-r.wall)[:12]: print('%5.1f %s'%(r.wall,r.name))
for r in rs:
    if r.status!='proved': print(r.name,r.status,(r.why or '')[:300],[o[0] for o in r.obls if o[1]!='yes'])
