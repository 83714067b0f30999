# run selected units: u.py ID [unit regex]
import sys,os,re,time
sys.path.insert(0,'/verif/vcg'); sys.path.insert(0,'/verif/vcg/units')
os.environ['VCG_DEBUG']='1'
import runner,importlib,solve
pid=sys.argv[1]; rx=sys.argv[2] if len(sys.argv)>2 and sys.argv[2][0]!='-' else '.*'
tier='quick'
m=importlib.import_module('unit_'+pid)
q,_=runner.build_qtx()
asts={k:runner.extract(q,*v) for k,v in m.TUS.items()}
for k,(p,l) in asts.items():
    if p is None: print(l[-3000:])
asts={k:p for k,(p,l) in asts.items()}
us=[u for u in m.UNITS if re.search(rx,u['name'])]
extra={}
if '-b' in sys.argv: us=[u for u in us if u.get('bounded')]; extra=dict(unroll=us[0]['bounded'])
t=time.time()
outs=runner.run_units('unit_'+pid,us,asts,tier,extra)
for o in outs:
    print(o['unit'],'paths',o['paths'],'cover',o['cover'],'obls',len(o['obls']),'%.1fs'%o['time'],o['error'] or '')
    if o.get('tb'): print(o['tb'])
t1=time.time()
fl=runner.solve_all(outs,10)
bad=[o for o in fl if o['status']!='unsat']
print('discharged',len(fl)-len(bad),'/',len(fl),'gen %.1f solve %.1f'%(t1-t,time.time()-t1))
seen=set()
for o in bad:
    k=(o['unit'],o['label'],o['status'])
    print('  ',o['status'],o['unit'],o['label'],'line',o['line'],'' if k not in seen else '(again)')
    if '-m' in sys.argv and k not in seen: print(o['output'][:3000])
    if '-d' in sys.argv and k not in seen and not seen: open('/tmp/w/dump.smt2','w').write(o['text'])
    seen.add(k)
slow=sorted(fl,key=lambda o:-o['time'])[:12]
print('slow:',[(o['label'],round(o['time'],1),o['backend']) for o in slow if o['time']>1])
if '-s' in sys.argv: open('/tmp/w/dump.smt2','w').write(slow[0]['text']); print(slow[0]['label'])
