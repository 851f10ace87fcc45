import sys, os, time
sys.path.insert(0, '/verif'); sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
os.environ.setdefault('PYTHONDONTWRITEBYTECODE','1'); sys.dont_write_bytecode=True
import rt.all
from rt.core import explore, REGISTRY
seed=int(os.environ.get('VERIF_SEED','1'))
for p in (sys.argv[1].split(',') if len(sys.argv)>1 else sorted(REGISTRY)):
    t=time.time(); st,f=explore(p,seed,float(os.environ.get('B','10')),int(os.environ.get('N','400')),stop_on=int(os.environ.get('STOP','5')))
    print(p, round(time.time()-t,1),'s',{k:v for k,v in st.items() if k!='samples'})
    for x in f[:int(os.environ.get('SHOW','5'))]: print('   FAIL',x['gen'],x['index'],x['kind'],x['msg'][:600]); 
    if f and os.environ.get('V'): print(f[0]['notes'])
