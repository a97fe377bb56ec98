import os,sys,random
os.environ.setdefault("TORCHDYNAMO_DISABLE","1"); os.environ["OMP_NUM_THREADS"]="1"; os.environ["THSIM_REPO"]="/repo"
sys.path[:0]=["/verif","/repo"]; sys.dont_write_bytecode=True
import warnings; warnings.simplefilter("ignore")
import torch; torch.set_num_threads(1)
import importlib, multiprocessing as mp
prop,n=sys.argv[1],int(sys.argv[2])
from thsim import dworld,search
import props.common as pc
def work(w):
    best=[]
    def cmp(name,got,ref,tol=None,scale=None):
        if ref is None or got is None or ref.numel()==0: return
        t=dworld.tol_for(ref.dtype) if tol is None else tol
        e=(got.to(torch.complex128)-ref.to(torch.complex128)).abs().max().item()
        s=max(ref.abs().max().item(),0 if scale is None else scale,1e-30)
        best.append((e/(t*s),name,cur[0]))
        if len(best)>2000:
            best.sort(reverse=True); del best[20:]
    cur=[0]
    m=importlib.import_module(f"props.{prop.lower()}")
    m.CHECK.prepare()
    pc.compare=cmp
    if hasattr(m,"compare"): m.compare=cmp
    for i in range(w,n,8):
        rs=search.run_seed(prop,1,i); cur[0]=rs
        search.execute(m.CHECK,m.CHECK.sample(random.Random("cfg:"+rs)),rs)
    best.sort(reverse=True); return best[:5]
with mp.get_context("fork").Pool(8) as p:
    r=sorted(sum(p.map(work,range(8)),[]),reverse=True)
    for x in r[:6]: print(x)
