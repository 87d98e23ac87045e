"""a communicator of n simulated tasks (threads): the MPI contract the distributed code relies on"""
import threading, copy
import numpy as np
class World:
    def __init__(self, n): self.n=n; self.bar=threading.Barrier(n,timeout=60); self.box=[None]*n
    def run(self, f):
        res=[None]*self.n; err=[]
        def go(r):
            try: res[r]=f(Comm(self,r))
            except threading.BrokenBarrierError: pass
            except BaseException as e: err.append(e); self.bar.abort()
        ts=[threading.Thread(target=go,args=(r,)) for r in range(self.n)]
        for t in ts: t.start()
        for t in ts: t.join()
        if err: raise err[0]
        return res
class Comm:
    def __init__(self,w,rank): self.w,self.rank,self.size=w,rank,w.n
    def ex(self,x):
        self.w.box[self.rank]=x; self.w.bar.wait(); r=list(self.w.box); self.w.bar.wait(); return r
    def Barrier(self): self.ex(None)
    def allgather(self,x): return [copy.deepcopy(v) for v in self.ex(copy.deepcopy(x))]
    def allreduce(self,x,op=None): v=self.ex(x); return sum(v[1:],v[0])
    def Allgather(self,a,r): r.reshape(-1)[:]=np.concatenate([np.array(v).reshape(-1) for v in self.ex(np.array(a))])
    def Allreduce(self,a,r,op=None): r[...]=sum(self.ex(np.array(a)))
    def Allgatherv(self,a,r): r[0].reshape(-1)[:]=np.concatenate([np.array(v).reshape(-1) for v in self.ex(np.array(a))])
    def Alltoallv(self,s,r):
        all_=self.ex((np.array(s[0]),[np.array(x) for x in s[1]])); rb,(rn,ro)=r[0],r[1]
        for q,(sb,(sn,so)) in enumerate(all_):
            assert sn[self.rank]==rn[q],("size mismatch",sn[self.rank],rn[q])
            rb[ro[q]:ro[q]+rn[q]]=sb[so[self.rank]:so[self.rank]+sn[self.rank]]
