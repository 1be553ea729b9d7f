"""Shows, without differt2d, that JAX 0.5.2 compiling in several threads at once can fail, crash or return wrong values (see C24 in DESIGN.md): python tools/jax_compile_race.py SECONDS"""
import sys, threading, time, random
import jax, jax.numpy as jnp, equinox as eqx
sys.setswitchinterval(1e-5)
class P(eqx.Module):
    xys: jax.Array
    @eqx.filter_jit
    def f(self, objs, approx=None, **kw):
        time.sleep(random.random()*0.002)
        t=self.xys.sum()
        for o in objs: t=t+self.g(o.xys)*o.xys.mean()
        return t
    @eqx.filter_jit
    def g(self, x):
        time.sleep(random.random()*0.002)
        return (self.xys**2).sum()*x.max()
bad=0
def expected(n,k,m):
    import numpy as np
    p=np.arange(2*n,dtype=float).reshape(n,2)+m
    t=p.sum()
    for i in range(k):
        o=np.ones((2,2))*i+np.arange(4).reshape(2,2)
        t+=(p**2).sum()*o.max()*o.mean()
    return t
def work(i):
    global bad
    rng=random.Random(i+time.time())
    bar.wait()
    order=[(n,k) for n in (2,3,4) for k in (0,1,2,3)]
    rng.shuffle(order)
    for n,k in order:
        for m in (0,1):
            try:
                r=float(P(jnp.arange(2.0*n).reshape(n,2)+m).f([P(jnp.ones((2,2))*i+jnp.arange(4.).reshape(2,2)) for i in range(k)],approx=bool(m)))
                if abs(r-expected(n,k,m))>1e-6*abs(r)+1e-6: bad+=1; print('WRONG',n,k,m,r,expected(n,k,m))
            except Exception as e:
                bad+=1; print(type(e),str(e)[:200])
t0=time.time();rounds=0
while time.time()-t0<float(sys.argv[1]):
    jax.clear_caches(); rounds+=1
    bar=threading.Barrier(6)
    ts=[threading.Thread(target=work,args=(i,)) for i in range(6)]
    [t.start() for t in ts];[t.join() for t in ts]
print('rounds',rounds,'bad',bad)
