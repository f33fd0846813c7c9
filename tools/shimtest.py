"""Differential test of the numpy shim against numpy on concrete values (development aid, not a check)."""
import os
import sys

import numpy as np

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import engine as eng  # noqa: E402
from vp import snp  # noqa: E402

eng.set_engine(eng.Engine())
rng = np.random.default_rng(0)
CASES = []
A = "A=np.array([[3.,-1.,2.],[0.5,4.,-2.]]);B=np.array([1,5,2,2,0]);C=np.array([2.,np.nan,-1.,7.]);M=np.array([True,False,True,True,False]);MA=np.ma.array([1.,2.,3.,4.],mask=[0,1,0,0]);MB=np.ma.array([[1.,2.],[3.,4.]],mask=[[0,1],[0,1]]);D=np.array([5.,1.,3.,3.,2.])"
for l in """
np.add(A,1) | np.add(B,B,out=np.zeros(5,int)) | np.add.reduce(A) | np.add.reduce(A,axis=1) | np.add.accumulate(B) | np.multiply.outer(B,B) | np.maximum.accumulate(B) | np.minimum.reduce(B) | np.logical_and.reduce(M) | np.logical_or.reduce([M,~M]) | np.logical_and.reduce([M,M,~M])
np.maximum.reduce([B,B[::-1]]) | np.fmax(C,0) | np.fmin(C,C[::-1]) | np.maximum(C,0.) | np.fmod(np.array([-3.,3.5]),2.) | np.mod(np.array([-3.,3.5]),2.) | np.copysign(D,-1.) | np.reciprocal(D) | np.signbit(A) | np.heaviside(A,0.5) | np.isposinf(np.array([np.inf,1.]))
A.sum((0,1)) | A.sum(axis=0,keepdims=True) | A.sum(keepdims=True) | np.sum(A,where=A>0) | np.min(A,axis=1) | np.max(A,axis=(0,1)) | np.min(A,initial=-10.) | np.mean(A,axis=0) | A.mean(1,keepdims=True) | np.std(A) | np.var(A,axis=0) | np.std(D,ddof=1) | A.argmin(axis=1) | np.argmax(A,axis=0) | M.sum() | np.any(A>3,axis=1) | np.all(A>-3,0)
np.cumsum(A,axis=1) | np.cumsum(A,axis=0) | np.cumsum(A) | np.cumprod(B) | A.cumsum() | M.cumsum() | np.sort(A,axis=0) | np.sort(A) | np.sort(A,axis=None) | np.argsort(A,axis=1) | A.argsort(0) | np.argsort(D,kind="mergesort") | np.argsort(-B,kind="stable")
np.nanmin(C) | np.nanmean(C) | np.nansum(C) | np.nanmax(np.array([[1.,np.nan],[np.nan,2.]]),axis=0) | np.nanargmin(C) | np.nanargmax(C) | np.nanmedian(C) | np.median(D) | np.median(A,axis=0) | np.median(A,axis=1) | np.percentile(D,30) | np.percentile(D,[10,50]) | np.quantile(D,0.25) | np.nanpercentile(C,50) | np.average(D,weights=B) | np.average(A,axis=0) | np.average(A,axis=1,weights=[1,2,1])
np.split(D,[1,3])[1] | np.array_split(D,2)[0] | np.split(B,5)[4] | np.rot90(A) | np.moveaxis(A,0,1) | np.swapaxes(A,0,1) | np.fliplr(A) | np.flipud(A) | np.flip(A) | np.diagonal(A) | np.diag(B) | np.diag(A) | np.roll(B,2) | np.roll(A,1,axis=0) | np.triu(A) | np.tril(A,-1) | np.trace(A) | np.tile(B,2) | np.tile(A,(2,1))
np.atleast_2d(B) | np.atleast_3d(A).shape | np.vstack([B,B]) | np.hstack([A,A]) | np.dstack([A,A]) | np.column_stack([B,D]) | np.column_stack([A,A]) | np.r_[1,B,3:5] | np.c_[B,D] | np.mgrid[0:2,0:3] | np.ogrid[0:2,0:3][0] | np.s_[1:2] | np.outer(B,D) | B@B | A@A.T | np.dot(A,A.T) | np.inner(D,D) | np.cross(A[0],A[1]) | np.cross(A[:,:2],A[:,1:]) | np.trapz(D) | np.gradient(D) | np.convolve(D,[1.,2.]) | np.convolve(D,[1.,0.,-1.],mode="same") | np.convolve(D,[1.,2.,1.],"valid") | np.correlate(D,[1.,2.,3.]) | np.ediff1d(B) | np.ediff1d(B,to_begin=0)
np.diff(A,axis=0) | np.diff(A) | np.diff(D,n=2) | np.diff(B,prepend=0) | np.diff(B,append=9) | np.diff(M) | np.select([D>3,D>2],[1,2],9) | np.choose(np.array([0,1,0]),[np.array([1,2,3]),np.array([4,5,6])]) | np.piecewise(D,[D<2,D>=2],[0,lambda x:x*2]) | np.take(D,[0,-1]) | np.take(A,1,axis=1) | np.take(A,[0,2],axis=1) | D.take(B%3) | np.compress(M,D) | D.compress(M) | np.take_along_axis(A,np.argsort(A,1),1) | np.resize(B,7) | np.pad(B,1) | np.pad(B,(1,2),mode="edge") | np.pad(D,2,"wrap") | np.fromiter((i*i for i in range(4)),dtype=int) | np.ravel_multi_index((np.array([0,1]),np.array([2,0])),(2,3)) | np.unravel_index(4,(2,3)) | np.round(A*1.237,1) | np.round(D) | A.round(1) | np.clip(D,2,3) | D.clip(max=2) | D.clip(2) | np.nan_to_num(C) | np.nan_to_num(C,nan=5.) | np.setxor1d(B,[1,9]) | np.setdiff1d(B,[1,9]) | np.union1d(B,[1,9]) | np.intersect1d(B,[2,5,7]) | np.intersect1d(B,[5,2],return_indices=True)[1]
np.searchsorted(np.sort(D),[0.,3.,9.]) | np.searchsorted(np.sort(D),3.,side="right") | np.searchsorted(D,2.5,sorter=np.argsort(D)) | np.digitize(D,[1,3]) | np.digitize(D,[3,1]) | np.digitize(D,[3,1],right=True) | np.digitize(D,[1,3],right=True) | np.array_equal(A,A) | np.array_equal(C,C,equal_nan=True) | np.array_equal(C,C) | np.allclose(A,A+1e-12) | np.isclose(A,A) | np.isclose(C,C,equal_nan=True) | np.apply_along_axis(lambda x:x.sum(),1,A) | np.apply_along_axis(lambda x:x*2,0,A) | np.vectorize(lambda x,y:x+y)(D,B) | np.linspace(0,1,5) | np.linspace(1,0,4,endpoint=False) | np.linspace(0,3,num=4,retstep=True)[1] | np.identity(2) | np.eye(2,3) | np.eye(3,k=1) | np.full((2,2),7) | np.full(2,np.nan) | np.full(2,[1,2]) | np.full_like(A,3) | np.full_like(B,2.7) | np.full_like(A,fill_value=1) | np.zeros_like(A,dtype=int) | np.ones_like(B,dtype="f4") | np.zeros_like([1.,2.]) | np.indices((2,2)) | np.broadcast_arrays(B,np.zeros((2,1)))[1] | np.invert(M) | np.bitwise_not(B) | np.bitwise_or(M,~M) | np.bitwise_and(M,M) | divmod(B,2)[1] | np.divmod(B,2)[0] | abs(A) | np.hypot(3.,4.) | np.hypot(D,D) | np.square(D) | np.sign(A) | np.trunc(A*1.7) | np.floor(A*1.7) | np.ceil(A*1.7) | np.rint(A*1.7) | np.power(D,2) | np.log2(D) | np.exp2(D) | np.negative(B) | np.meshgrid(B,D)[0] | np.meshgrid(B,D,indexing="ij")[1] | A.T.reshape(-1) | A.reshape(3,2,order="F") | A.ravel("F") | A.flatten() | A.ravel()[::-1] | A.ptp() | np.ptp(A,axis=0) | B.tolist() | A.dot(A.T) | A.diagonal() | np.count_nonzero(A>0,axis=1) | np.count_nonzero(B) | np.argwhere(A>0) | np.flatnonzero(B) | np.nonzero(A>0)[1] | np.where(A>0,A,0) | np.where(M)[0] | np.lexsort((B,D)) | np.unique(B) | np.unique(B,return_counts=True)[1] | np.unique(B,return_inverse=True)[1] | np.bincount(B) | np.bincount(B,weights=D) | np.bincount(B,minlength=8) | np.histogram(D,bins=[0,2,4,6])[0] | np.interp([0.5,2.5],[0,1,3],[1.,2.,5.]) | np.insert(D,1,9.) | np.insert(D,[1,3],[8.,9.]) | np.delete(D,1) | np.delete(D,[0,2]) | np.delete(A,0,axis=0) | np.append(D,B) | np.append(A,A,axis=0) | np.repeat(B,2) | np.repeat(B,[1,0,2,1,1]) | np.repeat(A,2,axis=0) | np.isin(B,[1,2]) | np.isin(B,[1,2],invert=True) | np.isin(A,[2.])
np.ma.masked_where(A>1,A).filled(0) | np.ma.masked_invalid(C).mask | np.ma.masked_less(D,2).compressed() | np.ma.masked_outside(D,2,4).compressed() | (MA/0).filled(-9) | (MA/np.array([0.,2.,np.inf,np.nan])).filled(-9) | (MA/np.array([0.,2.,np.inf,np.nan])).data | (1/MA).filled(-9) | (MA/MA).data | (np.array([1.,0.,np.nan,3.])/(MA-1)).filled(-9) | MA.sum() | MA.mean() | np.ma.sum(MA) | np.ma.mean(MA) | MB.sum(axis=0).filled(-9) | MB.min(axis=1).filled(-9) | MB.mean(axis=0).filled(-9) | MA.std() | MA.ptp() | np.ma.where(MA>1,MA,0.).filled(-9) | np.ma.filled(MA,3.) | np.ma.getmaskarray(MA) | np.ma.getmaskarray(D) | np.abs(MA-3).filled(-9) | np.ma.abs(MA-3).filled(-9) | np.ma.concatenate((MA,MA)).filled(-9) | np.maximum(MA,2).filled(-9) | np.ma.is_masked(MA) | np.ma.stack((MA,MA)).filled(-9) | np.ma.diff(MA).filled(-9) | MA.compressed() | MA[2] | MA[1] is np.ma.masked | MA[1:3].filled(-9) | np.sqrt(MA).filled(-9) | (MA>2).filled(False) | MA.argmin() | MA.argmax() | MA.count() | np.ma.masked_array(D,mask=M).compressed() | np.ma.array(D,mask=M).sum() | np.ma.masked_equal(B,2).compressed() | np.ma.clip(MA,2,3).filled(-9) | MA.any() | np.where(MA>1,1,0) | np.cumsum(MA).filled(-9)
""".strip().split("\n"):
    CASES += [c.strip() for c in l.split(" | ")]
STM = """
x=D.copy(); np.add.at(x,[0,0,1],1.); r=x
x=np.zeros(3,int); np.add.at(x,np.array([0,2,2]),np.array([1,2,3])); r=x
x=np.zeros((2,2)); np.add.at(x,(np.array([0,0]),np.array([1,1])),2.); r=x
x=np.zeros(3); np.maximum.at(x,[0,0],[2.,1.]); r=x
x=D.copy(); np.putmask(x,M,0); r=x
x=D.copy(); np.place(x,M,[7.,8.]); r=x
x=D.copy(); np.put(x,[0,2],[7.,8.]); r=x
x=D.copy(); np.copyto(x,0,where=M); r=x
x=D.copy(); np.copyto(x,B); r=x
x=A.copy(); np.put_along_axis(x,np.array([[0],[1]]),9.,1); r=x
x=np.zeros(5); np.divide(D,B,out=x,where=B!=0); r=x
x=np.zeros(5); np.multiply(D,2,x); r=x
x=A.copy(); x.sort(axis=0); r=x
x=MA.copy(); x[0]=np.ma.masked; r=x.filled(-9)
x=MA.copy(); x.mask[2]=True; r=x.filled(-9)
x=B.copy(); x[x>1]-=1; r=x
x=A.copy(); x[:,1]*=2; r=x
x=D.copy(); x+=B; r=x
r=[v for v in np.nditer(B)] if False else list(B)
r=sum(x for x in D)
r=max(D)
r=min(B)
r=sorted(D.tolist())
r=[i for i,v in np.ndenumerate(A) if v>2]
""".strip().split("\n")


def conv(r):
    if isinstance(r, snp.SMa):
        r = r.d
    if isinstance(r, snp.SArr):
        return r.a, r.dt
    if isinstance(r, np.ndarray):
        return r, r.dtype
    return r, None


bad = 0
for c in CASES + STM:
    res = []
    for m in (np, snp):
        ns = {"np": m}
        try:
            exec(A, ns)
            if c in STM:
                exec(c, ns)
                res.append(ns["r"])
            else:
                res.append(eval(c, ns))
        except Exception as e:
            res.append(e)
    r0, r1 = res
    ok = True
    if isinstance(r0, Exception) or isinstance(r1, Exception):
        ok = type(r0) is type(r1)
        if isinstance(r0, AttributeError) and "numpy" in str(r0):
            continue
    else:
        (a0, d0), (a1, d1) = conv(r0), conv(r1)
        try:
            f0, f1 = np.array(a0, dtype=float), np.array(a1, dtype=float)
            ok = f0.shape == f1.shape and np.allclose(f0, f1, equal_nan=True)
        except (TypeError, ValueError):
            ok = str(a0) == str(a1)
        if ok and d0 is not None and d1 is not None and d0 != d1:
            ok = False
            r1 = (r1, d1)
            r0 = (r0, d0)
    if not ok:
        bad += 1
        print("DIFF", c, "\n   real", repr(r0)[:200], "\n   shim", repr(conv(r1))[:300] if not isinstance(r1, Exception) else repr(r1))
print(len(CASES) + len(STM), "cases,", bad, "different")
