"""Seams in the numerical libraries: the non-negative least-squares solver
(iteration budget) and the interpolator constructor (allocation failure)."""
import sys

import numpy as np
import scipy.interpolate
import scipy.optimize

import boot

_nnls = scipy.optimize.nnls
_interp1d = scipy.interpolate.interp1d


class State:
    pass


S = State()


def reset():
    S.nnls_calls = 0
    S.nnls_plan = None        # callable(call_no, A, b, maxiter) -> None | exception
    S.nnls_log = None


reset()


def nnls(A, b, *args, **kw):
    S.nnls_calls += 1
    if S.nnls_plan is not None:
        maxiter = kw.get('maxiter', args[0] if args else None)
        e = S.nnls_plan(S.nnls_calls, A, b, maxiter)
        if e is not None:
            raise e
    return _nnls(A, b, *args, **kw)


def install():
    scipy.optimize.nnls = nnls


class FaultArray(np.ndarray):
    """An array whose k-th arithmetic operation fails to allocate its result."""
    plan = None      # remaining operations before MemoryError, or None
    fired = 0

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        if FaultArray.plan is not None:
            if FaultArray.plan == 0:
                FaultArray.plan = None
                FaultArray.fired += 1
                raise MemoryError('simulated: cannot allocate the result of %s' % ufunc.__name__)
            FaultArray.plan -= 1
        ins = [x.view(np.ndarray) if isinstance(x, FaultArray) else x for x in inputs]
        if out is not None:
            kw['out'] = tuple(x.view(np.ndarray) if isinstance(x, FaultArray) else x for x in out)
        r = getattr(ufunc, method)(*ins, **kw)
        return r
