"""Riemann solvers written in Python but called by the compiled kernels through C function pointers, so that the
kernels can be fed any waves, speeds and fluctuations."""
import ctypes
import numpy as np
P = ctypes.c_void_p
_new = ctypes.pythonapi.PyCapsule_New
_new.restype = ctypes.py_object
_new.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
_keep = []


def _int(p):
    return ctypes.cast(p, ctypes.POINTER(ctypes.c_int))[0]


def arr(p, shape):
    """Fortran-ordered view of double precision data at address p"""
    n = int(np.prod(shape))
    if n == 0:
        return np.zeros(shape, order='F')
    a = np.ctypeslib.as_array(ctypes.cast(p, ctypes.POINTER(ctypes.c_double)), (n,))
    return a.reshape(shape, order='F')


class _Fn(object):
    pass


def capsule(nargs, fun):
    cb = ctypes.CFUNCTYPE(None, *([P] * nargs))(fun)
    _keep.append(cb)
    f = _Fn()
    f._cpointer = _new(ctypes.cast(cb, P), None, None)
    return f


class RP(object):
    """module-like object: .rp1/.rpn2/... with ._cpointer, no parameters"""
    __name__ = 'custom_rp'

    def __init__(self, **fns):
        for k, v in fns.items():
            setattr(self, k, v)


def rp1(fun, errors):
    """fun(ql, qr, auxl, auxr) on interface arrays -> wave(neq,nw,ni), s(nw,ni), amdq(neq,ni), apdq; interface j (0-based)
    lies between array cells j and j+1 (ghost cells included), as for the Python kernels"""
    def cb(maxm, meqn, mwaves, maux, mbc, mx, ql, qr, auxl, auxr, wave, s, amdq, apdq):
        try:
            ne, nw, na, g, n, mm = _int(meqn), _int(mwaves), _int(maux), _int(mbc), _int(mx), _int(maxm)
            nt = mm + 2 * g
            q_l, q_r = arr(ql, (ne, nt)), arr(qr, (ne, nt))
            a_l, a_r = arr(auxl, (na, nt)), arr(auxr, (na, nt))
            w, sp, am, ap = fun(q_r[:, :n + 2 * g - 1], q_l[:, 1:n + 2 * g], a_r[:, :n + 2 * g - 1], a_l[:, 1:n + 2 * g])
            k = n + 2 * g
            arr(wave, (ne, nw, nt))[:, :, 1:k] = w
            arr(s, (nw, nt))[:, 1:k] = sp
            arr(amdq, (ne, nt))[:, 1:k] = am
            arr(apdq, (ne, nt))[:, 1:k] = ap
        except BaseException as e:      # must not propagate through Fortran
            errors.append(repr(e))
    return capsule(14, cb)


def _rpn(nargs, fun, errors, with_aux):
    """fun(dir, ql, qr[, auxl, auxr]) -> wave, s, amdq, apdq"""
    def cb(*a):
        try:
            ixy = _int(a[0])
            maxm, meqn, mwaves, maux, mbc, mx, ql, qr, auxl, auxr, wave, s, amdq, apdq = a[1:]
            ne, nw, g, n, mm = _int(meqn), _int(mwaves), _int(mbc), _int(mx), _int(maxm)
            nt = mm + 2 * g
            k = n + 2 * g
            q_l, q_r = arr(ql, (ne, nt)), arr(qr, (ne, nt))
            if with_aux:
                na = _int(maux)
                more = (arr(auxr, (na, nt))[:, :k - 1], arr(auxl, (na, nt))[:, 1:k])
            else:
                more = ()
            w, sp, am, ap = fun(ixy, q_r[:, :k - 1], q_l[:, 1:k], *more)
            arr(wave, (ne, nw, nt))[:, :, 1:k] = w
            arr(s, (nw, nt))[:, 1:k] = sp
            arr(amdq, (ne, nt))[:, 1:k] = am
            arr(apdq, (ne, nt))[:, 1:k] = ap
        except BaseException as e:
            errors.append(repr(e))
    return capsule(nargs, cb)


def rpn2(fun, errors, with_aux=False):
    return _rpn(15, fun, errors, with_aux)


def rpn3(fun, errors, with_aux=False):
    return _rpn(15, fun, errors, with_aux)


def _rpt(nlead, nargs, fun, errors):
    def cb(*a):
        try:
            lead = [_int(x) for x in a[:nlead]]
            maxm, meqn, mwaves, maux, mbc, mx, ql, qr, aux1, aux2, aux3, asdq, bm, bp = a[nlead:]
            ne, g, n, mm = _int(meqn), _int(mbc), _int(mx), _int(maxm)
            nt = mm + 2 * g
            k = n + 2 * g
            q_l, q_r = arr(ql, (ne, nt)), arr(qr, (ne, nt))
            A = arr(asdq, (ne, nt))[:, 1:k]
            m, p = fun(lead, A, q_r[:, :k - 1], q_l[:, 1:k])
            arr(bm, (ne, nt))[:, 1:k] = m
            arr(bp, (ne, nt))[:, 1:k] = p
        except BaseException as e:
            errors.append(repr(e))
    return capsule(nargs, cb)


def rpt2(fun, errors):
    """fun([ixy, imp], asdq, ql, qr) -> bmasdq, bpasdq"""
    return _rpt(2, 16, fun, errors)


def rpt3(fun, errors):
    """fun([ixyz, icoor, imp], asdq, ql, qr)"""
    return _rpt(3, 17, fun, errors)


def rptt3(fun, errors):
    """fun([ixyz, icoor, imp, impt], bsasdq, ql, qr)"""
    return _rpt(4, 18, fun, errors)
