"""pysym.nparr -- numpy arrays of symbolic values, and a numpy facade.

SArr is an object-dtype ndarray subclass.  Every numpy ufunc and every numpy
function applied to it is routed here; purely concrete arguments are sent to
numpy itself, symbolic ones to an element-wise / structural implementation.
The facade module replaces the name bound to numpy in the modules under test
only so that *allocations* (zeros, array, ...) can hold symbolic values.
"""
import builtins
import itertools
import math
import numbers
import types
from fractions import Fraction

import numpy as np

from .core import (SymNum, SymBool, SymC, is_sym, Unsupported, And, Or, Not, ite,
                   sym_sqrt, sym_fun, sym_floor, sym_rint, sym_trunc, cast,
                   re_im, mkc, lift, current, mkbool)


class SArr(np.ndarray):
    """object array whose entries may be symbolic"""
    __array_priority__ = 1500.0

    _k = None       # 'i' for arrays allocated with an integer dtype: assignment truncates

    def __array_finalize__(self, obj):
        k = getattr(obj, '_k', None)
        if k is not None:
            self._k = k

    # numpy protocol
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return ufunc_dispatch(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types_, args, kwargs):
        return func_dispatch(func, args, kwargs)

    # attributes that object arrays get wrong
    @property
    def real(self):
        return _map1(lambda x: re_im(x)[0], self)

    @property
    def imag(self):
        return _map1(lambda x: re_im(x)[1], self)

    def conj(self):
        return _map1(_conj, self)

    conjugate = conj

    def astype(self, dtype, *a, **k):
        if dtype in (object, 'O'):
            return self.copy()
        if not has_sym(self):
            return wrap(np.array(_tolist(self)).reshape(self.shape).astype(_dt(dtype)))
        kind = np.dtype(_dt(dtype)).kind
        return _map1(lambda x: cast_any(x, kind), self)

    def __getitem__(self, idx):
        r = np.ndarray.__getitem__(self, fix_index(idx))
        return r

    def __setitem__(self, idx, val):
        if isinstance(val, np.ndarray) and val.dtype != object:
            val = to_obj(val)
        if self._k == 'i':
            if isinstance(val, np.ndarray):
                val = val.astype(int)
                val = to_obj(val)
            elif isinstance(val, (list, tuple)):
                val = to_obj(to_obj(val).astype(int))
            else:
                val = cast_any(val, 'i')
        np.ndarray.__setitem__(self, fix_index(idx), val)

    def sum(self, axis=None, **k):
        return n_sum(self, axis=axis)

    def prod(self, axis=None, **k):
        return n_prod(self, axis=axis)

    def mean(self, axis=None, **k):
        return n_mean(self, axis=axis)

    def std(self, axis=None, ddof=0, **k):
        return n_std(self, axis=axis, ddof=ddof)

    def var(self, axis=None, ddof=0, **k):
        return n_var(self, axis=axis, ddof=ddof)

    def max(self, axis=None, **k):
        return n_max(self, axis=axis)

    def min(self, axis=None, **k):
        return n_min(self, axis=axis)

    def argmax(self, axis=None, **k):
        return n_argmax(self, axis)

    def argmin(self, axis=None, **k):
        return n_argmin(self, axis)

    def any(self, axis=None, **k):
        return n_any(self, axis)

    def all(self, axis=None, **k):
        return n_all(self, axis)

    def dot(self, o):
        return n_dot(self, o)

    def trace(self, *a, **k):
        return n_trace(self)

    def round(self, decimals=0, **k):
        return n_around(self, decimals)

    def nonzero(self):
        return n_nonzero(self)

    def clip(self, *a, **k):
        return n_clip(self, *a, **k)

    def sort(self, axis=-1, **k):
        r = n_sort(self, axis)
        np.ndarray.__setitem__(self, Ellipsis, r)

    def argsort(self, axis=-1, **k):
        return n_argsort(self, axis)

    def cumsum(self, axis=None, **k):
        return n_cumsum(self, axis)

    def item(self, *a):
        return np.ndarray.item(self, *a)

    def __bool__(self):
        if self.size == 1:
            return bool(np.ndarray.item(self))
        return np.ndarray.__bool__(self)

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __index__(self):
        return self.item().__index__()

    def __complex__(self):
        return complex(self.item())

    def __contains__(self, x):
        return builtins.any(bool(v == x) for v in self.ravel().tolist())

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        return (to_obj, (np.ndarray.tolist(self),))


def has_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return False
        return builtins.any(has_sym(v) for v in np.ndarray.ravel(x).tolist())
    if isinstance(x, (list, tuple)):
        return builtins.any(has_sym(v) for v in x)
    if isinstance(x, dict):
        return builtins.any(has_sym(v) for v in x.values())
    return False


def cast_any(x, kind):
    if is_sym(x):
        return cast(x, {'i': int, 'u': int, 'f': float, 'c': complex, 'b': bool}[kind])
    if kind in 'iu':
        return int(x.real if isinstance(x, complex) else x)
    if kind == 'f':
        return float(x.real if isinstance(x, complex) else x)
    if kind == 'c':
        return complex(x)
    if kind == 'b':
        return bool(x)
    return x


def _tolist(a):
    return np.ndarray.tolist(np.asarray(a).view(np.ndarray))


def fix_index(idx):
    if isinstance(idx, tuple):
        return tuple(fix_index(i) for i in idx)
    if isinstance(idx, SArr) or (isinstance(idx, np.ndarray) and idx.dtype == object):
        flat = []
        for v in np.ndarray.ravel(idx).tolist():
            if isinstance(v, (SymBool, bool, np.bool_)):
                flat.append(bool(v))
            else:
                flat.append(v.__index__() if hasattr(v, '__index__') else int(v))
        if flat and builtins.all(isinstance(v, bool) for v in flat):
            return np.array(flat, dtype=bool).reshape(idx.shape)
        return np.array(flat, dtype=int).reshape(idx.shape)
    if isinstance(idx, SymNum):
        return idx.__index__()
    if isinstance(idx, SymBool):
        return bool(idx)
    if isinstance(idx, list):
        return [fix_index(i) for i in idx]
    return idx


def to_obj(x):
    """anything array-like -> SArr (object dtype)"""
    if isinstance(x, SArr):
        return x
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x.view(SArr)
        out = np.empty(x.shape, dtype=object)
        flat = x.ravel().tolist()
        out.ravel()[:] = flat if x.ndim else flat
        if x.ndim == 0:
            out[()] = x.item()
        else:
            out = np.array(flat + [None], dtype=object)[:-1].reshape(x.shape)
        return out.view(SArr)
    return from_seq(x)


def _shape_of(x):
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)):
        if not x:
            return (0,)
        shp = [_shape_of(v) for v in x]
        if builtins.any(s != shp[0] for s in shp):
            raise ValueError('inhomogeneous shape')
        return (len(x),) + shp[0]
    if isinstance(x, range):
        return (len(x),)
    return ()


def _flatten(x, out):
    if isinstance(x, np.ndarray):
        out.extend(np.ndarray.ravel(x.view(np.ndarray)).tolist())
    elif isinstance(x, (list, tuple, range)):
        for v in x:
            _flatten(v, out)
    elif isinstance(x, np.generic):
        out.append(x.item())
    else:
        out.append(x)


def from_seq(x):
    if hasattr(x, '__array__') and not isinstance(x, np.ndarray) and not is_sym(x) \
            and not isinstance(x, np.generic):
        return to_obj(np.asarray(x.__array__()))
    if isinstance(x, (map, filter, types.GeneratorType, dict().keys().__class__,
                      dict().values().__class__, zip)):
        if isinstance(x, (dict().keys().__class__, dict().values().__class__)):
            a = np.empty((), dtype=object)
            a[()] = x
            return a.view(SArr)
        x = list(x)
    shp = _shape_of(x)
    flat = []
    _flatten(x, flat)
    out = np.empty(len(flat), dtype=object)
    for i, v in enumerate(flat):
        out[i] = v
    return out.reshape(shp).view(SArr)


def native(x):
    """convert concrete SArr / nested containers to native numpy values"""
    if isinstance(x, np.ndarray) and x.dtype == object:
        lst = _tolist(x)
        try:
            r = np.array(lst)
        except ValueError:
            return x.view(np.ndarray)
        if r.shape != x.shape:
            if x.size == 0:
                return np.zeros(x.shape)
            return x.view(np.ndarray)
        return r
    if isinstance(x, list):
        return [native(v) for v in x]
    if isinstance(x, tuple):
        return tuple(native(v) for v in x)
    if isinstance(x, dict):
        return {k: native(v) for k, v in x.items()}
    return x


def wrap(r):
    """float/complex native results become SArr so they can later hold symbols"""
    if isinstance(r, SArr):
        return r
    if isinstance(r, np.ndarray):
        if r.dtype.kind in 'fcO' and r.ndim > 0:
            return to_obj(r)
        return r
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(wrap(v) for v in r)
    if isinstance(r, list):
        return [wrap(v) for v in r]
    return r


def _map1(f, a):
    a = np.asarray(a).view(np.ndarray) if not isinstance(a, np.ndarray) else a
    flat = np.ndarray.ravel(a.view(np.ndarray)).tolist()
    out = np.empty(len(flat), dtype=object)
    for i, v in enumerate(flat):
        out[i] = f(v)
    out = out.reshape(a.shape)
    if a.ndim == 0:
        return out[()]
    return out.view(SArr)


def _conj(x):
    return x.conjugate() if hasattr(x, 'conjugate') else x


# --------------------------------------------------------------- ufuncs ----
def _f_div(a, b):
    if not is_sym(a) and not is_sym(b):
        return a / b if b != 0 else np.true_divide(a, b)
    return a / b


def _sqrt(x):
    if isinstance(x, SymNum):
        return sym_sqrt(x)
    if isinstance(x, SymC):
        raise Unsupported('sqrt of symbolic complex')
    return np.sqrt(x).item()


def _fun(name):
    npf = getattr(np, name)

    def f(x):
        if isinstance(x, SymNum):
            if name == 'log2':
                return sym_fun('log', x) / math.log(2)
            if name == 'log10':
                return sym_fun('log', x) / math.log(10)
            if name == 'expm1':
                return sym_fun('exp', x) - 1
            return sym_fun(name, x)
        if isinstance(x, SymC):
            if name == 'exp':
                m = sym_fun('exp', x.re) if is_sym(x.re) else math.exp(x.re)
                return mkc(m * sym_fun('cos', lift(x.im)), m * sym_fun('sin', lift(x.im)))
            raise Unsupported('%s of symbolic complex' % name)
        return npf(x).item()
    return f


def _truth(x):
    if isinstance(x, SymBool):
        return x
    if is_sym(x):
        return x != 0
    return bool(x)


def _max2(a, b):
    c = a >= b
    if isinstance(c, SymBool):
        return ite(c, a, b)
    return a if c else b


def _min2(a, b):
    c = a <= b
    if isinstance(c, SymBool):
        return ite(c, a, b)
    return a if c else b


def _sign(x):
    if isinstance(x, SymNum):
        return ite(x > 0, 1, ite(x < 0, -1, 0))
    return np.sign(x).item()


def _pw(a, b):
    return a ** b


UF = {
    'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b,
    'multiply': lambda a, b: a * b, 'true_divide': _f_div, 'divide': _f_div,
    'floor_divide': lambda a, b: a // b, 'remainder': lambda a, b: a % b,
    'mod': lambda a, b: a % b, 'power': _pw, 'float_power': _pw,
    'negative': lambda a: -a, 'positive': lambda a: a,
    'absolute': abs, 'fabs': abs, 'conjugate': _conj, 'conj': _conj,
    'sqrt': _sqrt, 'square': lambda a: a * a, 'exp': _fun('exp'), 'log': _fun('log'),
    'log2': _fun('log2'), 'log10': _fun('log10'), 'cos': _fun('cos'),
    'sin': _fun('sin'), 'expm1': _fun('expm1'),
    'less': lambda a, b: a < b, 'less_equal': lambda a, b: a <= b,
    'greater': lambda a, b: a > b, 'greater_equal': lambda a, b: a >= b,
    'equal': lambda a, b: a == b, 'not_equal': lambda a, b: a != b,
    'logical_and': lambda a, b: And(_truth(a), _truth(b)),
    'logical_or': lambda a, b: Or(_truth(a), _truth(b)),
    'logical_not': lambda a: Not(_truth(a)),
    'logical_xor': lambda a, b: _truth(a) ^ _truth(b),
    'bitwise_and': lambda a, b: a & b, 'bitwise_or': lambda a, b: a | b,
    'bitwise_xor': lambda a, b: a ^ b, 'invert': lambda a: ~a if is_sym(a) or not isinstance(a, bool) else not a,
    'left_shift': lambda a, b: a << b, 'right_shift': lambda a, b: a >> b,
    'maximum': _max2, 'minimum': _min2, 'fmax': _max2, 'fmin': _min2,
    'sign': _sign, 'floor': lambda a: sym_floor(a) if is_sym(a) else math.floor(a),
    'ceil': lambda a: -sym_floor(-a) if is_sym(a) else math.ceil(a),
    'rint': lambda a: sym_rint(a) if is_sym(a) else np.rint(a).item(),
    'trunc': lambda a: sym_trunc(a) if is_sym(a) else int(a),
    'isfinite': lambda a: True if is_sym(a) else bool(np.isfinite(a)),
    'isnan': lambda a: False if is_sym(a) else bool(np.isnan(a)),
    'isinf': lambda a: False if is_sym(a) else bool(np.isinf(a)),
    'divmod': lambda a, b: (a // b, a % b),
}
_BOOL_UF = {'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal',
            'logical_and', 'logical_or', 'logical_not', 'logical_xor', 'isfinite',
            'isnan', 'isinf'}


def ufunc_dispatch(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    out = kwargs.pop('out', None)
    kwargs.pop('dtype', None)
    kwargs.pop('casting', None)
    where = kwargs.pop('where', True)
    if not has_sym(list(inputs)) and where is True:
        if name in ('conjugate', 'matmul') or builtins.all(True for _ in inputs):
            nat = [native(i) for i in inputs]
            if not builtins.any(isinstance(i, np.ndarray) and i.dtype == object for i in nat):
                r = getattr(ufunc, method)(*nat, **{k: v for k, v in kwargs.items()})
                return _deliver(wrap(r), out)
    if method == '__call__':
        if name == 'matmul':
            return _deliver(n_dot(*inputs), out)
        f = UF.get(name)
        if f is None:
            raise Unsupported('ufunc %s on symbolic data' % name)
        arrs = [i if isinstance(i, np.ndarray) else _scalar0(i) for i in inputs]
        bs = np.broadcast_arrays(*[a.view(np.ndarray) if a.dtype == object else
                                   to_obj(a).view(np.ndarray) for a in arrs])
        flats = [np.ndarray.ravel(b).tolist() for b in bs]
        shape = bs[0].shape
        if isinstance(where, np.ndarray) and name != 'divmod':
            wshape = np.broadcast_shapes(shape, where.shape)
            bs = [np.broadcast_to(b, wshape) for b in bs]
            flats = [np.ndarray.ravel(b).tolist() for b in bs]
            shape = wshape
            mask = [bool(m) for m in np.ndarray.ravel(np.broadcast_to(
                to_obj(where).view(np.ndarray), wshape)).tolist()]
            o = out[0] if isinstance(out, tuple) else out
            if o is None:
                raise Unsupported('ufunc where= without out')
            old = np.ndarray.ravel(np.broadcast_to(to_obj(o).view(np.ndarray), wshape)).tolist()
            res = [f(*v) if m else w for m, w, v in zip(mask, old, zip(*flats))]
            return _deliver(_build(res, shape), out)
        res = [f(*v) for v in zip(*flats)]
        if name == 'divmod':
            return (_build([r[0] for r in res], shape), _build([r[1] for r in res], shape))
        r = _build(res, shape)
        return _deliver(r, out)
    if method == 'reduce':
        axis = kwargs.get('axis', 0)
        kd = kwargs.get('keepdims', False)
        a = to_obj(inputs[0])
        if name == 'add':
            return _deliver(n_sum(a, axis=axis, keepdims=kd), out)
        f = UF.get(name)
        if f is None:
            raise Unsupported('ufunc reduce %s' % name)
        return _deliver(_reduce(f, a, axis, keepdims=kd), out)
    if method == 'accumulate':
        f = UF.get(name)
        return _accumulate(f, to_obj(inputs[0]), kwargs.get('axis', 0))
    if method == 'outer':
        a, b = to_obj(inputs[0]), to_obj(inputs[1])
        return ufunc_dispatch(ufunc, '__call__',
                              (a.reshape(a.shape + (1,) * b.ndim), b), {})
    if method == 'at':
        a, idx, b = inputs
        f = UF[name]
        idx = fix_index(idx)
        it = np.atleast_1d(idx)
        bb = np.broadcast_to(np.asarray(b, dtype=object), it.shape)
        for i, v in zip(it.tolist(), bb.tolist()):
            a[i] = f(a[i], v)
        return None
    raise Unsupported('ufunc method %s' % method)


def _scalar0(v):
    if isinstance(v, (list, tuple)):
        return to_obj(v)
    a = np.empty((), dtype=object)
    a[()] = v.item() if isinstance(v, np.generic) else v
    return a


def _build(res, shape):
    if shape == ():
        return res[0]
    out = np.empty(len(res), dtype=object)
    for i, v in enumerate(res):
        out[i] = v
    if res and builtins.all(isinstance(v, (bool, np.bool_)) for v in res):
        return out.astype(bool).reshape(shape)
    return out.reshape(shape).view(SArr)


def _deliver(r, out):
    if out is None:
        return r
    o = out[0] if isinstance(out, tuple) else out
    if o is None:
        return r
    if o.dtype != object and has_sym(r):
        raise Unsupported('symbolic result written into a native array')
    if o.ndim == 0:
        o[()] = r
    else:
        o[...] = r
    return o


def _axes(a, axis):
    if axis is None:
        return tuple(range(a.ndim))
    if isinstance(axis, (tuple, list)):
        return tuple(int(x) % a.ndim for x in axis)
    return (int(axis) % a.ndim,)


def _reduce(f, a, axis, keepdims=False, init=None):
    a = to_obj(a).view(np.ndarray)
    if a.ndim == 0:
        return a[()]
    axes = _axes(a, axis)
    keep = [i for i in range(a.ndim) if i not in axes]
    t = a.transpose(keep + list(axes))
    kshape = tuple(a.shape[i] for i in keep)
    t = t.reshape(kshape + (-1,))
    rows = t.reshape(-1, t.shape[-1]) if t.size else t.reshape(
        int(np.prod(kshape)) if kshape else 1, 0)
    res = []
    for row in rows.tolist():
        if not row:
            if init is None:
                raise ValueError('zero-size reduction')
            res.append(init)
            continue
        acc = row[0]
        for v in row[1:]:
            acc = f(acc, v)
        res.append(acc)
    if not kshape:
        r = res[0]
        if keepdims:
            return _build([r], (1,) * a.ndim)
        return r
    if keepdims:
        kshape = tuple(1 if i in axes else a.shape[i] for i in range(a.ndim))
    return _build(res, kshape)


def _accumulate(f, a, axis):
    if axis is None:
        a = a.ravel()
        axis = 0
    m = np.moveaxis(a.view(np.ndarray), axis, 0)
    out = np.empty(m.shape, dtype=object)
    acc = None
    for i in range(m.shape[0]):
        if acc is None:
            acc = m[i]
        else:
            acc = _zipf(f, acc, m[i])
        out[i] = acc
    return np.moveaxis(out, 0, axis).view(SArr)


def _zipf(f, a, b):
    if not isinstance(a, np.ndarray):
        return f(a, b)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = f(a[i], b[i])
    return out


# ------------------------------------------------------------ functions ----
def n_sum(a, axis=None, dtype=None, keepdims=False, **k):
    return _reduce(UF['add'], to_obj(a), axis, keepdims, init=0)


def n_prod(a, axis=None, dtype=None, keepdims=False, **k):
    return _reduce(UF['multiply'], to_obj(a), axis, keepdims, init=1)


def n_mean(a, axis=None, keepdims=False, dtype=None, **k):
    a = to_obj(a)
    n = 1
    for ax in _axes(a, axis):
        n *= a.shape[ax]
    return n_sum(a, axis, keepdims=keepdims) / n


def n_average(a, axis=None, weights=None, **k):
    if weights is None:
        return n_mean(a, axis)
    a, w = to_obj(a), to_obj(weights)
    if w.shape != a.shape:
        ax = _axes(a, axis)[0]
        shp = [1] * a.ndim
        shp[ax] = w.shape[0]
        w = w.reshape(shp)
    return n_sum(a * w, axis) / n_sum(w + 0 * a, axis)


def n_fft(a, n=None, axis=-1, **k):
    a = to_obj(a)
    if a.ndim != 1 or n not in (None, len(a)):
        raise Unsupported('fft of this shape')
    m = len(a)
    out = np.empty(m, dtype=object)
    for f in range(m):
        acc = 0
        for i in range(m):
            w = np.exp(-2j * np.pi * ((f * i) % m) / m)
            re, im = [0.0 if abs(v) < 1e-15 else (round(v) if abs(v - round(v)) < 1e-15 else v)
                      for v in (w.real, w.imag)]
            acc = acc + a[i] * (re if im == 0 else complex(re, im))
        out[f] = acc
    return out.view(type(a))


def _sq_abs(x):
    v = x * _conj(x)
    return v.real if isinstance(x, (complex, np.complexfloating, SymC)) else v


def n_var(a, axis=None, ddof=0, **k):
    a = to_obj(a)
    m = n_mean(a, axis, keepdims=True)
    d = a - m
    n = 1
    for ax in _axes(a, axis):
        n *= a.shape[ax]
    return n_sum(_map1(_sq_abs, d), axis) / (n - ddof)


def n_std(a, axis=None, ddof=0, **k):
    v = n_var(a, axis, ddof)
    return _map1(_sqrt, v) if isinstance(v, np.ndarray) else _sqrt(v)


def n_max(a, axis=None, keepdims=False, **k):
    return _reduce(_max2, to_obj(a), axis, keepdims)


def n_min(a, axis=None, keepdims=False, **k):
    return _reduce(_min2, to_obj(a), axis, keepdims)


def _argext(row, better):
    bi = 0
    for i in range(1, len(row)):
        if bool(better(row[i], row[bi])):
            bi = i
    return bi


def n_argmax(a, axis=None, **k):
    return _arg(to_obj(a), axis, lambda x, y: x > y)


def n_argmin(a, axis=None, **k):
    return _arg(to_obj(a), axis, lambda x, y: x < y)


def _arg(a, axis, better):
    if axis is None:
        return _argext(a.ravel().tolist(), better)
    m = np.moveaxis(a.view(np.ndarray), axis, -1)
    out = np.empty(m.shape[:-1], dtype=int)
    for i in np.ndindex(*m.shape[:-1]):
        out[i] = _argext(m[i].tolist(), better)
    return out


def n_any(a, axis=None, **k):
    return _reduce(lambda x, y: Or(_truth(x), _truth(y)), _map1(_truth, to_obj(a)), axis,
                   init=False)


def n_all(a, axis=None, **k):
    return _reduce(lambda x, y: And(_truth(x), _truth(y)), _map1(_truth, to_obj(a)), axis,
                   init=True)


def n_dot(a, b, out=None):
    if not isinstance(a, np.ndarray) and not isinstance(a, (list, tuple)):
        return a * b
    if not isinstance(b, np.ndarray) and not isinstance(b, (list, tuple)):
        return a * b
    a, b = to_obj(a), to_obj(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    A = a.view(np.ndarray)
    B = b.view(np.ndarray)
    if a.ndim == 1 and b.ndim == 1:
        if len(a) != len(b):
            raise ValueError('shapes not aligned')
        return _dot1(A.tolist(), B.tolist())
    if b.ndim == 1:
        if a.shape[-1] != b.shape[0]:
            raise ValueError('shapes not aligned')
        v = B.tolist()
        out = np.empty(a.shape[:-1], dtype=object)
        for i in np.ndindex(*a.shape[:-1]):
            out[i] = _dot1(A[i].tolist(), v)
        return out.view(SArr)
    if a.ndim == 1:
        return n_dot(a.reshape(1, -1), b)[0]
    if a.ndim == 2 and b.ndim == 2:
        if a.shape[1] != b.shape[0]:
            raise ValueError('shapes %s and %s not aligned' % (a.shape, b.shape))
        rows = A.tolist()
        cols = B.T.tolist()
        out = np.empty((a.shape[0], b.shape[1]), dtype=object)
        for i, r in enumerate(rows):
            for j, c in enumerate(cols):
                out[i, j] = _dot1(r, c)
        return out.view(SArr)
    if a.ndim == b.ndim and a.shape[:-2] == b.shape[:-2]:
        out = np.empty(a.shape[:-1] + (b.shape[-1],), dtype=object)
        for i in np.ndindex(*a.shape[:-2]):
            out[i] = n_dot(a[i], b[i])
        return out.view(SArr)
    raise Unsupported('dot with ndim %d,%d' % (a.ndim, b.ndim))


def _dot1(r, c):
    acc = 0
    for x, y in zip(r, c):
        if not is_sym(x) and x == 0:
            continue
        if not is_sym(y) and y == 0:
            continue
        acc = acc + x * y
    return acc


def n_tensordot(a, b, axes=2):
    a, b = to_obj(a), to_obj(b)
    if isinstance(axes, int):
        aa = list(range(a.ndim - axes, a.ndim))
        bb = list(range(axes))
    else:
        aa, bb = axes
        aa = [aa] if isinstance(aa, int) else list(aa)
        bb = [bb] if isinstance(bb, int) else list(bb)
    aa = [x % a.ndim for x in aa]
    bb = [x % b.ndim for x in bb]
    ak = [i for i in range(a.ndim) if i not in aa]
    bk = [i for i in range(b.ndim) if i not in bb]
    n = int(np.prod([a.shape[i] for i in aa])) if aa else 1
    A = a.transpose(ak + aa).reshape(-1, n)
    B = b.transpose(bb + bk).reshape(n, -1)
    r = n_dot(A, B)
    return r.reshape([a.shape[i] for i in ak] + [b.shape[i] for i in bk])


def n_einsum(spec, *ops, **k):
    k.pop('optimize', None)
    if not isinstance(spec, str):       # operand, sublist, operand, sublist, ..., [output]
        rest = [spec] + list(ops)
        subs, ops = [], []
        while len(rest) > 1:
            ops.append(rest.pop(0))
            subs.append([int(i) for i in rest.pop(0)])
        if builtins.any(i < 0 or i > 51 for x in subs for i in x):
            raise Unsupported('einsum labels')
        L = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
        spec = ','.join(''.join(L[i] for i in x) for x in subs)
        if rest:
            spec += '->' + ''.join(L[int(i)] for i in rest[0])
    spec = spec.replace(' ', '')
    ops = [to_obj(o) for o in ops]
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        letters = ins.replace(',', '')
        out = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(',')
    if '.' in spec:
        raise Unsupported('einsum ellipsis')
    dims = {}
    for s, o in zip(ins, ops):
        for c, d in zip(s, o.shape):
            dims[c] = d
    summed = [c for c in dims if c not in out]
    res = np.empty([dims[c] for c in out], dtype=object)
    for oi in itertools.product(*[range(dims[c]) for c in out]):
        env = dict(zip(out, oi))
        acc = 0
        for si in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, si))
            t = 1
            for s, o in zip(ins, ops):
                v = o[tuple(env[c] for c in s)]
                if not is_sym(v) and v == 0:
                    t = 0
                    break
                t = v * t
            if is_sym(t) or t != 0:
                acc = acc + t
        res[oi] = acc
    if res.ndim == 0:
        return res[()]
    return res.view(SArr)


def n_kron(a, b):
    a, b = to_obj(a), to_obj(b)
    nd = builtins.max(a.ndim, b.ndim)
    a = a.reshape((1,) * (nd - a.ndim) + a.shape)
    b = b.reshape((1,) * (nd - b.ndim) + b.shape)
    out = np.empty([x * y for x, y in zip(a.shape, b.shape)], dtype=object)
    for i in np.ndindex(*a.shape):
        for j in np.ndindex(*b.shape):
            out[tuple(x * s + y for x, y, s in zip(i, j, b.shape))] = a[i] * b[j]
    return out.view(SArr)


def n_trace(a, *args, **k):
    a = to_obj(a)
    acc = 0
    for i in range(builtins.min(a.shape)):
        acc = acc + a[i, i]
    return acc


def n_outer(a, b, out=None):
    a, b = to_obj(a).ravel(), to_obj(b).ravel()
    return n_kron(a.reshape(-1, 1), b.reshape(1, -1))


def n_vdot(a, b):
    return _dot1([_conj(x) for x in to_obj(a).ravel().tolist()], to_obj(b).ravel().tolist())


def n_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    """|a-b| <= atol + rtol*|b|, element-wise, over the reals"""
    def f(x, y):
        if not is_sym(x) and not is_sym(y):
            return bool(np.isclose(x, y, rtol=rtol, atol=atol))
        xr, xi = re_im(x)
        yr, yi = re_im(y)
        if (not is_sym(xi) and xi == 0) and (not is_sym(yi) and yi == 0):
            d = xr - yr
            tol = Fraction(atol).limit_denominator(10**12) + \
                Fraction(rtol).limit_denominator(10**12) * lift(abs(y))
            if not is_sym(d):
                d = float(d)
            return And(d <= tol, -d <= tol)
        dr, di = xr - yr, xi - yi
        tol = Fraction(atol).limit_denominator(10**12) + \
            Fraction(rtol).limit_denominator(10**12) * (lift(abs(y)) if not is_sym(y) else abs(y))
        return dr * dr + di * di <= tol * tol
    A, B = np.broadcast_arrays(to_obj(a).view(np.ndarray), to_obj(b).view(np.ndarray))
    res = [f(x, y) for x, y in zip(A.ravel().tolist(), B.ravel().tolist())]
    return _build(res, A.shape)


def n_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = n_isclose(a, b, rtol, atol)
    return n_all(to_obj(r)) if isinstance(r, np.ndarray) else r


def n_array_equal(a, b, **k):
    a, b = to_obj(a), to_obj(b)
    if a.shape != b.shape:
        return False
    return And(*[x == y for x, y in zip(a.ravel().tolist(), b.ravel().tolist())])


def n_sort(a, axis=-1, **k):
    a = to_obj(a)
    if axis is None:
        a = a.ravel()
        axis = -1
    m = np.moveaxis(a.view(np.ndarray).copy(), axis, -1)
    out = np.empty(m.shape, dtype=object)
    for i in np.ndindex(*m.shape[:-1]):
        row = _sortrow(m[i].tolist())
        for j, v in enumerate(row):
            out[i + (j,)] = v
    return np.moveaxis(out, -1, axis).view(SArr)


def _sortrow(row):
    """sorting network with ite (no forking)"""
    row = list(row)
    n = len(row)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = row[j], row[j + 1]
            row[j], row[j + 1] = _min2(a, b), _max2(a, b)
    return row


def n_argsort(a, axis=-1, **k):
    a = to_obj(a)
    if a.ndim != 1:
        raise Unsupported('argsort nd')
    import functools
    vals = a.tolist()

    def cmp(i, j):
        if bool(vals[i] < vals[j]):
            return -1
        if bool(vals[j] < vals[i]):
            return 1
        return 0
    return np.array(sorted(range(len(vals)), key=functools.cmp_to_key(cmp)), dtype=int)


def n_median(a, axis=None, **k):
    a = to_obj(a)
    if axis is not None and a.ndim > 1:
        m = np.moveaxis(a.view(np.ndarray), axis, -1)
        out = np.empty(m.shape[:-1], dtype=object)
        for i in np.ndindex(*m.shape[:-1]):
            out[i] = n_median(m[i])
        return out.view(SArr)
    row = n_sort(a.ravel()).tolist()
    n = len(row)
    if n % 2:
        return row[n // 2]
    return (row[n // 2 - 1] + row[n // 2]) / 2


def n_cumsum(a, axis=None, **k):
    return _accumulate(UF['add'], to_obj(a), axis)


def n_cumprod(a, axis=None, **k):
    return _accumulate(UF['multiply'], to_obj(a), axis)


def n_where(c, *xy):
    if not xy:
        return n_nonzero(c)
    x, y = xy
    arrs = np.broadcast_arrays(*[to_obj(v).view(np.ndarray) if isinstance(
        v, (np.ndarray, list, tuple)) else _scalar0(v) for v in (c, x, y)])
    res = [ite(_truth(a), p, q) for a, p, q in zip(*[v.ravel().tolist() for v in arrs])]
    return _build(res, arrs[0].shape)


def n_nonzero(a):
    a = to_obj(a)
    idx = [i for i in np.ndindex(*a.shape) if bool(_truth(a[i]))]
    return tuple(np.array([i[d] for i in idx], dtype=int) for d in range(a.ndim))


def n_flatnonzero(a):
    return n_nonzero(to_obj(a).ravel())[0]


def n_count_nonzero(a, axis=None, **k):
    from .core import bool_to_int
    return n_sum(_map1(lambda x: bool_to_int(_truth(x)), to_obj(a)), axis)


def n_clip(a, lo=None, hi=None, out=None, **k):
    lo = k.get('a_min', k.get('min', lo))
    hi = k.get('a_max', k.get('max', hi))

    def f(x):
        if lo is not None:
            x = _max2(x, lo)
        if hi is not None:
            x = _min2(x, hi)
        return x
    if not isinstance(a, (np.ndarray, list, tuple)):
        return f(a)
    return _map1(f, to_obj(a))


def n_around(a, decimals=0, out=None):
    if not has_sym(a):
        return wrap(np.around(native(a), decimals))
    if decimals == 0:
        g = lambda x: sym_rint(x) if is_sym(x) else np.rint(x).item()
    else:
        s = 10 ** decimals
        g = lambda x: sym_rint(x * s) / s if is_sym(x) else round(x, decimals)
    return _map1(g, to_obj(a)) if isinstance(a, (np.ndarray, list, tuple)) else g(a)


def n_real(a):
    return a.real if hasattr(a, 'real') and not isinstance(a, (list, tuple)) and not (
        isinstance(a, np.ndarray) and not isinstance(a, SArr)) else to_obj(a).real


def n_imag(a):
    return a.imag if hasattr(a, 'imag') and not isinstance(a, (list, tuple)) and not (
        isinstance(a, np.ndarray) and not isinstance(a, SArr)) else to_obj(a).imag


def n_diag(a, k=0):
    a = to_obj(a)
    if a.ndim == 1:
        n = a.shape[0] + abs(k)
        out = np.zeros((n, n), dtype=object)
        for i in range(a.shape[0]):
            out[i + builtins.max(0, -k), i + builtins.max(0, k)] = a[i]
        return out.view(SArr)
    return np.diagonal(a.view(np.ndarray), k).copy().view(SArr)


def n_norm(x, ord=None, axis=None, keepdims=False):
    x = to_obj(x)
    if axis is not None:
        if ord in (None, 2):
            s = n_sum(_map1(_abs2, x), axis, keepdims=keepdims)
            return _map1(_sqrt, s) if isinstance(s, np.ndarray) else _sqrt(s)
        raise Unsupported('norm axis/ord')
    if ord in (None, 'fro') or (ord == 2 and x.ndim == 1):
        return _sqrt(n_sum(_map1(_abs2, x)))
    if ord == 1 and x.ndim == 1:
        return n_sum(_map1(abs, x))
    if ord == 1 and x.ndim == 2:
        return n_max(n_sum(_map1(abs, x), 0))
    if ord == math.inf and x.ndim == 1:
        return n_max(_map1(abs, x))
    raise Unsupported('norm ord %r' % (ord,))


def _abs2(x):
    r, i = re_im(x)
    return r * r + i * i


def n_det(a):
    a = to_obj(a)
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    if n == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    if n > 4:
        raise Unsupported('symbolic determinant of size %d' % n)
    acc = 0
    for j in range(n):
        if not is_sym(a[0, j]) and a[0, j] == 0:
            continue
        minor = to_obj(np.delete(np.delete(a.view(np.ndarray), 0, 0), j, 1))
        acc = acc + (-1) ** j * a[0, j] * n_det(minor)
    return acc


INV_TABLE = []      # filled per path: (matrix, inverse) pairs


def n_inv(a, **k):
    """Inverse of a symbolic matrix.

    2x2 (and block-free small) matrices: exact adjugate / determinant.  Larger
    ones: an uninterpreted inverse -- equal matrices get the same result --
    constrained by A.X = X.A = I.
    """
    a = to_obj(a)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError('not square')
    n = a.shape[0]
    if n == 1:
        return _build([1 / a[0, 0]], (1, 1))
    if n == 2:
        d = n_det(a)
        if bool(d == 0):
            raise np.linalg.LinAlgError('Singular matrix')
        r = [a[1, 1] / d, -a[0, 1] / d, -a[1, 0] / d, a[0, 0] / d]
        return _build(r, (2, 2))
    return inv_uf(a)


_REAL_INV = np.linalg.inv


def exact_inv(a, *r, **k):
    """adjugate / determinant (sizes up to 4)"""
    a = to_obj(a)
    if not has_sym(a):
        return wrap(_REAL_INV(native(a)))
    n = a.shape[0]
    d = n_det(a)
    if not is_sym(d):
        if abs(d) < 1e-12:
            raise np.linalg.LinAlgError('Singular matrix')
    elif bool(d == 0):
        raise np.linalg.LinAlgError('Singular matrix')
    out = np.empty((n, n), dtype=object)
    v = a.view(np.ndarray)
    for i in range(n):
        for j in range(n):
            m = n_det(to_obj(np.delete(np.delete(v, j, 0), i, 1))) if n > 1 else 1
            out[i, j] = (-1) ** (i + j) * m / d
    return out.view(SArr)


def inv_uf(a):
    import z3
    cur = current()
    if getattr(cur, '_inv_run', None) is not cur.solver:
        cur._inv_run = cur.solver
        cur._inv_table = []
    n = a.shape[0]
    for m, x in cur._inv_table:
        if m.shape == a.shape and _provably_equal(cur, m, a):
            return x.copy()
    from .core import opaque, ATOMS
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            v = z3.Real('inv%d_%d_%d' % (len(cur._inv_table), i, j))
            out[i, j] = opaque(None, v, False)
    out = out.view(SArr)
    cur._inv_table.append((a.copy(), out))
    for p, q in ((a, out), (out, a)):
        r = n_dot(p, q)
        for i in range(n):
            for j in range(n):
                c = (r[i, j] == (1 if i == j else 0))
                if isinstance(c, SymBool):
                    ATOMS.axioms.append(c.e)
    return out.copy()


def _provably_equal(cur, a, b):
    import z3
    from .core import boolexpr
    cs = []
    for x, y in zip(a.ravel().tolist(), b.ravel().tolist()):
        c = (x == y)
        if isinstance(c, (bool, np.bool_)):
            if not c:
                # tolerate float noise between concrete entries
                if is_sym(x) or is_sym(y) or abs(x - y) > 1e-9:
                    return False
        else:
            cs.append(c.e)
    if not cs:
        return True
    return cur._check(z3.Not(z3.And(cs)), ms=5000) == z3.unsat


def n_solve(a, b, **k):
    return n_dot(n_inv(a), b)


def n_pinv(a, *args, **k):
    a = to_obj(a)
    if a.shape[0] == a.shape[1]:
        return n_inv(a)
    if not has_sym(a):
        return wrap(np.linalg.pinv(native(a)))
    if a.shape[0] > a.shape[1]:
        ah = a.conj().T
        return n_dot(n_inv(n_dot(ah, a)), ah)
    raise Unsupported('pinv wide')


def n_lstsq(a, b, rcond=None, **k):
    """full-column-rank least squares by the normal equations (contract)"""
    if not has_sym(a):
        x = n_dot(to_obj(np.linalg.pinv(native(a))), b)
    else:
        x = n_dot(n_pinv(a), b)
    return (x, np.array([]), builtins.min(np.shape(a)), None)


def n_delete(a, obj, axis=None):
    return np.delete(to_obj(a).view(np.ndarray), fix_index(obj), axis).view(SArr)


def n_unique(a, **k):
    if k:
        raise Unsupported('unique with options')
    vals = []
    for v in n_sort(to_obj(a).ravel()).tolist():
        if not vals or not bool(vals[-1] == v):
            vals.append(v)
    return to_obj(vals)


def n_array2string(a, *r, **k):
    raise Unsupported('printing symbolic array')


def n_mod(a, b, *r, **k):
    return a % b


def n_nan_to_num(a, **k):
    return a


def n_full_like(a, v, **k):
    return f_full(np.shape(a), v)


def n_zeros_like(a, dtype=None, **k):
    return f_zeros(np.shape(a), dtype)


def n_ones_like(a, dtype=None, **k):
    return f_ones(np.shape(a), dtype)


def n_array_split_generic(func):
    def f(*args, **k):
        return func(*args, **k)
    return f


HANDLERS = {
    'sum': n_sum, 'prod': n_prod, 'product': n_prod, 'mean': n_mean, 'average': n_average,
    'fft': n_fft, 'var': n_var, 'std': n_std, 'amax': n_max, 'max': n_max, 'amin': n_min, 'min': n_min,
    'argmax': n_argmax, 'argmin': n_argmin, 'any': n_any, 'all': n_all, 'dot': n_dot,
    'inner': n_dot, 'matmul': n_dot,
    'tensordot': n_tensordot, 'einsum': n_einsum, 'kron': n_kron, 'trace': n_trace,
    'outer': n_outer, 'vdot': n_vdot, 'isclose': n_isclose, 'allclose': n_allclose,
    'array_equal': n_array_equal, 'sort': n_sort, 'argsort': n_argsort,
    'median': n_median, 'cumsum': n_cumsum, 'cumprod': n_cumprod, 'where': n_where,
    'nonzero': n_nonzero, 'flatnonzero': n_flatnonzero, 'count_nonzero': n_count_nonzero,
    'clip': n_clip, 'around': n_around, 'round': n_around, 'round_': n_around,
    'real': n_real, 'imag': n_imag, 'diag': n_diag, 'norm': n_norm, 'det': n_det,
    'inv': n_inv, 'solve': n_solve, 'pinv': n_pinv, 'lstsq': n_lstsq, 'delete': n_delete,
    'unique': n_unique, 'zeros_like': n_zeros_like, 'ones_like': n_ones_like,
    'full_like': n_full_like, 'empty_like': n_zeros_like, 'nan_to_num': n_nan_to_num,
}

STRUCTURAL = {
    'reshape', 'transpose', 'swapaxes', 'moveaxis', 'rollaxis', 'ravel', 'concatenate', 'stack',
    'vstack', 'hstack', 'column_stack', 'dstack', 'squeeze', 'expand_dims', 'flip', 'fliplr',
    'flipud', 'roll', 'repeat', 'tile', 'append', 'insert', 'copy', 'shape', 'ndim', 'size',
    'atleast_1d', 'atleast_2d', 'broadcast_to', 'diagonal', 'take', 'split', 'array_split',
    'broadcast_arrays', 'rot90', 'triu', 'tril', 'take_along_axis', 'block', 'iscomplexobj',
    'isrealobj', 'may_share_memory', 'shares_memory', 'row_stack', 'hsplit', 'vsplit', 'resize',
    'put', 'copyto', 'fill_diagonal', 'result_type', 'can_cast', 'ix_',
}


def func_dispatch(func, args, kwargs):
    name = getattr(func, '__name__', str(func))
    if not has_sym(list(args)) and not has_sym(list(kwargs.values())):
        if name in STRUCTURAL:
            return structural(func, args, kwargs)
        if name in ('zeros_like', 'ones_like', 'full_like', 'empty_like'):
            return HANDLERS[name](*args, **kwargs)
        return wrap(func(*native(list(args)), **native(kwargs)))
    h = HANDLERS.get(name)
    if h is not None:
        out = kwargs.pop('out', None)
        return _deliver(h(*args, **kwargs), out)
    if name in STRUCTURAL:
        return structural(func, args, kwargs)
    raise Unsupported('numpy function %s on symbolic data' % name)


def _strip(x):
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, list):
        if builtins.any(isinstance(v, np.ndarray) or is_sym(v) for v in x):
            return [_strip(v) for v in x]
        return x
    if isinstance(x, tuple):
        return tuple(_strip(v) for v in x)
    return x


def _objify(x):
    """lists holding symbols become object arrays (but lists of arrays stay lists)"""
    if isinstance(x, (list, tuple)) and has_sym(x) and not builtins.any(
            isinstance(v, np.ndarray) for v in x):
        return to_obj(x).view(np.ndarray)
    return x


def _strip_deep(x):
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)):
        return type(x)(_strip_deep(v) for v in x)
    return x


def structural(func, args, kwargs):
    if func.__name__ == 'block':
        r = np.block(_strip_deep(args[0]))
        return r.view(SArr) if r.dtype == object else r
    a = [_strip(_objify(v) if i == 0 and not isinstance(v, np.ndarray) and
                func.__name__ not in ('concatenate', 'stack', 'vstack', 'hstack', 'column_stack',
                                      'dstack', 'block', 'broadcast_arrays', 'row_stack')
                else v) for i, v in enumerate(args)]
    if func.__name__ in ('append', 'insert', 'put', 'copyto', 'concatenate', 'stack', 'vstack',
                         'hstack', 'column_stack', 'block'):
        a = [_deepobj(v) for v in a]
    r = func(*a, **{k: _strip(v) for k, v in kwargs.items()})

    def w(r):
        if isinstance(r, np.ndarray) and r.dtype == object:
            return r.view(SArr)
        if isinstance(r, list):
            return [w(v) for v in r]
        if isinstance(r, tuple):
            return tuple(w(v) for v in r)
        return r
    return w(r)


def _deepobj(v):
    if isinstance(v, (list, tuple)) and has_sym(v):
        return [to_obj(x).view(np.ndarray) if isinstance(x, (list, tuple)) and has_sym(x) else x
                for x in v]
    return v


# --------------------------------------------------------------- facade ----
def _dt(d):
    """map shadow builtins to real ones"""
    r = getattr(d, '_pysym_real', None)
    return r if r is not None else d


def _kind(dtype):
    if dtype is None:
        return 'f'
    try:
        return np.dtype(_dt(dtype)).kind
    except TypeError:
        return 'O'


def f_full(shape, fill, dtype=None, **k):
    shape = native_shape(shape)
    out = np.empty(shape, dtype=object)
    if isinstance(fill, np.ndarray):
        out[...] = to_obj(fill)
    else:
        if not is_sym(fill) and dtype is not None:
            kd = _kind(dtype)
            if kd in 'iufcb':
                fill = cast_any(fill, kd)
        out.fill(fill)
    return out.view(SArr)


def native_shape(s):
    if isinstance(s, (list, tuple, np.ndarray)):
        return tuple(int(x.__index__()) if hasattr(x, '__index__') else int(x) for x in s)
    return int(s.__index__()) if hasattr(s, '__index__') else int(s)


def f_zeros(shape, dtype=None, *a, **k):
    kd = _kind(dtype)
    if kd == 'b':
        return np.zeros(native_shape(shape), dtype=bool)
    if kd in 'SU':
        return np.zeros(native_shape(shape), dtype=_dt(dtype))
    return _ik(f_full(shape, {'i': 0, 'u': 0, 'c': 0j}.get(kd, 0.0)), kd)


def _ik(a, kd):
    if kd in 'iu':
        a._k = 'i'
    return a


def f_ones(shape, dtype=None, *a, **k):
    kd = _kind(dtype)
    if kd == 'b':
        return np.ones(native_shape(shape), dtype=bool)
    return _ik(f_full(shape, {'i': 1, 'u': 1, 'c': 1 + 0j}.get(kd, 1.0)), kd)


def f_eye(n, m=None, k=0, dtype=None, **kw):
    kd = _kind(dtype)
    if kd == 'b':
        return np.eye(n, m, k, dtype=bool)
    return _ik(to_obj(np.eye(n, m, k, dtype=_dt(dtype) if dtype is not None else float)), kd)


def f_array(x, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(x, (list, tuple, np.ndarray)) or is_sym(x) or hasattr(x, '__array__'):
        if is_sym(x):
            a = _scalar0(x).view(SArr)
        elif has_sym(x):
            a = to_obj(x)
            if copy and a is x or (isinstance(x, np.ndarray)):
                a = a.copy() if copy else a
        else:
            if isinstance(x, SArr):
                if dtype is None:
                    return x.copy() if copy else x
                x = native(x)
            elif isinstance(x, (list, tuple)):
                x = native(x) if _contains_sarr(x) else x
            r = np.array(x, dtype=_dt(dtype), ndmin=ndmin, **k)
            return _keep(r)
        kd = _kind(dtype) if dtype is not None else None
        if kd in ('i', 'u', 'f', 'c'):
            a = _map1(lambda v: cast_any(v, kd), a) if a.ndim else a
        elif kd == 'b':
            return np.array([bool(v) for v in a.ravel().tolist()]).reshape(a.shape)
        while a.ndim < ndmin:
            a = a[None]
        return a
    return _keep(np.array(x, dtype=_dt(dtype), ndmin=ndmin, **k))


def _contains_sarr(x):
    if isinstance(x, SArr):
        return True
    if isinstance(x, (list, tuple)):
        return builtins.any(_contains_sarr(v) for v in x)
    return False


def _keep(r):
    """float/complex arrays become SArr (they may be assigned symbols later)"""
    if r.dtype.kind in 'fc' and r.ndim:
        return to_obj(r)
    return r


def f_asarray(x, dtype=None, *a, **k):
    if isinstance(x, SArr):
        if dtype is None:
            return x
        return x.astype(dtype)
    return f_array(x, dtype=dtype, copy=False)


def f_arange(*a, **k):
    if has_sym(list(a)):
        a = tuple(v.__index__() if isinstance(v, SymNum) else v for v in a)
    if 'dtype' in k:
        k['dtype'] = _dt(k['dtype'])
    return np.arange(*a, **k)


def f_isscalar(x):
    return True if is_sym(x) else np.isscalar(x)


def f_isreal(x):
    return _map1(lambda v: re_im(v)[1] == 0, to_obj(x)) if isinstance(x, np.ndarray) else (
        re_im(x)[1] == 0)


def f_identity(n, dtype=None, **k):
    return f_eye(n, dtype=dtype)


def f_fromiter(it, dtype=None, count=-1, **k):
    return f_array(list(it), dtype=dtype)


def f_vectorize(f, *a, **k):
    return lambda x: _map1(f, to_obj(x))


FACADE = {
    'zeros': f_zeros, 'ones': f_ones, 'empty': f_zeros, 'full': f_full, 'eye': f_eye,
    'identity': f_identity, 'array': f_array, 'asarray': f_asarray, 'asanyarray': f_asarray,
    'ascontiguousarray': f_asarray, 'arange': f_arange, 'isscalar': f_isscalar,
    'isreal': f_isreal, 'fromiter': f_fromiter, 'vectorize': f_vectorize,
    'float': float, 'int': int, 'bool': bool, 'complex': complex,
}
del FACADE['float'], FACADE['int'], FACADE['bool'], FACADE['complex']


class Facade(types.ModuleType):
    """stands in for a numeric module; wraps callables, recurses into submodules"""

    def __init__(self, real, over=None):
        types.ModuleType.__init__(self, real.__name__)
        self.__dict__['_real'] = real
        self.__dict__['_over'] = over or {}

    def __getattr__(self, name):
        ov = self._over
        if name in ov and not getattr(getattr(self._real, name), '_pysym_stub', False) is True:
            return ov[name]
        v = getattr(self._real, name)
        if getattr(v, '_pysym_stub', False) is True:
            return v
        if self._real is np and name in FACADE:
            w = FACADE[name]
        elif isinstance(v, types.ModuleType):
            w = FACADE_MODULES.get(v)
            if w is None:
                w = Facade(v)
        elif isinstance(v, (np.ufunc, type)):
            return v
        elif callable(v):
            w = _wrapf(v)
        else:
            return v
        ov[name] = w
        return w

    def __dir__(self):
        return dir(self._real)


FACADE_MODULES = {}


def _wrapf(func):
    def g(*args, **kwargs):
        if has_sym(list(args)) or has_sym(list(kwargs.values())) or _contains_sarr(
                list(args)) or _contains_sarr(list(kwargs.values())):
            return func_dispatch(func, args, kwargs)
        kwargs = {k: _dt(v) for k, v in kwargs.items()}
        return wrap(func(*args, **kwargs))
    g.__name__ = getattr(func, '__name__', 'f')
    g.__wrapped__ = func
    g._pysym_wrapped = func
    return g


NP = Facade(np)
