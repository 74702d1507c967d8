"""pysym.runtime -- harness contexts, patching of the modules under test, and
the driver that turns obligations into verdicts, replays and evidence."""
import builtins
import contextlib
import importlib
import itertools
import json
import math
import multiprocessing
import os
import pkgutil
import random
import signal
import sys
import threading
import time
import traceback
import types
import warnings
from fractions import Fraction

import numpy as np
import z3

from . import core, nparr
from .core import (SymNum, SymBool, SymC, is_sym, Unsupported, PathAbort, BudgetExceeded,
                   Explorer, ATOMS, And, Or, Not, lift, boolexpr, re_im)

REPO = os.environ.get('PYSYM_REPO', '/repo')


# ------------------------------------------------------------ patching -----
class _ShadowMeta(type):
    def __instancecheck__(cls, x):
        real = cls.__dict__['_pysym_real']
        if isinstance(x, real):
            return True
        if real is float:
            return isinstance(x, SymNum) and not x.isint
        if real is int:
            return isinstance(x, SymNum) and x.isint
        if real is complex:
            return isinstance(x, SymC)
        return False

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.__dict__['_pysym_real'])

    def __eq__(cls, o):
        return o is cls or o is cls.__dict__['_pysym_real']

    def __hash__(cls):
        return hash(cls.__dict__['_pysym_real'])


class sh_float(float, metaclass=_ShadowMeta):
    _pysym_real = float

    def __new__(cls, x=0.0):
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            x = x.ravel().tolist()[0]
        if isinstance(x, SymBool):
            x = core.bool_to_int(x)
        if isinstance(x, SymNum):
            return SymNum(x.num, x.den, False)
        if isinstance(x, SymC):
            raise TypeError("can't convert complex to float")
        return float(x)


class sh_int(int, metaclass=_ShadowMeta):
    _pysym_real = int

    def __new__(cls, x=0, *a):
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            x = x.ravel().tolist()[0]
        if isinstance(x, SymBool):
            return core.bool_to_int(x)
        if isinstance(x, SymNum):
            return core.sym_trunc(x)
        return int(x, *a)


class sh_complex(complex, metaclass=_ShadowMeta):
    _pysym_real = complex

    def __new__(cls, x=0, y=0):
        if is_sym(x) or is_sym(y):
            r, i = re_im(x)
            r2, i2 = re_im(y)
            return core.mkc(r - i2, i + r2)
        return complex(x, y)


def sh_max(*a, **k):
    return _extreme(builtins.max, nparr._max2, a, k)


def sh_min(*a, **k):
    return _extreme(builtins.min, nparr._min2, a, k)


def _extreme(real, two, a, k):
    if k.get('key') is None and 'default' not in k:
        vals = list(a[0]) if len(a) == 1 else list(a)
        if builtins.any(isinstance(v, SymNum) for v in vals):
            acc = vals[0]
            for v in vals[1:]:
                acc = two(acc, v)
            return acc
        return real(vals)
    return real(*a, **k)


def sh_round(x, nd=None):
    if isinstance(x, SymNum):
        if nd in (None, 0):
            return core.sym_rint(x)
        return core.sym_rint(x * 10 ** nd) / 10 ** nd
    return builtins.round(x) if nd is None else builtins.round(x, nd)


class MathFacade(types.ModuleType):
    def __getattr__(self, name):
        v = getattr(math, name)
        if not callable(v):
            return v
        table = {'sqrt': core.sym_sqrt, 'floor': core.sym_floor,
                 'ceil': lambda x: -core.sym_floor(-x), 'trunc': core.sym_trunc,
                 'fabs': abs, 'fsum': lambda xs: sum(xs),
                 'isclose': lambda a, b, rel_tol=1e-9, abs_tol=0.0: nparr.n_isclose(
                     a, b, rel_tol, abs_tol),
                 'isnan': lambda x: False, 'isinf': lambda x: False,
                 'isfinite': lambda x: True}

        def f(*a, **k):
            if not nparr.has_sym(list(a)):
                return v(*[nparr.native(x) for x in a], **k)
            if name in table:
                return table[name](*a, **k)
            if name in ('exp', 'log', 'cos', 'sin', 'pow', 'erf'):
                if name == 'log' and len(a) == 2:
                    return core.sym_fun('log', a[0]) / math.log(a[1])
                if name == 'pow':
                    return a[0] ** a[1]
                return core.sym_fun(name, *a)
            if name == 'log2':
                return core.sym_fun('log', a[0]) / math.log(2)
            if name == 'prod':
                r = 1
                for x in a[0]:
                    r = r * x
                return r
            raise Unsupported('math.%s on symbolic data' % name)
        return f


MATH = MathFacade('math')

EXTRA_MODULES = [
    'qiskit.quantum_info.analysis.average', 'qiskit.result.postprocess',
]


def load_ignis():
    if REPO != '/repo' and '/repo' in sys.path:     # development: a scratch copy
        sys.path[sys.path.index('/repo')] = REPO
    import qiskit  # noqa
    import qiskit.ignis
    path = os.path.realpath(list(qiskit.ignis.__path__)[0])
    if not path.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('qiskit.ignis is not imported from %s but from %s' % (REPO, path))
    for m in pkgutil.walk_packages(qiskit.ignis.__path__, 'qiskit.ignis.'):
        try:
            importlib.import_module(m.name)
        except ImportError:
            pass
    return qiskit.ignis


def _numeric_module(v):
    return isinstance(v, types.ModuleType) and (
        v is np or v.__name__.split('.')[0] in ('numpy', 'scipy'))


class Patcher:
    """make the ignis modules compute on symbolic values"""

    def __init__(self, stubs=None):
        self.stubs = stubs or {}
        self.saved = []
        self.facades = {}

    def facade(self, mod):
        f = self.facades.get(mod)
        if f is None:
            f = nparr.Facade(mod)
            self.facades[mod] = f
        return f

    def __enter__(self):
        mods = [m for n, m in list(sys.modules.items())
                if m is not None and (n == 'qiskit.ignis' or n.startswith('qiskit.ignis.')
                                      or n in EXTRA_MODULES)]
        for n in EXTRA_MODULES:
            if n not in sys.modules:
                try:
                    mods.append(importlib.import_module(n))
                except ImportError:
                    pass
        for m in mods:
            d = m.__dict__
            for k, v in list(d.items()):
                if k.startswith('__'):
                    continue
                nv = None
                if _numeric_module(v):
                    nv = self.facade(v)
                elif v is math:
                    nv = MATH
                elif isinstance(v, (types.FunctionType, types.BuiltinFunctionType)) or (
                        callable(v) and not isinstance(v, type) and
                        type(v).__module__.startswith('numpy')):
                    md = getattr(v, '__module__', None) or ''
                    if md.split('.')[0] in ('numpy', 'scipy') and not isinstance(v, np.ufunc):
                        if v in nparr.FACADE.values():
                            continue
                        nv = nparr.FACADE.get(v.__name__) if getattr(
                            np, v.__name__, None) is v else None
                        nv = nv or nparr._wrapf(v)
                    elif md == 'math':
                        nv = getattr(MATH, v.__name__)
                if nv is not None:
                    self.saved.append((d, k, v, True))
                    d[k] = nv
            for k, s in (('float', sh_float), ('int', sh_int), ('complex', sh_complex),
                         ('max', sh_max), ('min', sh_min), ('round', sh_round)):
                if k not in d:
                    self.saved.append((d, k, None, False))
                    d[k] = s
        return self

    def __exit__(self, *a):
        for d, k, v, had in reversed(self.saved):
            if had:
                d[k] = v
            else:
                d.pop(k, None)
        self.saved = []


_ACTIVE = []        # stack of active replacement lists [(dict, key, old, new)]


@contextlib.contextmanager
def replaced(pairs):
    """temporarily replace functions: pairs = [(real_obj, new_obj)], everywhere the
    real object is bound in ignis modules and in the module that defines it"""
    saved = []
    for real, new in pairs:
        try:
            new._pysym_stub = True
        except (AttributeError, TypeError):
            pass
        home = getattr(real, '__module__', '') or ''
        for n, m in list(sys.modules.items()):
            if m is None:
                continue
            if not (n.startswith('qiskit.ignis') or n == home
                    or n in ('scipy.optimize', 'scipy.linalg', 'qiskit', 'qiskit.quantum_info',
                             'qiskit.compiler', 'numpy.linalg', 'scipy.sparse')):
                continue
            for k, v in list(m.__dict__.items()):
                if v is real or (isinstance(v, types.FunctionType) and getattr(v, '_pysym_wrapped', None) is real):
                    saved.append((m.__dict__, k, v, new))
                    m.__dict__[k] = new
    _ACTIVE.append(saved)
    try:
        yield
    finally:
        _ACTIVE.remove(saved)
        for d, k, v, _ in reversed(saved):
            d[k] = v


@contextlib.contextmanager
def attr_replaced(items):
    """temporarily set attributes: items = [(object, name, value)]"""
    saved = []
    for o, k, v in items:
        saved.append((o, k, o.__dict__.get(k, _ACTIVE), v))
        setattr(o, k, v)
    rec = [('attr', saved)]
    _ACTIVE.append(rec)
    try:
        yield
    finally:
        _ACTIVE.remove(rec)
        _attr_restore(saved)


def _attr_restore(saved):
    for o, k, old, _ in reversed(saved):
        if old is _ACTIVE:
            try:
                delattr(o, k)
            except AttributeError:
                pass
        else:
            setattr(o, k, old)


@contextlib.contextmanager
def all_stubs_off():
    for rec in reversed(_ACTIVE):
        if rec and rec[0][0] == 'attr':
            _attr_restore(rec[0][1])
            continue
        for d, k, v, _ in reversed(rec):
            d[k] = v
    act = list(_ACTIVE)
    del _ACTIVE[:]
    try:
        yield
    finally:
        _ACTIVE.extend(act)
        for rec in _ACTIVE:
            if rec and rec[0][0] == 'attr':
                for o, k, _, v in rec[0][1]:
                    setattr(o, k, v)
                continue
            for d, k, _, new in rec:
                d[k] = new


# -------------------------------------------------------------- context ----
class Failure(Exception):
    """a property assertion failed on concrete values"""

    def __init__(self, label, detail=''):
        Exception.__init__(self, '%s %s' % (label, detail))
        self.label = label
        self.detail = detail


TOL = 1e-6


class Ctx:
    """common interface of symbolic and concrete harness runs"""
    sym = False

    # derived helpers -----------------------------------------------------
    def bit(self, name):
        return self.int(name, 0, 1)

    def bits(self, name, n):
        return [self.bit('%s%d' % (name, i)) for i in range(n)]

    def boolean(self, name):
        return self.int(name, 0, 1) == 1

    def cplx(self, name, lo=-1, hi=1):
        r = self.real(name + '.re', lo, hi)
        i = self.real(name + '.im', lo, hi)
        return core.mkc(r, i) if (is_sym(r) or is_sym(i)) else complex(r, i)

    def pick(self, name, seq):
        seq = list(seq)
        return seq[int(self.int(name, 0, len(seq) - 1))]

    def eq(self, a, b, label, tol=TOL):
        """a and b (numbers, arrays, nested lists) agree up to tol"""
        A, B = _flat_num(a), _flat_num(b)
        if len(A) != len(B):
            self.check(False, label + ' (sizes %d != %d)' % (len(A), len(B)))
            return
        cs = []
        for x, y in zip(A, B):
            cs.append(close(x, y, tol))
        self.check(And(*cs) if cs else True, label)

    def raises(self, exc, fn, label):
        try:
            fn()
        except exc:
            self.check(True, label)
            return
        self.check(False, label)


def _flat_num(x):
    out = []
    if isinstance(x, np.ndarray):
        return np.ndarray.ravel(x.view(np.ndarray)).tolist()
    if isinstance(x, (list, tuple)):
        for v in x:
            out.extend(_flat_num(v))
        return out
    if hasattr(x, 'data') and isinstance(getattr(x, 'data', None), np.ndarray):
        return _flat_num(x.data)
    return [x]


def close(x, y, tol=TOL):
    if not is_sym(x) and not is_sym(y):
        try:
            if x == y:
                return True
            return bool(abs(x - y) <= tol)
        except TypeError:
            return False
    try:
        xr, xi = re_im(x)
        yr, yi = re_im(y)
    except Unsupported:
        return False
    return And(_rclose(xr, yr, tol), _rclose(xi, yi, tol))


def _rclose(a, b, tol):
    d = a - b
    if not is_sym(d):
        return bool(abs(d) <= tol)
    e = (lift(a) == lift(b))
    if e is True:
        return True
    t = Fraction(tol).limit_denominator(10 ** 12)
    return And(d <= t, d >= -t)


class SymCtx(Ctx):
    sym = True

    def __init__(self, ex, ob):
        self.ex = ex
        self.ob = ob
        self.inputs = {}
        self.reached = 0

    def int(self, name, lo, hi):
        if name in self.inputs:
            raise RuntimeError('duplicate input ' + name)
        if lo == hi:
            self.inputs[name] = (None, 'const', lo)
            return lo
        v = z3.Int(name)
        i = ATOMS.add(('in', name), v, True, lo, hi)
        if lo == 0 and hi == 1:
            ATOMS.square[i] = core.p_atom(i)
        self.ex.solver.add(v >= lo, v <= hi)
        self.inputs[name] = (v, 'int', None)
        return SymNum(core.p_atom(i), core.P1, True)

    def real(self, name, lo, hi):
        if name in self.inputs:
            raise RuntimeError('duplicate input ' + name)
        v = z3.Real(name)
        lo, hi = Fraction(lo), Fraction(hi)
        i = ATOMS.add(('in', name), v, False, lo, hi)
        self.ex.solver.add(v >= z3.RealVal(str(lo)), v <= z3.RealVal(str(hi)))
        self.inputs[name] = (v, 'real', None)
        return SymNum(core.p_atom(i), core.P1, False)

    def assume(self, c):
        self.ex.assume(c)

    def check(self, c, label):
        self.reached += 1
        if isinstance(c, np.ndarray):
            c = And(*_flat_num(c))
        if isinstance(c, (list, tuple)):
            c = And(*c)
        self.ex.check(c, label)

    def valid(self, c):
        return self.ex.valid(c)

    def values(self, model):
        out = {}
        for n, (v, kind, const) in self.inputs.items():
            if kind == 'const':
                out[n] = const
                continue
            x = model.eval(v, model_completion=True)
            if kind == 'int':
                out[n] = x.as_long()
            else:
                if z3.is_algebraic_value(x):
                    x = x.approx(30)
                fr = Fraction(x.numerator_as_long(), x.denominator_as_long())
                out[n] = float(fr)
        return out


class ConcCtx(Ctx):
    """values: dict (replay) or None with rng (random fallback)"""

    def __init__(self, values=None, rng=None):
        self.given = values
        self.rng = rng
        self.inputs = {}
        self.reached = 0

    def int(self, name, lo, hi):
        if self.given is not None:
            v = int(self.given.get(name, lo))
        else:
            v = self.rng.randint(lo, hi)
        self.inputs[name] = v
        return v

    def real(self, name, lo, hi):
        if self.given is not None:
            v = float(self.given.get(name, lo))
        else:
            v = self.rng.uniform(float(lo), float(hi))
        self.inputs[name] = v
        return v

    def assume(self, c):
        if not _cb(c):
            raise PathAbort()

    def valid(self, c):
        return bool(c)

    def check(self, c, label):
        self.reached += 1
        if isinstance(c, np.ndarray):
            c = bool(np.all(c))
        if isinstance(c, (list, tuple)):
            c = all(bool(x) for x in c)
        if not bool(c):
            raise Failure(label)


def _cb(c):
    return bool(np.all(c))


# ----------------------------------------------------------- obligations ---
class Obligation:
    """one bounded claim: a harness, its bounds and what it stubs"""

    def __init__(self, name, harness, bounds='', max_paths=20000, time_limit=400,
                 stubs=(), query_ms=20000, patch=True, replay_models=6, thorough_only=False,
                 allow_exc=(), random_runs=40):
        self.name = name
        self.harness = harness
        self.bounds = bounds
        self.max_paths = max_paths
        self.time_limit = time_limit
        self.stubs = list(stubs)
        self.query_ms = query_ms
        self.patch = patch
        self.replay_models = replay_models
        self.thorough_only = thorough_only
        self.allow_exc = allow_exc
        self.random_runs = random_runs


class _Stop(Exception):
    pass


def run_concrete(ob, values=None, rng=None):
    """-> ('ok'|'fail'|'skip', label/detail, inputs)"""
    ctx = ConcCtx(values, rng)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            ob.harness(ctx)
        except PathAbort:
            return 'skip', 'assumption not met', ctx.inputs
        except Failure as f:
            return 'fail', f.label, ctx.inputs
        except Unsupported as e:    # the harness cannot observe this implementation
            return 'skip', str(e), ctx.inputs
        except Exception as e:  # noqa
            tb = traceback.extract_tb(e.__traceback__)
            where = tb[-1]
            if isinstance(e, AttributeError) and str(e.name or '').startswith('_') and \
                    not str(e.name).startswith('__') and '/checks/' in where.filename:
                # the harness looked for a private name this implementation does not have
                return 'skip', str(e), ctx.inputs
            return 'fail', 'raised %s: %s (%s:%s)' % (
                type(e).__name__, str(e)[:200], os.path.basename(where.filename),
                where.lineno), ctx.inputs
    return 'ok', '', ctx.inputs


class _FnTrace:
    def __init__(self):
        self.fns = set()

    def __call__(self, frame, event, arg):
        if event == 'call':
            fn = frame.f_code.co_filename
            if '/qiskit/ignis/' in fn:
                self.fns.add(fn.split('/qiskit/ignis/')[1][:-3].replace('/', '.') + '.' +
                             getattr(frame.f_code, 'co_qualname', frame.f_code.co_name))


def run_obligation(ob, tier, seed):
    """symbolic verdict for one obligation; returns a plain dict"""
    t0 = time.time()
    res = {'name': ob.name, 'bounds': ob.bounds, 'stubs': ob.stubs, 'status': 'proved',
           'violation': None, 'notes': [], 'functions': [], 'replayed': 0}
    ex = Explorer(max_paths=ob.max_paths, time_limit=ob.time_limit, query_ms=ob.query_ms)
    path_models = []
    tracer = _FnTrace()
    state = {'first': True, 'reached': 0, 'cex': 0}
    found = {}

    def confirm(label, neg, model, ctx):
        """replay a counterexample; try a few alternatives if it does not reproduce"""
        tried = 0
        while True:
            vals = ctx.values(model)
            with unpatched():
                st, lab, inp = run_concrete(ob, vals)
            state['cex'] += 1
            if st == 'fail':
                found['v'] = {'label': lab, 'values': vals, 'sym_label': label}
                raise _Stop()
            tried += 1
            if tried >= 8:
                break
            blk = [v != model.eval(v, model_completion=True)
                   for v, k, _ in ctx.inputs.values() if v is not None]
            ex.solver.push()
            ex.solver.add(z3.Or(blk)) if blk else None
            if not blk:
                ex.solver.pop()
                break
            r = ex._check(neg)
            m2 = ex._model() if r == z3.sat else None
            ex.solver.pop()
            if m2 is None:
                break
            model = m2
        res['notes'].append('counterexample for "%s" did not reproduce on the real code '
                            '(encoding imprecise there): %s' % (label, json.dumps(vals)[:300]))
        raise _Unconfirmed()

    class _Unconfirmed(Exception):
        pass

    patcher = {'p': None}

    @contextlib.contextmanager
    def unpatched():
        p = patcher['p']
        cur = core._CUR
        core._CUR = None
        sys.setprofile(None)
        try:
            with all_stubs_off():
                if p is not None:
                    p.__exit__(None, None, None)
                try:
                    yield
                finally:
                    if p is not None:
                        p.__enter__()
        finally:
            core._CUR = cur

    def harness(e):
        ctx = SymCtx(e, ob)
        first = state['first']
        state['first'] = False
        if first:
            sys.setprofile(tracer)
        e.on_cex = lambda label, neg, model: confirm(label, neg, model, ctx)
        try:
            try:
                ob.harness(ctx)
            except (PathAbort, BudgetExceeded, _Stop, _Unconfirmed):
                raise
            except Unsupported:
                raise
            except Exception as exc:  # the real code (or the engine) raised
                sys.setprofile(None)
                if e._check() != z3.sat:
                    raise PathAbort()
                vals = ctx.values(e._model())
                with unpatched():
                    st, lab, inp = run_concrete(ob, vals)
                if st == 'fail':
                    found['v'] = {'label': lab, 'values': vals,
                                  'sym_label': 'exception %s' % type(exc).__name__}
                    raise _Stop()
                tb = traceback.extract_tb(exc.__traceback__)
                raise Unsupported('%s: %s at %s:%s' % (
                    type(exc).__name__, str(exc)[:150],
                    os.path.basename(tb[-1].filename), tb[-1].lineno))
            state['reached'] += ctx.reached
            if len(path_models) < ob.replay_models or (
                    ex.stats.paths % 37 == 0 and len(path_models) < 3 * ob.replay_models):
                r = e._check()
                if r == z3.sat:
                    path_models.append(ctx.values(e._model()))
        finally:
            sys.setprofile(None)

    def late(signum, frame):
        raise BudgetExceeded('time budget')

    alarm = threading.current_thread() is threading.main_thread()
    if alarm:
        signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, min(ob.time_limit, 420 if tier == 'quick' else 1e5) + 10, 5)
    try:
        if ob.patch:
            patcher['p'] = Patcher()
            patcher['p'].__enter__()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ex.run(harness, None)
    except _Stop:
        res['status'] = 'violated'
        res['violation'] = found['v']
    except _Unconfirmed:
        res['status'] = 'degraded'
    except BudgetExceeded as e:
        res['status'] = 'degraded'
        res['notes'].append(str(e))
    except Unsupported as e:
        res['status'] = 'degraded'
        res['notes'].append('not encodable: %s' % str(e)[:300])
    except (z3.Z3Exception, RecursionError, MemoryError) as e:
        res['status'] = 'degraded'
        res['notes'].append('engine: %s' % str(e)[:300])
    finally:
        if alarm:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if patcher['p'] is not None:
            patcher['p'].__exit__(None, None, None)
            patcher['p'] = None
    if res['status'] == 'proved':
        if ex.incomplete:
            res['status'] = 'degraded'
            res['notes'] += sorted(set(ex.incomplete))[:5]
        elif state['reached'] == 0:
            res['status'] = 'degraded'
            res['notes'].append('vacuous: no assertion reached')
    res['functions'] = sorted(tracer.fns)
    # encoding validation: the models of explored paths, run on the unpatched code
    if res['status'] != 'violated':
        for vals in path_models:
            st, lab, inp = run_concrete(ob, vals)
            res['replayed'] += 1
            if st == 'fail':
                res['status'] = 'violated'
                res['violation'] = {'label': lab, 'values': vals,
                                    'sym_label': 'path model replayed on the real code'}
                break
    res['samples'] = path_models[:2]
    if res['status'] == 'degraded':
        rng = random.Random(seed)
        n = bad = 0
        while n < ob.random_runs and bad < ob.random_runs * 20:
            st, lab, inp = run_concrete(ob, None, rng)
            if st == 'skip':
                bad += 1
                continue
            n += 1
            if st == 'fail':
                # confirm that the recorded inputs reproduce it
                st2, lab2, _ = run_concrete(ob, inp)
                if st2 == 'fail':
                    res['status'] = 'violated'
                    res['violation'] = {'label': lab2, 'values': inp,
                                        'sym_label': 'fallback run (encoding not applicable)'}
                    break
        res['fallback_runs'] = n
    st = ex.stats
    res.update(paths=st.paths, aborted=st.aborted, queries=st.queries, forks=st.forks,
               checks=st.checks, solver_s=round(st.solver_s, 3), unknown=st.unknown,
               reached=state['reached'], wall_s=round(time.time() - t0, 2))
    return res
