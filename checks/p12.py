"""P12 characterization experiments: what the circuits measure and what the fitters report."""
import itertools
from fractions import Fraction

import numpy as np
import scipy.optimize
import contextlib
from qiskit import pulse
import qiskit.pulse.library as pulse_lib
from qiskit.test.mock import FakeOpenPulse3Q
from qiskit.circuit import Gate

from qiskit.ignis.characterization import coherence as coh
from qiskit.ignis.characterization import hamiltonian as ham
from qiskit.ignis.characterization import gates as gts
from qiskit.ignis.characterization import calibrations as cal
from qiskit.ignis.characterization.characterization_utils import time_to_ngates
from pysym.core import ATOMS, p_atom, p_add, p_mul, p_const

from checks.lib import *
from checks import circ as cc

EXPLANATION = (
    'The circuit generators are executed with a symbolic gate time, symbolic numbers of '
    'oscillations and symbolic artificial errors; the circuits they return are run through an '
    'independent Bloch-vector interpreter in which idling (relaxation, dephasing, detuning, ZZ '
    'coupling) and gate over-rotation are symbolic. z3 shows that the outcome probability of each '
    'clbit equals the curve the matching fitter fits, at the delay reported in xdata. The fitters '
    'run on real Result objects with symbolic counts / IQ values and curve_fit replaced by its '
    'contract: the data points, the fit problem and the derived quantities equal their definitions.')
OUTSIDE = ('more than 2 measured qubits, more than 3 circuits per experiment, more than 6 '
           'identity gates per section, convergence of the non-linear fit (scipy), plots, '
           'initial-guess heuristics, DRAG pulse fitting of get_single_q_pulse')
ASSUMPTIONS = ['curve_fit returns parameters and a covariance with non-negative diagonal',
               'idle noise acts identically for every identity gate of one qubit']

CF = scipy.optimize.curve_fit


# ------------------------------------------------------------- angles -------
class Angle:
    """integer multiple of one symbolic angle plus a constant"""
    def __init__(self, c, s, k=1, off=0.0):
        self.c, self.s, self.k, self.off = c, s, k, off

    def _new(self, k, off):
        return Angle(self.c, self.s, k, off)

    def __neg__(self):
        return self._new(-self.k, -self.off)

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return _omap(lambda v: self + v, o)
        if isinstance(o, Angle):
            if o.c is not self.c:
                raise Unsupported('sum of different symbolic angles')
            return self._new(self.k + o.k, self.off + o.off)
        return self._new(self.k, self.off + o)

    __radd__ = __add__

    def __sub__(self, o):
        return self + (-1 * o if isinstance(o, np.ndarray) else -o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return _omap(lambda v: self * v, o)
        if isinstance(o, Angle):
            raise Unsupported('product of angles')
        return self._new(self.k * o, self.off * o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._new(self.k / o, self.off / o)

    def __bool__(self):
        return True

    def __eq__(self, o):
        if isinstance(o, Angle):
            return self.k == o.k and self.off == o.off
        return False        # generic nonzero angle

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __float__(self):
        raise Unsupported('symbolic angle turned into a float')

    def cos_sin(self):
        k = self.k
        if abs(k - round(float(k))) > 1e-9:
            raise Unsupported('fractional multiple of a symbolic angle')
        k = int(round(float(k)))
        s1 = self.s if k >= 0 else -self.s
        c, s = 1, 0
        for _ in range(abs(k)):
            c, s = c * self.c - s * s1, s * self.c + c * s1
        co, so = cc._snap(math.cos(self.off)), cc._snap(math.sin(self.off))
        return c * co - s * so, s * co + c * so

    def cos(self):
        return self.cos_sin()[0]

    def sin(self):
        return self.cos_sin()[1]


def _omap(f, a):
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = f(a[i])
    return out if a.shape else out[()]


def angle(ctx, name):
    """a symbolic angle (Angle) or a float"""
    if ctx.sym:
        c = ctx.real(name + '.c', -1, 1)
        s = ctx.real(name + '.s', -1, 1)
        ci, si = _atom(c), _atom(s)
        ATOMS.square[si] = p_add(p_const(1), p_mul(p_atom(ci), p_atom(ci)), -1)
        ctx.ex.solver.add(ATOMS.expr[ci] * ATOMS.expr[ci] + ATOMS.expr[si] * ATOMS.expr[si] == 1)
        return Angle(c, s)
    if ctx.given is None:
        t = ctx.rng.uniform(-3, 3)
        c, s = math.cos(t), math.sin(t)
        ctx.inputs[name + '.c'], ctx.inputs[name + '.s'] = c, s
    else:
        c, s = ctx.real(name + '.c', -1, 1), ctx.real(name + '.s', -1, 1)
    return math.atan2(s, c)


def _atom(v):
    (mono,) = v.num.t
    i = mono[0]
    return i[0] if isinstance(i, tuple) else i


def trig(a):
    if isinstance(a, Angle):
        return a.cos_sin()
    if is_sym(a):
        a = lift_(a)
        return core.sym_fun('cos', a), core.sym_fun('sin', a)
    return cc._snap(math.cos(a)), cc._snap(math.sin(a))


def lift_(a):
    return core.lift(a)


def params_ok():
    real = Gate.__dict__['validate_parameter']

    def validate_parameter(self, p):
        if is_sym(p) or isinstance(p, Angle):
            return p
        return real(self, p)
    return attr_replaced([(Gate, 'validate_parameter', validate_parameter)])


# -------------------------------------------------- Bloch-vector semantics --
PAULI = [np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]


def so3(u):
    """3x3 rotation of a 1-qubit unitary"""
    return [[cc._snap(np.trace(PAULI[i + 1] @ u @ PAULI[j + 1] @ u.conj().T).real / 2)
             for j in range(3)] for i in range(3)]


def rot(m, v):
    out = []
    for row in m:
        acc = 0
        for a, b in zip(row, v):
            if not is_sym(a) and a == 0:
                continue
            acc = acc + (b if not is_sym(a) and a == 1 else a * b)
        out.append(acc)
    return out


def axis_rot(ax, c, s):
    """rotation about a unit vector"""
    x, y, z = ax
    return [[c + x * x * (1 - c), x * y * (1 - c) - z * s, x * z * (1 - c) + y * s],
            [y * x * (1 - c) + z * s, c + y * y * (1 - c), y * z * (1 - c) - x * s],
            [z * x * (1 - c) - y * s, z * y * (1 - c) + x * s, c + z * z * (1 - c)]]


def bloch(circ, idle=None, after=None, cx=None):
    """{clbit: probability of reading 1}. idle(q, v, state): effect of one identity gate;
    after(q, v, R): extra error after a gate with rotation R; cx: rotation of the target"""
    st = [[0, 0, 1] for _ in circ.qubits]
    out = {}
    done = set()
    for name, params, qs, cs, cond, inst in cc.flat(circ):
        if cond is not None:
            raise Unsupported('conditional gate')
        if name in ('barrier',):
            continue
        q = qs[0]
        if name == 'measure':
            out[cs[0]] = (1 - st[q][2]) / 2
            done.add(q)
            continue
        if any(x in done for x in qs):
            raise Unsupported('gate after the measurement')
        if name == 'id':
            if idle:
                st[q] = idle(q, st[q], st)
            continue
        if name == 'cx':
            z = st[q][2]
            if is_sym(z) or abs(z) != 1:
                raise Unsupported('control of the cx is not in a basis state')
            if z == -1:
                st[qs[1]] = rot(cx if cx else [[1, 0, 0], [0, -1, 0], [0, 0, -1]], st[qs[1]])
            continue
        if len(qs) != 1:
            raise Unsupported('gate %s' % name)
        if name in ('u1', 'p', 'rz') and any(is_sym(p) or isinstance(p, Angle) for p in params):
            c, s = trig(params[0])
            R = [[c, -s, 0], [s, c, 0], [0, 0, 1]]
        else:
            R = so3(cc.gate_matrix(inst))
        st[q] = rot(R, st[q])
        if after:
            st[q] = after(q, st[q], R)
    return out


def over_rotation(c, s):
    """extra rotation by a small angle about the axis of every pi/2 pulse"""
    def after(q, v, R):
        if any(is_sym(x) for r in R for x in r):
            return v
        tr = R[0][0] + R[1][1] + R[2][2]
        if abs(tr - 1) > 1e-9:       # not a quarter turn
            return v
        ax = [cc._snap((R[2][1] - R[1][2]) / 2), cc._snap((R[0][2] - R[2][0]) / 2),
              cc._snap((R[1][0] - R[0][1]) / 2)]
        if ax[2] != 0:
            return v
        return rot(axis_rot(ax, c, s), v)
    return after


def spow(x, k):
    acc = 1
    for _ in range(k):
        acc = acc * x
    return acc


def one_clbit_per_qubit(ctx, out, nq):
    ctx.check(sorted(out) == list(range(nq)), 'every clbit is written')


QLISTS = [[0], [2, 0], [1, 3]]


def _setup(ctx, maxn=2, ncirc=2):
    """qubits, increasing numbers of gates, gate time"""
    qubits = ctx.pick('qubits', QLISTS)
    ns = []
    last = 0
    for i in range(ncirc):
        last = last + int(ctx.int('n%d' % i, 1, maxn))
        ns.append(last)
    gt = ctx.real('gate_time', Fraction(1, 10), 10)
    return qubits, ns, gt


def _ngates(ctx, ns):
    """list or array, both documented"""
    return list(ns) if int(ctx.bit('aslist')) else np.array(ns)


def t1_circuits(ctx):
    qubits, ns, gt = _setup(ctx)
    circs, x = coh.t1_circuits(_ngates(ctx, ns), gt, qubits)
    r = [ctx.real('r%d' % q, 0, 1) for q in range(4)]
    g = [ctx.real('g%d' % q, 0, 1) for q in range(4)]
    ctx.check(len(circs) == len(ns) and len(x) == len(ns), 'one circuit and delay per length')

    def idle(q, v, st):
        return [g[q] * v[0], g[q] * v[1], 1 - r[q] * (1 - v[2])]
    for j, n in enumerate(ns):
        ctx.eq(x[j], gt * n, 'delay is gate time times identity gates')
        out = bloch(circs[j], idle)
        one_clbit_per_qubit(ctx, out, len(qubits))
        for i, q in enumerate(qubits):
            ctx.eq(out[i], spow(r[q], n), 'T1: P(1) of clbit %d decays per gate' % i)


def _detuned(ctx, q):
    lam = ctx.real('lam%d' % q, 0, 1)
    a = angle(ctx, 'phi%d' % q)
    c, s = trig(a)

    def f(v):
        return [lam * (c * v[0] - s * v[1]), lam * (s * v[0] + c * v[1]), v[2]]
    return lam, c, s, f


def t2star_circuits(ctx):
    qubits, ns, gt = _setup(ctx)
    nosc = ctx.int('nosc', 0, 5)
    with params_ok():
        circs, x, freq = coh.t2star_circuits(_ngates(ctx, ns), gt, qubits, nosc)
    dn = {q: _detuned(ctx, q) for q in qubits}
    ctx.check(len(circs) == len(ns) and len(x) == len(ns), 'one circuit and delay per length')
    ctx.eq(freq * gt * ns[-1], nosc, 'induced frequency gives nosc oscillations')

    def idle(q, v, st):
        return dn[q][3](v)
    for j, n in enumerate(ns):
        ctx.eq(x[j], gt * n, 'delay is gate time times identity gates')
        out = bloch(circs[j], idle)
        one_clbit_per_qubit(ctx, out, len(qubits))
        ct, s_t = trig(2 * np.pi * freq * x[j])
        for i, q in enumerate(qubits):
            lam, c, s, _ = dn[q]
            cn, sn = 1, 0
            for _ in range(n):
                cn, sn = cn * c - sn * s, sn * c + cn * s
            ctx.eq(1 - out[i], (1 + spow(lam, n) * (ct * cn - s_t * sn)) / 2,
                   'T2*: P(0) oscillates with the induced plus the detuning frequency')


def t2_circuits(nechos):
    def h(ctx):
        qubits, ns, gt = _setup(ctx)
        alt = bool(int(ctx.bit('alt')))
        circs, x = coh.t2_circuits(_ngates(ctx, ns), gt, qubits, n_echos=nechos,
                                   phase_alt_echo=alt)
        dn = {q: _detuned(ctx, q) for q in qubits}

        def idle(q, v, st):
            return dn[q][3](v)
        ctx.check(len(circs) == len(ns) and len(x) == len(ns), 'one circuit and delay per length')
        signs = set()
        for j, n in enumerate(ns):
            ctx.eq(x[j], gt * 2 * n * nechos, 'delay counts every identity gate')
            out = bloch(circs[j], idle)
            one_clbit_per_qubit(ctx, out, len(qubits))
            for i, q in enumerate(qubits):
                lam = dn[q][0]
                d = 2 * (1 - out[i]) - 1
                dec = spow(lam, 2 * n * nechos)
                # refocused: independent of the detuning, same sign for every length
                if ctx.valid(close(d, dec)):
                    signs.add(1)
                else:
                    ctx.eq(d, -dec, 'T2: echo refocuses the detuning, P(0) decays to 1/2')
                    signs.add(-1)
        if nechos <= 2 and not alt:
            ctx.check(signs == {1 if nechos % 2 == 1 else -1} or len(signs) == 1,
                      'decay starts at the same level for every length')
    return h


def zz_circuits(ctx):
    pairs = ctx.pick('pairs', [([0], [1]), ([2, 0], [1, 3])])
    qubits, spect = list(pairs[0]), list(pairs[1])
    ns = [1, 1 + int(ctx.int('n1', 1, 2))]
    gt = ctx.real('gate_time', Fraction(1, 10), 10)
    nosc = ctx.int('nosc', 0, 5)
    with params_ok():
        circs, x, freq = ham.zz_circuits(_ngates(ctx, ns), gt, qubits, spect, nosc)
    ctx.check(len(circs) == 2 * len(ns) and len(x) == len(ns), 'two series of circuits')
    ctx.eq(freq * gt * ns[-1], nosc, 'induced frequency gives nosc oscillations')
    det, zz = {}, {}
    for q in qubits:
        det[q], zz[q] = trig(angle(ctx, 'd%d' % q)), trig(angle(ctx, 'z%d' % q))
    partner = dict(zip(qubits, spect))

    def idle(q, v, st):
        if q not in partner:
            return v
        c, s = det[q]
        z = st[partner[q]][2]
        if is_sym(z) or abs(z) != 1:
            raise Unsupported('spectator is not in a basis state')
        if z == -1:
            c, s = c * zz[q][0] - s * zz[q][1], s * zz[q][0] + c * zz[q][1]
        return [c * v[0] - s * v[1], s * v[0] + c * v[1], v[2]]
    by = {c.name: c for c in circs}
    for j, n in enumerate(ns):
        ctx.eq(x[j], gt * n, 'delay is gate time times identity gates')
        ct, s_t = trig(2 * np.pi * freq * x[j])
        for fl in (0, 1):
            out = bloch(by['zzcircuit_%d_%d' % (j, fl)], idle)
            one_clbit_per_qubit(ctx, out, len(qubits))
            for i, q in enumerate(qubits):
                c, s = det[q]
                if fl:
                    c, s = c * zz[q][0] - s * zz[q][1], s * zz[q][0] + c * zz[q][1]
                cn, sn = 1, 0
                for _ in range(n):
                    cn, sn = cn * c - sn * s, sn * c + cn * s
                ctx.eq(1 - out[i], (1 + ct * cn - s_t * sn) / 2,
                       'ZZ: series %d has the spectator in state %d' % (fl, fl))


def zz_refuses(ctx):
    ctx.raises(ValueError, lambda: ham.zz_circuits(np.array([1, 2]), 1.0, [0, 1], [2]),
               'as many spectators as qubits')
    ctx.raises(ValueError, lambda: ham.zz_circuits(np.array([1, 2]), 1.0, [0, 1], [1, 2]),
               'spectators differ from the qubits')
    ctx.raises(ValueError, lambda: coh.t2_circuits([1, 2], 1.0, [0], n_echos=0),
               'at least one echo')


def gate_circuits(kind, reps):
    def h(ctx):
        e = angle(ctx, 'e')
        c, s = trig(e)
        two_e = e + e
        p0, b = [0.1, 0.5], ([-np.pi, -1], [np.pi, 1])
        with params_ok():
            if kind == 'amp1q':
                qubits = ctx.pick('qubits', QLISTS)
                circs, x = gts.ampcal_1Q_circuits(reps, qubits)
                fit = gts.AmpCalFitter(None, x, qubits, p0, b)
                outs = [bloch(q, after=over_rotation(c, s)) for q in circs]
                want = [(1, e)] * len(qubits)
            elif kind == 'angle1q':
                qubits = ctx.pick('qubits', QLISTS)
                circs, x = gts.anglecal_1Q_circuits(reps, qubits, angleerr=e)
                fit = gts.AngleCalFitter(None, x, qubits, p0, b)
                outs = [bloch(q) for q in circs]
                want = [(1, two_e)] * len(qubits)
            else:
                qubits, ctrl = ctx.pick('qubits', [([0], [1]), ([2, 0], [1, 3])])
                if kind == 'ampcx':
                    circs, x = gts.ampcal_cx_circuits(reps, qubits, ctrl)
                    fit = gts.AmpCalCXFitter(None, x, qubits, p0, b)
                    R = [[1, 0, 0], [0, -c, s], [0, -s, -c]]      # rotation by pi+e about x
                    outs = [bloch(q, cx=R) for q in circs]
                    want = [(1, e)] * len(qubits)
                else:
                    circs, x = gts.anglecal_cx_circuits(reps, qubits, ctrl, angleerr=e)
                    fit = gts.AngleCalCXFitter(None, x, qubits, p0, b)
                    outs = [bloch(q) for q in circs]
                    want = [(1, two_e)] * len(qubits)
        ctx.check(len(circs) == reps and len(x) == reps, 'one circuit per repetition count')
        step = {'amp1q': 2, 'angle1q': 2, 'ampcx': 1, 'anglecx': 1}[kind]
        ctx.check([int(v) for v in x] == [step * k for k in range(reps)], 'repetitions in xdata')
        off = ctx.real('off', 0, 1)
        for j in range(reps):
            one_clbit_per_qubit(ctx, outs[j], len(qubits))
            for i in range(len(qubits)):
                y = fit.fit_fun(int(x[j]), want[i][1], off)
                ctx.eq(outs[j][i] - Fraction(1, 2) if ctx.sym else outs[j][i] - 0.5, y - off,
                       '%s: population follows the fitted curve' % kind)
    return h


# -------------------------------------------------------------- fit models --
def fit_models(ctx):
    x = ctx.real('x', 0, 10)
    a, f, ph, c = [ctx.real(k, -2, 2) for k in 'afpc']
    tau = ctx.real('tau', Fraction(1, 4), 8)
    p3, p5, p4 = [1, 1, 1], [1] * 5, [1] * 4

    def b(n):
        return ([-10] * n, [10] * n)
    xd = [1.0, 2.0]
    ex = sexp(-x / tau)

    def co(v):
        return core.sym_fun('cos', v) if is_sym(v) else math.cos(v)
    for fit in (coh.T1Fitter(None, xd, [0], p3, b(3)), coh.T2Fitter(None, xd, [0], p3, b(3))):
        ctx.eq(fit.fit_fun(x, a, tau, c), a * ex + c, 'exponential decay model')
    fit = coh.T2StarFitter(None, xd, [0], p5, b(5))
    w = co(2 * np.pi * f * x + ph)
    ctx.eq(fit.fit_fun(x, a, tau, f, ph, c), a * ex * w + c, 'decaying oscillation model')
    for fit in (ham.ZZFitter(None, xd, [0], [1], p4, b(4)), cal.RabiFitter(None, xd, [0], p4)):
        ctx.eq(fit.fit_fun(x, a, f, ph, c), a * w + c, 'oscillation model')
    fit = cal.DragFitter(None, xd, [0], p3)
    ctx.eq(fit.fit_fun(x, a, f, c), a * (x - f) * (x - f) + c, 'parabola model')


class Fit:
    """contract stub of curve_fit; records its calls"""

    def __init__(self, ctx, npar, lo=Fraction(1, 10), hi=5):
        self.ctx, self.npar, self.calls, self.lo, self.hi = ctx, npar, [], lo, hi

    def __call__(self, f, xdata, ydata, p0=None, sigma=None, absolute_sigma=False,
                 check_finite=None, bounds=None, **kw):
        k, ctx, n = len(self.calls), self.ctx, self.npar
        par = [ctx.real('fit%d.p%d' % (k, i), self.lo, self.hi) for i in range(n)]
        err = [ctx.real('fit%d.e%d' % (k, i), 0, 1) for i in range(n)]
        off = ctx.real('fit%d.cov' % k, -1, 1)
        cov = [[err[i] * err[i] if i == j else off for j in range(n)] for i in range(n)]
        self.calls.append(dict(f=f, x=list(xdata), y=list(ydata), p0=p0, sigma=sigma,
                               bounds=bounds, par=par, err=err))
        return arr(par), arr(cov)


KINDS = {
    't1': dict(npar=3, state='1', tag='t1circuit_%d_%s'),
    't2': dict(npar=3, state='0', tag='t2circuit_%d_%s'),
    't2star': dict(npar=5, state='0', tag='t2starcircuit_%d_%s'),
    'zz': dict(npar=4, state='0', tag='zzcircuit_%d_%s', series=['0', '1']),
    'amp1q': dict(npar=2, state='1', tag='ampcal1Qcircuit_%d_%s'),
    'angle1q': dict(npar=2, state='1', tag='anglecal1Qcircuit_%d_%s'),
    'ampcx': dict(npar=2, state='1', tag='ampcalcxcircuit_%d_%s'),
    'anglecx': dict(npar=2, state='1', tag='anglecalcxcircuit_%d_%s'),
}


def names_of(kind, ncirc):
    """names the generators really give to their circuits: {(j, series): name}"""
    q, s = [0, 1], [2, 3]
    n = list(range(1, ncirc + 1))
    if kind == 't1':
        cs = coh.t1_circuits(n, 1.0, q)[0]
    elif kind == 't2':
        cs = coh.t2_circuits(n, 1.0, q)[0]
    elif kind == 't2star':
        cs = coh.t2star_circuits(n, 1.0, q)[0]
    elif kind == 'zz':
        cs = ham.zz_circuits(np.array(n), 1.0, q, s)[0]
        return {(j % ncirc, str(j // ncirc)): c.name for j, c in enumerate(cs)}
    elif kind == 'amp1q':
        cs = gts.ampcal_1Q_circuits(ncirc, q)[0]
    elif kind == 'angle1q':
        cs = gts.anglecal_1Q_circuits(ncirc, q)[0]
    elif kind == 'ampcx':
        cs = gts.ampcal_cx_circuits(ncirc, q, s)[0]
    else:
        cs = gts.anglecal_cx_circuits(ncirc, q, s)[0]
    return {(j, '0'): c.name for j, c in enumerate(cs)}


def make_fitter(kind, res, x, qubits, p0, b):
    if kind == 't1':
        return coh.T1Fitter(res, x, qubits, p0, b)
    if kind == 't2':
        return coh.T2Fitter(res, x, qubits, p0, b)
    if kind == 't2star':
        return coh.T2StarFitter(res, x, qubits, p0, b)
    if kind == 'zz':
        return ham.ZZFitter(res, x, qubits, [q + 4 for q in qubits], p0, b)
    cls = {'amp1q': gts.AmpCalFitter, 'angle1q': gts.AngleCalFitter,
           'ampcx': gts.AmpCalCXFitter, 'anglecx': gts.AngleCalCXFitter}[kind]
    return cls(res, x, qubits, p0, b)


def check_ydata(ctx, fit, kind, x, nq, per, series, label):
    state = KINDS[kind]['state']
    yd = fit.ydata
    for sr in series:
        ctx.check(len(yd[sr]) == nq, label + ': one entry per qubit')
        for i in range(nq):
            ctx.check(len(yd[sr][i]['mean']) == len(x), label + ': one point per delay')
            for j in range(len(x)):
                cl = per[j, sr]
                tot = ssum([total(c) for c in cl])
                hit = ssum([v for c in cl for k, v in c.items() if k[nq - 1 - i] == state])
                p = hit / tot
                ctx.eq(yd[sr][i]['mean'][j], p, label + ': mean is the pooled frequency')
                sd = yd[sr][i]['std'][j]
                ctx.check(sd > 0, label + ': deviation positive')
                ctx.check(Or(close(sd * sd * tot, p * (1 - p), 1e-9), p <= 0, p >= 1),
                          label + ': binomial deviation')


def check_fits(ctx, fit, calls, x, nq, p0, b, series, label):
    ctx.check(len(calls) == nq * len(series), label + ': one fit per qubit and series')
    k = 0
    for sr in series:
        for i in range(nq):
            c = calls[k]
            k += 1
            ctx.eq(c['x'], list(x), label + ': delays are fitted')
            ctx.eq(c['y'], list(fit.ydata[sr][i]['mean']), label + ': means are fitted')
            ctx.eq(list(c['sigma']), list(fit.ydata[sr][i]['std']), label + ': weights')
            ctx.check(list(c['p0']) == list(p0) and [list(v) for v in c['bounds']] ==
                      [list(v) for v in b], label + ': initial values and bounds')
            ctx.eq(list(fit.params[sr][i]), c['par'], label + ': parameters')
            ctx.eq(list(fit.params_err[sr][i]), c['err'], label + ': parameter errors')


def check_derived(ctx, fit, kind, calls, nq, label):
    P = [c['par'] for c in calls]
    E = [c['err'] for c in calls]
    if kind in ('t1', 't2', 't2star'):
        ctx.eq(list(fit.time()), [p[1] for p in P], label + ': characteristic times')
        ctx.eq(list(fit.time_err()), [e[1] for e in E], label + ': their errors')
        for i in range(nq):
            ctx.eq(fit.time(i), P[i][1], label + ': time of a qubit')
            ctx.eq(fit.time_err(i), E[i][1], label + ': time error of a qubit')
    elif kind == 'zz':
        ctx.eq(list(fit.ZZ_rate()), [P[nq + i][1] - P[i][1] for i in range(nq)],
               label + ': ZZ is the frequency with the spectator excited minus ground')
        for i in range(nq):
            ctx.eq(fit.ZZ_rate(i), P[nq + i][1] - P[i][1], label + ': ZZ of a qubit')
    else:
        ctx.eq(list(fit.angle_err()), [p[0] / 2 for p in P], label + ': angle errors')
        for i in range(nq):
            ctx.eq(fit.angle_err(i), P[i][0] / 2, label + ': angle error of a qubit')


def counts_fitter(kind, how, ncirc=2, nq=2, zero=False):
    """counts of every circuit spread over results; the data, the fits, the outcome"""
    def h(ctx):
        d = KINDS[kind]
        series = d.get('series', ['0'])
        names = names_of(kind, ncirc)
        qubits = [3, 1][:nq]
        x = [0.5 * (j + 1) for j in range(ncirc)]
        per = {key: [] for key in names}
        lo = 0 if zero else 1

        def cnt(tag):
            return {k: ctx.int('%s[%s]' % (tag, k), lo, 500) for k in bitstrings(nq)}
        nres = {'one': 1, 'list': 2, 'add': 2, 'splitcirc': 2, 'addlist': 3}[how]
        results = []
        for r in range(nres):
            exps = []
            for (j, sr), nm in names.items():
                if how == 'splitcirc' and (j + int(sr)) % 2 != r:
                    continue
                c = cnt('c%d.%d.%s' % (r, j, sr))
                if zero:
                    ctx.assume(total(c) >= 1)
                per[j, sr].append(c)
                exps.append(exp_result(nm, nq, counts=c))
            results.append(result(exps))
        p0 = [0.1 * (i + 1) for i in range(d['npar'])]
        b = ([-1.0] * d['npar'], [9.0] * d['npar'])
        stub = Fit(ctx, d['npar'])
        with replaced([(CF, stub)]):
            if how == 'add':
                fit = make_fitter(kind, results[0], x, qubits, p0, b)
                n0 = len(stub.calls)
                fit.add_data(results[1])
                calls = stub.calls[n0:]
            elif how == 'addlist':
                fit = make_fitter(kind, [results[0]], x, qubits, p0, b)
                n0 = len(stub.calls)
                fit.add_data(results[1:], recalc=True, refit=True)
                calls = stub.calls[n0:]
            else:
                fit = make_fitter(kind, results[0] if how == 'one' else results, x, qubits, p0, b)
                calls = stub.calls
        if not stub.calls:
            raise Unsupported('curve_fit was not called')
        lab = '%s %s' % (kind, how)
        check_ydata(ctx, fit, kind, x, nq, per, series, lab)
        check_fits(ctx, fit, calls, x, nq, p0, b, series, lab)
        check_derived(ctx, fit, kind, calls, nq, lab)
        ctx.check(list(fit.measured_qubits) == qubits and len(fit.backend_result) == nres,
                  lab + ': qubits and results kept')
    return h


def refit_subset(ctx):
    """refitting one qubit (of one series) leaves the other parameters alone"""
    names = names_of('zz', 1)
    exps = []
    for (j, sr), nm in names.items():
        exps.append(exp_result(nm, 2, counts={k: ctx.int('c%s[%s]' % (sr, k), 1, 500)
                                              for k in bitstrings(2)}))
    p0, b = [1, 2, 3, 4], ([0] * 4, [9] * 4)
    stub = Fit(ctx, 4)
    with replaced([(CF, stub)]):
        fit = ham.ZZFitter(result(exps), [1.0], [0, 1], [2, 3], p0, b)
        old = {(sr, i): [list(fit.params[sr][i]), list(fit.params_err[sr][i])]
               for sr in '01' for i in (0, 1)}
        n0 = len(stub.calls)
        q = int(ctx.bit('q'))
        sr = str(int(ctx.bit('series')))
        fit.fit_data(qid=q, p0=[5, 6, 7, 8], bounds=([1] * 4, [8] * 4), series=sr)
    if n0 == 0:
        raise Unsupported('curve_fit was not called')
    new = stub.calls[n0:]
    ctx.check(len(new) == 1, 'one fit for one qubit and series')
    c = new[0]
    ctx.check(list(c['p0']) == [5, 6, 7, 8] and list(c['bounds'][0]) == [1] * 4, 'given p0, bounds')
    ctx.eq(c['y'], list(fit.ydata[sr][q]['mean']), 'data of that qubit and series')
    for (s2, i), (pa, er) in old.items():
        if (s2, i) == (sr, q):
            pa, er = c['par'], c['err']
        ctx.eq(list(fit.params[s2][i]), pa, 'parameters of the others unchanged')
        ctx.eq(list(fit.params_err[s2][i]), er, 'errors of the others unchanged')


# ------------------------------------------------------------- IQ fitters ---
def iq_make(kind, res, x, qubits, p0):
    return (cal.RabiFitter if kind == 'rabi' else cal.DragFitter)(res, x, qubits, p0)


def iq_names(kind, n):
    return ['%ssched_%d_0' % (kind, j) for j in range(n)]


def iq_fitter(kind, how, direction):
    """IQ points of every qubit on a line; averaged over results by their shots"""
    def h(ctx):
        nq, nj = 2, 3
        qubits = [1, 0]
        names = iq_names(kind, nj)
        npar = 4 if kind == 'rabi' else 3
        nres = 1 if how == 'single1' else 2
        single = how.startswith('single')
        shots = [[(1 + (r + j) % 2) * (1 if single else 100) for j in range(nj)]
                 for r in range(nres)]
        # single shots: those of one qubit in one schedule are symbolic
        who = ctx.pick('qubit', [0, 1]) if single else 0
        # positions along the line; direction of the line per qubit
        dirs = [direction, (direction[1], -direction[0])]
        t = {}
        results = []
        for r in range(nres):
            exps = []
            for j, nm in enumerate(names):
                rows = []
                for k in range(shots[r][j] if single else 1):
                    row = []
                    for i in range(nq):
                        if single and (j != 0 or i != who):
                            v = (5 * r + 3 * j + 7 * k + 2 * i) % 5 - (8 if j else 0)
                        else:
                            v = ctx.int('t%d.%d.%d.%d' % (r, j, k, i), 1 if single else -8, 8)
                        t[r, j, k, i] = v
                        row.append([v * dirs[i][0] + 3, v * dirs[i][1] - 2])
                    rows.append(row)
                exps.append(exp_result(nm, nq, memory=rows if single else rows[0],
                                       shots=shots[r][j], meas_level=1,
                                       meas_return='single' if single else 'avg'))
            results.append(result(exps))
        mean = {}
        for j in range(nj):
            tot = sum(shots[r][j] for r in range(nres))
            for i in range(nq):
                if single:
                    mean[j, i] = ssum([t[r, j, k, i] for r in range(nres)
                                       for k in range(shots[r][j])]) / tot
                else:
                    mean[j, i] = ssum([t[r, j, 0, i] * shots[r][j] for r in range(nres)]) / tot
        for i in range(nq):      # some signal, so that there is a direction to project on
            ctx.assume(mean[0, i] - mean[1, i] >= 1)
        stub = Fit(ctx, npar)
        x, p0 = [0.1, 0.2, 0.3], [1.0] * npar
        with iq_env(ctx), replaced([(CF, stub)]):
            fit = iq_make(kind, results if nres > 1 else results[0], x, qubits, p0)
        if not stub.calls:
            raise Unsupported('curve_fit was not called')
        for i in range(nq):
            y = list(fit.ydata['0'][i]['mean'])
            m = ssum([mean[j, i] for j in range(nj)]) / nj
            n2 = dirs[i][0] ** 2 + dirs[i][1] ** 2
            want = [(mean[j, i] - m) * math.sqrt(n2) for j in range(nj)]
            ctx.check(Or(And(*[close(a, w, 1e-6) for a, w in zip(y, want)]),
                         And(*[close(a, -w, 1e-6) for a, w in zip(y, want)])),
                      'IQ points on a line keep their distances (shot-weighted means)')
            for v in fit.ydata['0'][i]['std']:
                ctx.check(v > 0, 'deviation positive')
            c = stub.calls[i]
            ctx.eq(c['y'], y, 'projected means are fitted')
            ctx.eq(c['x'], x, 'amplitudes are fitted')
        if kind == 'rabi':
            ctx.eq([v * 2 * c['par'][1] for v, c in zip(fit.pi_amplitude(), stub.calls)], [1, 1],
                   'pi pulse is half a period')
            for i in range(nq):
                ctx.eq(fit.pi_amplitude(i) * 2 * stub.calls[i]['par'][1], 1, 'pi pulse of a qubit')
                ctx.eq(fit.pi2_amplitude(i) * 2, fit.pi_amplitude(i), 'pi/2 is half the pi pulse')
        else:
            ctx.eq(list(fit.drag_amplitude()), [c['par'][1] for c in stub.calls], 'drag amplitude')
            for i in range(nq):
                ctx.eq(fit.drag_amplitude(i), stub.calls[i]['par'][1], 'drag amplitude of a qubit')
    return h


def ngates(ctx):
    gt = ctx.real('gate_time', Fraction(1, 10), 4)
    ts = [ctx.real('t%d' % i, 0, 20) for i in range(3)]
    for t in ts:
        # away from ties
        r = t / gt
        ctx.assume(r <= 40)
    out = time_to_ngates(ts, gt)
    for t, n in zip(ts, out):
        ctx.check(And((n - t / gt) <= Fraction(1, 2) if ctx.sym else n - t / gt <= 0.5 + 1e-9,
                      (n - t / gt) >= -Fraction(1, 2) if ctx.sym else n - t / gt >= -0.5 - 1e-9),
                  'nearest number of gates')


# --------------------------------------------------------- pulse schedules --
class PulseRec:
    """stands for the discrete pulse library: records the request, returns a marked waveform"""

    def __init__(self):
        self.req = {}

    def make(self, kind):
        def f(duration, amp, sigma, beta=None, name=None, **kw):
            k = len(self.req) + 1
            w = pulse.Waveform(np.full(duration, k / 1024.0), name=name)
            self.req[k] = dict(kind=kind, duration=duration, amp=amp, sigma=sigma, beta=beta)
            return w
        return f

    def of(self, p):
        return self.req[int(round(float(p.samples[0].real) * 1024))]


def samples(p):
    return np.asarray(p.samples if hasattr(p, 'samples') else p.get_waveform().samples)


def check_pulse(ctx, rec, p, want, label):
    if rec is None:
        args = {k: v for k, v in want.items() if k != 'kind' and v is not None}
        ref = getattr(pulse_lib, want['kind'])(**args)
        ctx.eq(samples(p), ref.samples, label)
        return
    got = rec.of(p)
    ctx.check(got['kind'] == want['kind'] and got['duration'] == want['duration'], label)
    for k in ('amp', 'sigma', 'beta'):
        if want.get(k) is not None:
            ctx.eq(got[k], want[k], label + ': ' + k)


BACK = FakeOpenPulse3Q()


def schedules(kind):
    def h(ctx):
        conf = BACK.configuration()
        inst_map = BACK.defaults().instruction_schedule_map
        qubits = ctx.pick('qubits', [[0], [1], [0, 1], [1, 0], [2, 0]])
        width = ctx.pick('width', [8, 12])
        xs = [ctx.real('x%d' % j, Fraction(1, 100), Fraction(9, 10)) for j in range(2)]
        amps = [ctx.real('amp%d' % i, Fraction(1, 100), Fraction(9, 10)) for i in range(len(qubits))]
        kw = {}
        if int(ctx.bit('givesigma')):
            sigma = kw['pulse_sigma'] = ctx.real('sigma', 1, 6)
        elif int(ctx.bit('giveratio')):
            ratio = kw['width_sigma_ratio'] = ctx.int('ratio', 2, 6)
            sigma = width / ratio
        else:
            sigma = width / 4
        rec = PulseRec() if ctx.sym else None
        env = attr_replaced([(pulse_lib, k, rec.make(k)) for k in ('gaussian', 'drag')]
                            if ctx.sym else [])
        kw.update(drives=[conf.drive(i) for i in range(3)], inst_map=inst_map,
                  meas_map=[[0, 1, 2]])
        with env:
            if kind == 'rabi':
                scheds, x = cal.rabi_schedules(xs, qubits, width, **kw)
            else:
                scheds, x = cal.drag_schedules(xs, qubits, amps, width, **kw)
        if ctx.sym and not rec.req:
            raise Unsupported('pulse library was not called')
        ctx.check(len(scheds) == len(xs), 'one schedule per value')
        ctx.eq(list(x), xs, 'values in xdata')
        npl = 1 if kind == 'rabi' else 2
        for j, sc in enumerate(scheds):
            ctx.check(sc.name == iq_names(kind, len(xs))[j], 'name the fitter looks for')
            plays, acq = {}, {}
            for t0, ins in sc.instructions:
                if isinstance(ins, pulse.Play) and isinstance(ins.channel, pulse.DriveChannel):
                    plays.setdefault(ins.channel.index, []).append((t0, ins.pulse))
                elif isinstance(ins, pulse.Acquire):
                    acq[ins.channel.index] = (t0, ins.mem_slot)
            ctx.check(sorted(plays) == sorted(qubits), 'drive pulses on the listed qubits')
            ctx.check(sorted(acq) == sorted(qubits), 'the listed qubits are measured')
            for i, q in enumerate(qubits):
                ctx.check(acq[q][1].index == i,
                          'qubit %d of the list is acquired into the slot the fitter reads' % i)
                ctx.check(acq[q][0] >= npl * width, 'measured after the pulses')
                pl = sorted(plays[q], key=lambda v: v[0])
                ctx.check(len(pl) == npl and [t for t, _ in pl] == [k * width for k in range(npl)],
                          'pulses back to back')
                if kind == 'rabi':
                    check_pulse(ctx, rec, pl[0][1], dict(kind='gaussian', duration=width,
                                                         amp=xs[j], sigma=sigma), 'rabi pulse')
                else:
                    for k, sg in ((0, 1), (1, -1)):
                        check_pulse(ctx, rec, pl[k][1],
                                    dict(kind='drag', duration=width, amp=sg * amps[i],
                                         sigma=sigma, beta=xs[j]), 'drag pulse %d' % k)
    return h


def u_gates(ctx):
    """u2, u3 as frame changes around quarter-turn pulses (virtual Z)"""
    back = FakeOpenPulse3Q()
    conf = back.configuration()
    im = back.defaults().instruction_schedule_map
    qubits = ctx.pick('qubits', [[0], [0, 1], [1]])
    drag = [dict(amp=0.1 + 0.1 * i, duration=8 + 4 * i, sigma=2 + i, beta=0.1) for i in range(3)]
    given = int(ctx.bit('sched'))
    pi2 = [pulse.Schedule(pulse.Play(pulse.Waveform(np.full(6 + i, 0.2 + 0.1 * i)),
                                     pulse.DriveChannel(i))) for i in range(3)]
    cal.update_u_gates(drag, pi2_pulse_schedules=pi2 if given else None, qubits=qubits,
                       inst_map=im, drives=[conf.drive(i) for i in range(3)])
    P = [ctx.real('P%d' % i, -3, 3) for i in range(3)]
    for q in qubits:
        ref = samples(pi2[q].instructions[0][1].pulse) if given else \
            pulse_lib.drag(**drag[q]).samples
        for gate, n, npulse in (('u2', 2, 1), ('u3', 3, 2)):
            with shiftable(ctx):
                sc = im.get(gate, q, **{'P%d' % i: P[i] for i in range(n)})
            ins = sorted(((t, i) for t, i in sc.instructions if i.channel == conf.drive(q)),
                         key=lambda v: (v[0], isinstance(v[1], pulse.Play)))
            frames, acc, plays = [], 0, []
            for t, i in ins:
                if isinstance(i, pulse.ShiftPhase):
                    acc = acc + i.phase
                elif isinstance(i, pulse.Play):
                    frames.append(acc)
                    acc = 0
                    plays.append(t)
                    ctx.eq(samples(i.pulse), ref, gate + ': the given quarter turn')
                else:
                    raise Unsupported('instruction %r' % (i,))
            frames.append(acc)
            d = len(ref)
            ctx.check(plays == [k * d for k in range(npulse)], gate + ': pulses back to back')
            # gate = Rz(-f_last) Rx(pi/2) ... Rx(pi/2) Rz(-f_0) up to a global phase
            if gate == 'u2':
                want = [math.pi / 2 - P[1], -P[0] - math.pi / 2]
            else:
                want = [-P[2], -P[0] - math.pi, math.pi - P[1]]
            for f, w in zip(frames, want):
                k = (f - w) / (2 * math.pi)
                ctx.check(Or(*[close(k, m, 1e-7) for m in (-2, -1, 0, 1, 2)]),
                          gate + ': frame change')
            # every channel in the frame of the drive follows it
            other = {}
            for t, i in sc.instructions:
                if isinstance(i, pulse.ShiftPhase) and i.channel != conf.drive(q):
                    other[i.channel] = other.get(i.channel, 0) + i.phase
            for ch, v in other.items():
                ctx.eq(v, ssum([i.phase for t, i in ins if isinstance(i, pulse.ShiftPhase)]),
                       gate + ': channels of the same frame')


def shiftable(ctx):
    return contextlib.nullcontext()


def obligations(tier):
    obs = [
        Obligation('T1 circuits', t1_circuits, 'qubit lists of 1-2 out of 4, 2 lengths up to 4 gates'),
        Obligation('T2* circuits', t2star_circuits, 'same; nosc 0..5'),
        Obligation('T2 circuits 1 echo', t2_circuits(1), '1 echo, lengths up to 4'),
        Obligation('T2 circuits 2 echoes', t2_circuits(2), '2 echoes'),
        Obligation('T2 circuits 3 echoes', t2_circuits(3), '3 echoes'),
        Obligation('ZZ circuits', zz_circuits, '1-2 qubit/spectator pairs, 2 lengths up to 3'),
        Obligation('invalid arguments refused', zz_refuses, 'concrete'),
        Obligation('amplitude error 1Q', gate_circuits('amp1q', 3), '3 repetitions, symbolic error'),
        Obligation('angle error 1Q', gate_circuits('angle1q', 3), '3 repetitions, symbolic error'),
        Obligation('amplitude error CX', gate_circuits('ampcx', 4), '4 repetitions, symbolic error'),
        Obligation('angle error CX', gate_circuits('anglecx', 4), '4 repetitions, symbolic error'),
        Obligation('fit models', fit_models, 'symbolic parameters'),
        Obligation('refit of one qubit', refit_subset, '2 qubits, 2 series'),
        Obligation('time to gates', ngates, '3 times'),
        Obligation('rabi schedules', schedules('rabi'), '1-2 of 3 qubits, 2 symbolic amplitudes'),
        Obligation('drag schedules', schedules('drag'), '1-2 of 3 qubits, 2 symbolic amplitudes'),
        Obligation('u2 and u3 updates', u_gates, '1-2 of 3 qubits, symbolic gate angles'),
    ]
    for _k in KINDS:
        for _how in ('one', 'add') if _k not in ('t1', 'zz') else ('one', 'list', 'add', 'splitcirc',
                                                                    'addlist'):
            obs.append(Obligation('%s fitter, data %s' % (_k, _how),
                                  counts_fitter(_k, _how, nq=1 if _how == 'addlist' else 2),
                                          '2 qubits, 2 circuits, counts 1..500 per outcome'))
    for _k in ('t1', 't2'):
        obs.append(Obligation('%s fitter, zero counts' % _k,
                                      counts_fitter(_k, 'one', 1, 1, zero=True),
                                      '1 qubit, 1 circuit, counts 0..500'))
    for _k in ('rabi', 'drag'):
        for _how in ('avg', 'single1', 'single'):
            for _d in ((3, 4), (1, 0)):
                obs.append(Obligation(
                    '%s IQ fitter %s direction %s' % (_k, _how, _d), iq_fitter(_k, _how, _d),
                    '2 qubits, 3 schedules, integer IQ positions -8..8 along a line'))
    return obs
