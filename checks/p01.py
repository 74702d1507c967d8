"""P01 CNOT-dihedral elements act as the operator they denote."""
import itertools
import math

import numpy as np
from qiskit.circuit import QuantumCircuit, QuantumRegister
from qiskit.circuit.library import U1Gate
from qiskit.exceptions import QiskitError
from qiskit.ignis.verification.randomized_benchmarking import CNOTDihedral, random_cnotdihedral

from checks.lib import *
from checks import circ as C

EXPLANATION = (
    'Elements with symbolic phase polynomial, shift and (enumerated by forking) linear part are '
    'pushed through the real group operations, circuit import and synthesis; z3 shows that the '
    'result acts on every basis state as the operator product / inverse / tensor / circuit it '
    'denotes, up to a global phase.')
OUTSIDE = ('more than 4 qubits for gate updates and tensor, 3 for products and synthesis; words '
           'longer than 3 gates in circuit import (each gate update is shown for an arbitrary '
           'element, so longer words follow by induction)')
ASSUMPTIONS = ['angles handed to phase gates are exact multiples of pi/4 as reals']


def terms(n):
    return [t for r in (1, 2, 3) for t in itertools.combinations(range(n), r)]


def weight(ctx, nm, t, nonzero=False):
    lo = 1 if nonzero else 0
    if len(t) == 1:
        return ctx.int(nm, lo, 7)
    if len(t) == 2:
        return 2 * ctx.int(nm, lo, 3)
    return 4 * ctx.int(nm, lo, 1)


def invertible(n):
    out = []
    for v in itertools.product((0, 1), repeat=n * n):
        m = np.array(v).reshape(n, n)
        if round(np.linalg.det(m)) % 2:
            out.append(m.tolist())
    return out


def some_invertible(n):
    """a spread of invertible matrices over Z2"""
    eye = np.eye(n, dtype=int)
    out = [eye.tolist(), np.roll(eye, 1, axis=0).tolist(), eye[::-1].tolist(),
           np.tril(np.ones((n, n), dtype=int)).tolist(),
           np.triu(np.ones((n, n), dtype=int)).tolist()]
    m = eye.copy()
    m[n - 1, 0] = 1
    out.append(m.tolist())
    m = np.ones((n, n), dtype=int)
    for i in range(n):
        for j in range(n):
            m[i, j] = 1 if i >= j else 0
    out.append(np.roll(m, 1, axis=0).tolist())
    return [m for m in out if round(np.linalg.det(np.array(m))) % 2]


class E:
    """oracle view of an element: coefficients, linear part, shift"""

    def __init__(self, n, w, lin, shift):
        self.n, self.w, self.lin, self.shift = n, w, lin, shift

    def phase(self, x):
        acc = 0
        for t, v in self.w.items():
            if all(x[i] for i in t):
                acc = acc + v
        return acc

    def image(self, x):
        return [(ssum([self.lin[i][j] * x[j] for j in range(self.n)]) + self.shift[i]) % 2
                for i in range(self.n)]


def view(elem):
    """coefficients of a real element, through its public accessors"""
    n = elem.num_qubits
    w = {t: elem.poly.get_term(list(t)) for t in terms(n)}
    lin = [[elem.linear[i][j] for j in range(n)] for i in range(n)]
    return E(n, w, lin, [elem.shift[i] for i in range(n)])


def make(ctx, tag, n, lin, shift=None, nonzero=False, ws=None):
    """symbolic element and its oracle view"""
    elem = CNOTDihedral(n)
    w = {}
    for t in terms(n):
        if ws is not None and t not in ws:
            v = {1: 3, 2: 2, 3: 4}[len(t)]          # fixed coefficient
        else:
            v = weight(ctx, '%s.w%s' % (tag, ''.join(map(str, t))), t, nonzero)
        elem.poly.set_term(list(t), v)
        w[t] = v
    if shift is None:
        shift = [ctx.bit('%s.s%d' % (tag, i)) for i in range(n)]
    for i in range(n):
        elem.shift[i] = shift[i]
        for j in range(n):
            elem.linear[i][j] = lin[i][j]
    return elem, E(n, w, [list(r) for r in lin], list(shift))


def sym_lin(ctx, tag, n):
    return [[ctx.bit('%s.l%d%d' % (tag, i, j)) for j in range(n)] for i in range(n)]


def agree(ctx, got, phase_fn, image_fn, n, label):
    """got acts as |x> -> w^(phase_fn(x)) |image_fn(x)> up to a global phase"""
    zero = [0] * n
    p0 = phase_fn(zero)
    g0 = got.phase(zero)
    cs, ci = [], []
    for x in itertools.product((0, 1), repeat=n):
        x = list(x)
        d = (got.phase(x) - g0 - phase_fn(x) + p0) % 8
        cs.append(d == 0)
        a, b = got.image(x), image_fn(x)
        ci += [(u - v) % 2 == 0 for u, v in zip(a, b)]
    ctx.check(And(*ci), label + ': bit action')
    ctx.check(And(*cs), label + ': phases')


def compose_fn(a, b):
    """a after b"""
    def ph(x):
        y = b.image(x)
        acc = b.phase(x)
        for t, v in a.w.items():
            m = 1
            for i in t:
                m = m * y[i]
            acc = acc + v * m
        return acc

    def im(x):
        return a.image(b.image(x))
    return ph, im


# ----------------------------------------------------------- obligations ---
def gate_update(n, kind):
    def h(ctx):
        lin = sym_lin(ctx, 'g', n)
        elem, e = make(ctx, 'g', n, lin)
        if kind == 'phase':
            i = ctx.pick('i', range(n))
            k = ctx.int('k', -8, 15)
            elem.phase(k, i)

            def ph(x):
                return e.phase(x) + k * e.image(x)[i]
            agree(ctx, view(elem), ph, e.image, n, 'T power on qubit')
        elif kind == 'flip':
            i = ctx.pick('i', range(n))
            elem.flip(i)

            def im(x):
                y = e.image(x)
                y[i] = 1 - y[i]
                return y
            agree(ctx, view(elem), e.phase, im, n, 'X on qubit')
        else:
            i = ctx.pick('i', range(n))
            j = ctx.pick('j', range(n))
            ctx.assume(i != j)
            elem.cnot(i, j)

            def im(x):
                y = e.image(x)
                y[j] = (y[i] + y[j]) % 2
                return y
            agree(ctx, view(elem), e.phase, im, n, 'CNOT')
    return h


def bounds_raise(n):
    def h(ctx):
        elem, e = make(ctx, 'g', n, np.eye(n, dtype=int).tolist())
        i = ctx.int('i', -2, n + 1)
        j = ctx.int('j', -2, n + 1)
        bad_i = Or(i < 0, i >= n)
        for nm, f, bad in (('phase', lambda: elem.phase(1, i), bad_i),
                           ('flip', lambda: elem.flip(i), bad_i),
                           ('cnot', lambda: elem.cnot(i, j), Or(bad_i, j < 0, j >= n))):
            raised = False
            try:
                f()
            except QiskitError:
                raised = True
            ctx.check(bad if raised else Not(bad), '%s rejects exactly the bad qubits' % nm)
    return h


def product(n, lins, how, nonzero, shift_fixed=None, ws=None):
    def h(ctx):
        l2 = ctx.pick('L2', lins)
        l1 = sym_lin(ctx, 'a', n) if shift_fixed is None else lins[-1]
        a, ea = make(ctx, 'a', n, l1, shift_fixed, nonzero=nonzero, ws=ws)
        b, eb = make(ctx, 'b', n, l2, shift_fixed, ws=ws)
        if how == 'mul':
            r = a * b
        elif how == 'dot':
            r = a.dot(b)
        elif how == 'compose':
            r = b.compose(a)
        elif how == 'front':
            r = a.compose(b, front=True)
        else:
            r = b.__rmul__(a)
        ph, im = compose_fn(ea, eb)
        agree(ctx, view(r), ph, im, n, 'product (%s)' % how)
        # operands are left alone
        agree(ctx, view(a), ea.phase, ea.image, n, 'left operand unchanged')
        agree(ctx, view(b), eb.phase, eb.image, n, 'right operand unchanged')
    return h


def circuit_fns(circ):
    def ph(x):
        return C.run_basis(circ, x)[0]

    def im(x):
        return C.run_basis(circ, x)[1]
    return ph, im


def synth(n, lins, shift=None):
    def h(ctx):
        lin = ctx.pick('L', lins)
        elem, e = make(ctx, 'g', n, lin, shift)
        with C.gate_params_symbolic():
            circ = elem.to_circuit()
        ph, im = circuit_fns(circ)
        ctx.check(len(circ.qubits) == n, 'circuit width')
        agree(ctx, e, ph, im, n, 'synthesised circuit implements the element')
        agree(ctx, view(elem), e.phase, e.image, n, 'synthesis leaves the element alone')
    return h


def inverse(n, lins, how, shift=None, ws=None):
    def h(ctx):
        lin = ctx.pick('L', lins)
        elem, e = make(ctx, 'g', n, lin, shift, ws=ws)
        with C.gate_params_symbolic():
            r = getattr(elem, how)()
        v = view(r)
        agree(ctx, view(elem), e.phase, e.image, n, how + ' leaves the element alone')
        xs = [list(x) for x in itertools.product((0, 1), repeat=n)]
        if how == 'conjugate':
            agree(ctx, v, lambda x: -e.phase(x), e.image, n, 'conjugate')
            return
        sign = -1 if how == 'adjoint' else 1
        # r maps image(x) back to x with phase sign*p(x)
        zero = [0] * n
        cs, ci = [], []
        base = None
        for x in xs:
            y = e.image(x)
            ci += [(p - q) % 2 == 0 for p, q in zip(v.image(y), x)]
            acc = 0
            for t, val in v.w.items():
                m = 1
                for i in t:
                    m = m * y[i]
                acc = acc + val * m
            d = acc - sign * e.phase(x)
            if base is None:
                base = d
            cs.append((d - base) % 8 == 0)
        ctx.check(And(*ci), '%s inverts the bit action' % how)
        ctx.check(And(*cs), '%s phases' % how)
    return h


GATES1 = ['x', 'y', 'z', 'u1', 'id']
GATES2 = ['cx', 'cz']


def from_circ(n, length, gates, kmax, nested=False):
    def h(ctx):
        qc = QuantumCircuit(n)
        with C.gate_params_symbolic():
            for g in range(length):
                name = ctx.pick('g%d' % g, gates)
                a = ctx.pick('q%d' % g, range(n))
                if name in GATES2:
                    b = ctx.pick('r%d' % g, range(n))
                    ctx.assume(a != b)
                    getattr(qc, name)(a, b)
                elif name == 'u1':
                    k = ctx.int('k%d' % g, -kmax, kmax)
                    qc.append(U1Gate(k * np.pi / 4), [a])
                elif name == 'id':
                    qc.id(a)
                else:
                    getattr(qc, name)(a)
            elem = CNOTDihedral(qc)
        ph, im = circuit_fns(qc)
        agree(ctx, view(elem), ph, im, n, 'element of the circuit')
    return h


def not_in_group():
    """phase gates outside the group are rejected, those inside are accepted"""
    def h(ctx):
        s = ctx.int('s', -64, 64)
        qc = QuantumCircuit(1)
        with C.gate_params_symbolic():
            qc.append(U1Gate(s * np.pi / 16), [0])
            ok = True
            try:
                elem = CNOTDihedral(qc)
            except QiskitError:
                ok = False
        inside = (s % 4 == 0)
        ctx.check(inside if ok else Not(inside), 'accepted iff the angle is a multiple of pi/4')
        if ok:
            ctx.check((4 * view(elem).w[(0,)] - s) % 32 == 0, 'power of T')
    return h


def angle_rounding(kmax):
    """an angle that carries rounding error still denotes its power of T"""
    def h(ctx):
        k = ctx.int('k', -kmax, kmax)
        d = ctx.real('d', -1e-12, 1e-12)
        qc = QuantumCircuit(1)
        with C.gate_params_symbolic():
            qc.append(U1Gate(k * np.pi / 4 + d), [0])
            elem = CNOTDihedral(qc)
        ctx.check((view(elem).w[(0,)] - k) % 8 == 0, 'power of T')
    return h


def foreign_gate():
    def h(ctx):
        name = ctx.pick('g', ['h', 's_rx', 'swap_h', 'ccx'])
        qc = QuantumCircuit(3)
        qc.x(0)
        if name == 'h':
            qc.h(0)
        elif name == 's_rx':
            qc.rx(0.3, 0)
        elif name == 'swap_h':
            qc.cx(0, 1)
            qc.h(1)
        else:
            qc.ccx(0, 1, 2)
        ctx.raises(QiskitError, lambda: CNOTDihedral(qc), 'gate outside the group rejected')
    return h


def tensor(n1, n2, how):
    def h(ctx):
        a, ea = make(ctx, 'a', n1, sym_lin(ctx, 'a', n1))
        b, eb = make(ctx, 'b', n2, sym_lin(ctx, 'b', n2))
        r = a.tensor(b) if how == 'tensor' else a.expand(b)
        lo, hi = (ea, eb) if how == 'tensor' else (eb, ea)
        n = n1 + n2
        ctx.check(r.num_qubits == n, 'width')

        def ph(x):
            return lo.phase(x[:lo.n]) + hi.phase(x[lo.n:])

        def im(x):
            return lo.image(x[:lo.n]) + hi.image(x[lo.n:])
        agree(ctx, view(r), ph, im, n, how)
    return h


def product_then(n, lins, op):
    """results of products are themselves usable elements"""
    def h(ctx):
        l2 = ctx.pick('L2', lins)
        l1 = ctx.pick('L1', lins)
        a, ea = make(ctx, 'a', n, l1, nonzero=True)
        b, eb = make(ctx, 'b', n, l2, nonzero=True)
        r = a.dot(b)
        ph, im = compose_fn(ea, eb)
        if op == 'tensor':
            t = r.tensor(a)

            def ph2(x):
                return ph(x[:n]) + ea.phase(x[n:])

            def im2(x):
                return im(x[:n]) + ea.image(x[n:])
            agree(ctx, view(t), ph2, im2, 2 * n, 'tensor of a product')
        elif op == 'copy':
            c = CNOTDihedral(r, validate=False)
            agree(ctx, view(c), ph, im, n, 'element built from an element')
        elif op == 'adjoint':
            with C.gate_params_symbolic():
                v = r.dot(r.adjoint())
            agree(ctx, view(v), lambda x: 0, lambda x: x, n, 'product times its adjoint')
        elif op == 'gates':
            r.flip(0)
            k = ctx.int('k', 0, 7)
            r.phase(k, n - 1)

            def im2(x):
                y = im(x)
                y[0] = 1 - y[0]
                return y
            agree(ctx, view(r), lambda x: ph(x) + k * im2(x)[n - 1], im2, n, 'gate on a product')
            agree(ctx, view(a), ea.phase, ea.image, n, 'left operand unchanged')
            agree(ctx, view(b), eb.phase, eb.image, n, 'right operand unchanged')
    return h


def valid_check(n, part):
    """is_cnotdihedral accepts exactly the encodings of group elements"""
    def h(ctx):
        elem = CNOTDihedral(n)
        good = True
        if part == 'poly':
            for t in terms(n):
                v = ctx.int('w%s' % ''.join(map(str, t)), 0, 8 if len(t) > 1 else 9)
                # written directly: set_term would reduce it modulo 8
                arr_ = {1: elem.poly.weight_1, 2: elem.poly.weight_2, 3: elem.poly.weight_3}[len(t)]
                idx = [u for u in terms(n) if len(u) == len(t)].index(t)
                arr_[idx] = v
                good = And(good, v <= 7, v % (2 ** (len(t) - 1)) == 0)
        elif part == 'linear':
            lin = sym_lin(ctx, 'l', n)
            for i in range(n):
                for j in range(n):
                    elem.linear[i][j] = lin[i][j]
            if n == 2:
                det = lin[0][0] * lin[1][1] - lin[0][1] * lin[1][0]
            else:
                det = ssum([lin[0][i] * (lin[1][(i + 1) % 3] * lin[2][(i + 2) % 3]
                                         - lin[1][(i + 2) % 3] * lin[2][(i + 1) % 3])
                            for i in range(3)])
            good = det % 2 == 1
        else:
            for i in range(n):
                s = ctx.int('s%d' % i, -1, 2)
                elem.shift[i] = s
                good = And(good, s >= 0, s <= 1)
        got = elem.is_cnotdihedral()
        ctx.check(And(Implies(got, good), Implies(good, got)), 'validity of ' + part)
    return h


def random_elem(n):
    """whatever the generator draws, the sampled element belongs to the group"""
    def h(ctx):
        cnt = [0]

        class Rng(np.random.RandomState):
            def randint(self, low, high=None, size=None, dtype=int):
                lo, hi = (0, low) if high is None else (low, high)
                shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size or ())
                tot = int(np.prod(shape)) if shape else 1
                cnt[0] += 1
                if cnt[0] > 7:
                    ctx.assume(False)
                v = [ctx.int('d%d.%d' % (cnt[0], i), lo, hi - 1) for i in range(tot)]
                if not shape:
                    return v[0]
                out = arr(v) if tot else np.zeros(0, dtype=int)
                return out.reshape(shape)
        rng = Rng(1)
        elem = random_cnotdihedral(n, seed=rng)
        v = view(elem)
        for t, w in v.w.items():
            ctx.check(And(w >= 0, w <= 7, w % (2 ** (len(t) - 1)) == 0), 'coefficient %s' % (t,))
        for i in range(n):
            ctx.check(And(v.shift[i] >= 0, v.shift[i] <= 1), 'shift')
        lin = v.lin
        det = lin[0][0] if n == 1 else (
            lin[0][0] * lin[1][1] - lin[0][1] * lin[1][0] if n == 2 else
            ssum([lin[0][i] * (lin[1][(i + 1) % 3] * lin[2][(i + 2) % 3]
                               - lin[1][(i + 2) % 3] * lin[2][(i + 1) % 3]) for i in range(3)]))
        ctx.check(det % 2 == 1, 'linear part invertible')
    return h


def chunks(seq, k):
    seq = list(seq)
    return [seq[i::k] for i in range(k) if seq[i::k]]


def all_terms(n):
    """every coefficient of a polynomial can be set and read on its own"""
    def h(ctx):
        poly = CNOTDihedral(n).poly
        ts = terms(n)
        v = {t: ctx.int('v' + ''.join(map(str, t)), 0, 7) for t in ts}
        for t in reversed(ts):
            poly.set_term(list(t), v[t])
        for t in ts:
            ctx.eq(poly.get_term(list(t)), v[t], 'coefficient of %r' % (t,))
        # p_J on a subset of the variables
        js = sorted(ctx.pick('J', [(0, n - 1), (0, 1, n - 1), tuple(range(1, n)), (n - 2,)]))
        poly.set_pj(list(js))
        for t in ts:
            want = 0
            if t and set(t) <= set(js):
                want = {1: 1, 2: 6, 3: 4}[len(t)]
            ctx.eq(poly.get_term(list(t)), want, 'p_J coefficient of %r' % (t,))
    return h


def obligations(tier):
    th = tier == 'thorough'
    obs = []
    O = Obligation
    for n in ((2, 3, 4) if th else (2, 3)):
        for k in ('phase', 'flip', 'cnot'):
            obs.append(O('gate-%s-n%d' % (k, n), gate_update(n, k),
                         '%d qubits, arbitrary element, arbitrary qubit' % n, max_paths=100000))
    obs.append(O('gate-bounds', bounds_raise(2), 'qubit indices -2..n+1'))
    for how in ('mul', 'dot', 'compose', 'front', 'rmul'):
        obs.append(O('product-%s-n2' % how, product(2, invertible(2), how, False),
                     '2 qubits, all element pairs', max_paths=50000))
    for i, ch in enumerate(chunks(invertible(3) if th else some_invertible(3), 16 if th else 7)):
        obs.append(O('product-n3-%d' % i, product(3, ch, 'dot', True),
                     '3 qubits, right linear part from a list of %d, nonzero left coefficients'
                     % len(ch), max_paths=100000, time_limit=1800 if th else 400))
    obs.append(O('synth-n1', synth(1, [[[1]]]), '1 qubit, every element'))
    obs.append(O('synth-n2', synth(2, invertible(2)), '2 qubits, every element', max_paths=50000))
    for i, ch in enumerate(chunks(invertible(3) if th else some_invertible(3), 24 if th else 7)):
        obs.append(O('synth-n3-%d' % i, synth(3, ch, None if th else [1, 0, 1]),
                     '3 qubits, linear part from a list of %d%s' % (
                         len(ch), '' if th else ', shift 101'),
                     max_paths=200000, time_limit=2400 if th else 400))
    for how in ('adjoint', 'conjugate', 'transpose'):
        obs.append(O('%s-n1' % how, inverse(1, [[[1]]], how), '1 qubit, every element'))
        obs.append(O('%s-n2' % how, inverse(2, invertible(2), how), '2 qubits, every element',
                     max_paths=50000))
        obs.append(O('%s-n3' % how, inverse(3, some_invertible(3)[1::2], how, [1, 0, 1],
                                            [(1,), (0, 2), (0, 1, 2)]),
                     '3 qubits, 3 symbolic coefficients', max_paths=50000))
    obs.append(O('product-n4', product(4, some_invertible(4)[1:4], 'compose', True, [1, 0, 1, 1],
                                       [(1,), (0, 3), (1, 2, 3)]),
                 '4 qubits, 3 symbolic coefficients each', max_paths=50000))
    obs.append(O('circuit-2x2', from_circ(2, 2, GATES1 + GATES2, 16),
                 '2 qubits, words of 2 gates, phase multiples -16..16', max_paths=50000))
    obs.append(O('circuit-3x1', from_circ(3, 1, GATES1 + GATES2, 40),
                 '3 qubits, 1 gate, phase multiples -40..40', max_paths=50000))
    if th:
        obs.append(O('circuit-2x3', from_circ(2, 3, GATES1 + GATES2, 40),
                     '2 qubits, words of 3 gates', max_paths=300000, time_limit=2400))
    for n in (3, 4, 5, 6):
        obs.append(O('terms-n%d' % n, all_terms(n), '%d qubits, every coefficient' % n))
    obs.append(O('circuit-5x1', from_circ(5, 1, GATES1 + GATES2, 16),
                 '5 qubits, 1 gate', max_paths=50000))
    obs.append(O('angles', not_in_group(), 'angles s*pi/16, s in -64..64'))
    obs.append(O('angles-rounding', angle_rounding(64),
                 'angles k*pi/4 + d, |k| <= 64, |d| <= 1e-12'))
    obs.append(O('foreign-gates', foreign_gate(), '4 circuits with a gate outside the group'))
    for how in ('tensor', 'expand'):
        for a, b in ((1, 2), (2, 1), (2, 2), (1, 3)) + (((3, 3),) if th else ()):
            obs.append(O('%s-%d-%d' % (how, a, b), tensor(a, b, how),
                         '%d and %d qubits' % (a, b)))
    for op in ('tensor', 'copy', 'adjoint', 'gates'):
        obs.append(O('product-then-' + op, product_then(2, [[[1, 1], [0, 1]], [[0, 1], [1, 1]]], op),
                     '2 qubits, 4 pairs of linear parts', max_paths=50000))
    for part in ('poly', 'linear', 'shift'):
        obs.append(O('valid-%s-n2' % part, valid_check(2, part), '2 qubits', max_paths=50000))
    obs.append(O('valid-linear-n3', valid_check(3, 'linear'), '3 qubits, all 512 matrices',
                 max_paths=50000))
    for n in ((1, 2, 3) if th else (1, 2)):
        obs.append(O('random-n%d' % n, random_elem(n), '%d qubits, every draw, at most 3 '
                     'rejected matrices' % n, max_paths=50000))
    return obs
