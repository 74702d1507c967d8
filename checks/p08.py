"""P08 gate set tomography: circuits, linear inversion and the maximum-likelihood problem."""
import itertools

import numpy as np
import scipy.optimize
import scipy.linalg
from qiskit.circuit import QuantumCircuit, Gate
from qiskit.circuit.library import HGate, U3Gate
from qiskit.exceptions import QiskitError
from qiskit.quantum_info import Choi, PTM, Operator, DensityMatrix
import qiskit.ignis.verification.tomography as tomo
from qiskit.ignis.verification.tomography.basis import gatesetbasis as gb
from qiskit.ignis.verification.tomography.basis import default_gateset_basis

from checks.lib import *
from checks import circ as cs

EXPLANATION = (
    'The generated circuits are run by an independent interpreter in which every gate of the set '
    'acts as a symbolic noisy map on a symbolic noisy initial state with a symbolic noisy '
    'readout; z3 shows that each circuit has the probability its label promises, that linear '
    'inversion solves the Gram equations for symbolic data, and that for exact data the '
    'maximum-likelihood problem handed to the optimizer (objective and constraints, captured '
    'from scipy.optimize.minimize) has the true gate set as a feasible point with zero residual, '
    'has the right residual at other gate sets, rejects unphysical ones and returns the gates '
    'the optimizer found.')
OUTSIDE = ('more than one qubit; convergence of the two non-linear optimizations; initial states '
           'and measurements with x or y components in the likelihood step')
ASSUMPTIONS = ['scipy.optimize.minimize is replaced by an optimizer that returns a known point',
               'terra converts between PTM and Choi as documented']

S = [np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]


class IdealGate(Gate):
    """a gate with a known ideal unitary; the interpreter gives it its own (noisy) meaning"""

    def __init__(self, name, u):
        Gate.__init__(self, name, 1, [])
        self._u = np.asarray(u, dtype=complex)

    def to_matrix(self):
        return self._u

    def __array__(self, dtype=None):
        return self._u if dtype is None else self._u.astype(dtype)

    def inverse(self):
        return IdealGate(self.name + 'dg', self._u.conj().T)


def rot(axis, th=np.pi / 2):
    return np.cos(th / 2) * S[0] - 1j * np.sin(th / 2) * S[axis]


X90, Y90 = rot(1), rot(2)


def ptm_of(u):
    return np.array([[np.real(np.trace(S[i] @ u @ S[j] @ u.conj().T)) / 2 for j in range(4)]
                     for i in range(4)]).round(12)


def mm(a, b):
    return [[ssum([a[i][k] * b[k][j] for k in range(len(b))
                   if is_sym(a[i][k]) or is_sym(b[k][j]) or (a[i][k] != 0 and b[k][j] != 0)])
             for j in range(len(b[0]))] for i in range(len(a))]


def superop_of_ptm(R):
    """R acts on Bloch vectors (1, x, y, z) of rho = (1/2) sum r_i S_i"""
    # out[a,b] = 1/2 sum_ij S_i[a,b] R_ij tr(S_j rho)
    sup = {}
    for a in range(2):
        for b in range(2):
            terms = []
            for k in range(2):
                for l in range(2):
                    c = 0
                    for i in range(4):
                        for j in range(4):
                            z = S[i][a, b] * S[j][l, k]
                            if z != 0 and (is_sym(R[i][j]) or R[i][j] != 0):
                                c = c + R[i][j] * (complex(z) / 2)
                    if is_sym(c) or c != 0:
                        terms.append((k, l, c))
            sup[a, b] = terms
    return sup


def pauli_noise(ctx, tag, lo=0.7, equal=False):
    """diag(1, a, b, c): completely positive for a, b, c in [lo, 1] with a+b-c <= 1 ..."""
    a = ctx.real(tag + '.a', lo, 1)
    if equal:
        return [1, a, a, a]
    b, c = ctx.real(tag + '.b', lo, 1), ctx.real(tag + '.c', lo, 1)
    ctx.assume(And(1 - a - b + c >= 0, 1 - a + b - c >= 0, 1 + a - b - c >= 0))
    return [1, a, b, c]


def noisy(diag, R):
    return [[diag[i] * float(R[i][j]) if (is_sym(diag[i]) or diag[i] != 0) and R[i][j] != 0
             else 0 for j in range(4)] for i in range(4)]


class World:
    """a true gate set: labels -> PTM, initial Bloch vector, measurement row"""

    def __init__(self, gates, spam, truth, rho, E):
        self.gates, self.spam, self.truth, self.rho, self.E = gates, spam, truth, rho, E

    def vec(self, seq):
        v = [[x] for x in self.rho]
        for g in seq:
            v = mm(self.truth[g], v)
        return v

    def prob(self, seq):
        return mm([self.E], self.vec(seq))[0][0]

    def probs(self):
        out = {}
        for i in self.spam:
            out[(i,)] = self.prob(self.spam[i])
            for j in self.spam:
                out[(j, i)] = self.prob(self.spam[j] + self.spam[i])
                for k in self.gates:
                    out[(j, k, i)] = self.prob(self.spam[j] + (k,) + self.spam[i])
        return out


SPAM3 = {'F0': ('id',), 'F1': ('xg',), 'F2': ('yg',), 'F3': ('xg', 'xg')}
# preparation and measurement directions differ from SPAM circuit to SPAM circuit
SPAMN = {'F0': ('id',), 'F1': ('yg', 'xg'), 'F2': ('xg', 'yg'), 'F3': ('xg', 'id', 'xg')}


def mk_basis(spam, style='gate', name='test'):
    def fn(g):
        return lambda circ, qubit: circ.append(g, [qubit])
    gx, gy, gi = IdealGate('xg', X90), IdealGate('yg', Y90), IdealGate('id_', S[0])
    if style == 'gate':
        gates = {'id': gi, 'xg': gx, 'yg': gy}
    else:
        gates = {'id': fn(gi), 'xg': fn(gx), 'yg': fn(gy)}
    return gb.GateSetBasis(name, gates, dict(spam))


IDEAL = {'id': ptm_of(S[0]), 'xg': ptm_of(X90), 'yg': ptm_of(Y90), 'h_g': ptm_of(
    np.array([[1, 1], [1, -1]]) / np.sqrt(2))}


def general_map(ctx, tag, R):
    """a perturbed, trace preserving map with all 12 entries symbolic"""
    return [[1, 0, 0, 0]] + [[ctx.real('%s%d%d' % (tag, i, j), -1, 1) for j in range(4)]
                             for i in range(1, 4)]


def run_circuit(c, world, measured):
    """probability of outcome 0 in this world (noisy readout applied to <Z>)"""
    sp = {n: superop_of_ptm(world.truth[g]) for n, g in
          (('xg', 'xg'), ('yg', 'yg'), ('id_', 'id'), ('h_g', 'h_g')) if g in world.truth}
    n = len(c.qubits)
    x, y, z = world.rho[1:]
    one = [[(1 + z) / 2, _c(x, -y) / 2], [_c(x, y) / 2, (1 - z) / 2]]
    N = 2 ** n
    init = [[0] * N for _ in range(N)]
    for a in range(2):
        for b in range(2):
            init[a << measured][b << measured] = one[a][b]
    p = {}
    for k, r in cs.density_run(c, sp, init).items():
        p[k] = cs.trace(r)
    p0 = ssum([v for k, v in p.items() if k[0] == 0])
    tot = ssum(list(p.values()))
    return p0, tot


def _c(a, b):
    return core.mkc(a, b) if is_sym(a) or is_sym(b) else complex(a, b)


def h_circuits(spam, style, measured, added=False):
    def h(ctx):
        b = mk_basis(spam, style)
        truth = {'id': general_map(ctx, 'i', None) if not added else IDEAL['id'].tolist(),
                 'xg': general_map(ctx, 'x', None), 'yg': general_map(ctx, 'y', None)}
        if added:
            b.add_gate(IdealGate('h_g', np.array([[1, 1], [1, -1]]) / np.sqrt(2)))
            truth['h_g'] = general_map(ctx, 'h', None)
        rho = [1] + [ctx.real('rho%d' % i, -1, 1) for i in range(3)]
        w = World(b.gate_labels, spam, truth, rho, [0.5, 0, 0, 0.5])
        circs = tomo.gateset_tomography_circuits(gateset_basis=b, **(
            {} if measured is None else {'measured_qubits': [measured]}))
        m = measured or 0
        want = {}
        for i in spam:
            want[str((i,))] = (i,)
            for j in spam:
                want[str((j, i))] = (j, i)
                for k in b.gate_labels:
                    want[str((j, k, i))] = (j, k, i)
        ctx.check({c.name for c in circs} == set(want) and len(circs) == len(want), 'labels')
        for c in circs:
            lab = want[c.name]
            seq = ()
            for t, l in enumerate(lab):
                seq += (l,) if len(lab) == 3 and t == 1 else tuple(spam[l])
            p0, tot = run_circuit(c, w, m)
            ctx.eq(p0, w.prob(seq), 'probability of ' + c.name)
    return h


class Mat:
    """stand-in for terra's channel and operator classes on symbolic data"""

    def __init__(self, data, *a, **k):
        self.data = self.conv(data)
        self.shape = np.shape(self.data)
        self.dim = (2, 2)

    def conv(self, d):
        return d.data if isinstance(d, Mat) else d

    def __array__(self, dtype=None):
        return self.data


class PTMStub(Mat):
    def conv(self, d):
        if isinstance(d, ChoiStub):
            J = d.data
            out = [[0] * 4 for _ in range(4)]
            for i in range(4):
                for j in range(4):
                    # 1/2 tr[ (S_j^T (x) S_i) J ]
                    op = np.kron(S[j].T, S[i])
                    out[i][j] = ssum([complex(op[a, b]) / 2 * J[b][a] for a in range(4)
                                      for b in range(4) if op[a, b] != 0])
            return arr(out)
        return Mat.conv(self, d)


class ChoiStub(Mat):
    def conv(self, d):
        if isinstance(d, PTMStub):
            R = d.data
            out = [[0] * 4 for _ in range(4)]
            for i in range(4):
                for j in range(4):
                    op = np.kron(S[j].T, S[i])
                    for a in range(4):
                        for b in range(4):
                            if op[a, b] != 0 and (is_sym(R[i][j]) or R[i][j] != 0):
                                out[a][b] = out[a][b] + complex(op[a, b]) / 2 * R[i][j]
            return arr(out)
        return Mat.conv(self, d)


def classes(ctx):
    return replaced([(PTM, PTMStub), (Choi, ChoiStub), (Operator, Mat), (DensityMatrix, Mat)]
                    if ctx.sym else [])


def data_of(x):
    return getattr(x, 'data', x)


def gst_result(probs, shots=1000):
    """counts of given frequencies; the circuits have different numbers of shots"""
    exps = []
    for i, (l, p) in enumerate(probs.items()):
        n = shots * (1, 2, 4)[i % 3]
        c = {'0': p * n, '1': (1 - p) * n}
        exps.append(exp_result(str(l), 1, counts={
            k: v for k, v in c.items() if is_sym(v) or v != 0}))
    return result(exps)


def h_inversion(spam, sym):
    """symbolic probabilities; the Gram matrix is symbolic in the listed entries"""
    def h(ctx):
        b = mk_basis(spam)
        base = World(b.gate_labels, spam, {g: IDEAL[g].tolist() for g in b.gate_labels},
                     [1, 0, 0, 1], [0.5, 0, 0, 0.5]).probs()
        labs = sorted(spam)
        probs = {}
        for l, p in base.items():
            if len(l) == 2:
                if (labs.index(l[0]), labs.index(l[1])) in sym:
                    lo, hi = max(0, p - 0.125), min(1, p + 0.125)
                    probs[l] = ctx.real('p' + ''.join(l), lo, hi)
                else:
                    probs[l] = float(p)
            else:
                probs[l] = ctx.real('p' + '.'.join(l), 0, 1)
        f = tomo.GatesetTomographyFitter(gst_result(probs), [str(l) for l in probs], b)
        with classes(ctx), replaced([(np.linalg.inv, nparr.exact_inv)] if ctx.sym else []):
            out = f.linear_inversion()
        ctx.check(set(out) == set(b.gate_labels) | {'E', 'rho'}, 'keys of the result')
        n = len(labs)
        g = [[probs[labs[j], labs[i]] for j in range(n)] for i in range(n)]
        for k in b.gate_labels:
            M = [[probs[labs[j], k, labs[i]] for j in range(n)] for i in range(n)]
            ctx.eq(mm(g, _rows(data_of(out[k]))), M, 'Gram equations of gate ' + k)
        ctx.eq(mm(g, _rows(out['rho'])), [[probs[(l,)]] for l in labs], 'initial state')
        ctx.eq(out['E'], [probs[(l,)] for l in labs], 'measurement')
    return h


def _rows(a):
    return [[a[i, j] for j in range(np.shape(a)[1])] for i in range(np.shape(a)[0])]


class Recorder:
    def __init__(self, answers):
        self.answers, self.calls = answers, []

    def __call__(self, fun, x0, *a, **k):
        i = len(self.calls)
        ans = self.answers[i](x0) if i < len(self.answers) else x0
        self.calls.append(dict(fun=fun, x0=x0, constraints=k.get('constraints', ()),
                               method=k.get('method')))
        return scipy.optimize.OptimizeResult(x=ans, success=True)


def schur_stub(known):
    """complex Schur form of a matrix diagonal in one of the known orthonormal bases"""
    def schur(m, *a, **k):
        m = m.view(np.ndarray) if isinstance(m, np.ndarray) else np.asarray(m)
        d = len(m)
        for U in known:
            if len(U) != d:
                continue
            D = [[0] * d for _ in range(d)]
            ok = True
            for p in range(d):
                for q in range(d):
                    v = ssum([complex(cs._snap(np.conj(U[i, p]) * U[j, q])) * m[i, j]
                              for i in range(d) for j in range(d)
                              if abs(U[i, p] * U[j, q]) > 1e-13])
                    if p != q:
                        t = close(v, 0)
                        if t is not True and not (is_sym(t) and core._CUR.valid(t)):
                            ok = False
                            break
                    D[p][q] = v.real if isinstance(v, (complex, core.SymC)) else v
                if not ok:
                    break
            if ok:
                D = [[D[p][q] if p == q else 0 for q in range(d)] for p in range(d)]
                return arr(D), U.astype(complex)
        raise Unsupported('schur of an unknown matrix')
    return schur


def choi_basis(u):
    """orthonormal eigenvectors of the Choi matrix of a Pauli channel after u"""
    cols = []
    for s in S:
        m = s @ u
        cols.append(m.reshape(-1, order='F') / np.sqrt(2))
    return np.array(cols).T


KNOWN = [np.eye(2), choi_basis(S[0]), choi_basis(X90), choi_basis(Y90)]


def simple_world(ctx, tag, spam, kind):
    """Pauli noise on the gates, z-polarised state, noisy readout"""
    if kind == 'fixed':
        dx, dy, di = [1, 0.9, 0.95, 0.9], [1, 0.85, 0.85, 0.85], [1, 1, 1, 1]
        r, e0, e1 = 0.9, 1, 0.8
        n = 1
    else:
        di = [1, 1, 1, 1]
        dx = pauli_noise(ctx, tag + 'x') if 'x' in kind else [1, 0.9, 0.95, 0.9]
        dy = pauli_noise(ctx, tag + 'y', equal=True) if 'y' in kind else [1, 0.85, 0.85, 0.85]
        if 'u' in kind:
            dx = pauli_noise(ctx, tag + 'x', equal=True)
        if 'i' in kind:
            di = pauli_noise(ctx, tag + 'i', equal=True)
        r = ctx.real(tag + 'r', 0.6, 1) if 'r' in kind else 0.9
        e1 = ctx.real(tag + 'e1', 0.6, 0.9) if 'e' in kind else 0.8
        e0 = ctx.real(tag + 'e0', 0.95, 1.05) if 'e' in kind else 1
        n = ctx.real(tag + 'n', 0.8, 1.2) if 'n' in kind else 1
    truth = {'id': noisy(di, IDEAL['id']), 'xg': noisy(dx, IDEAL['xg']),
             'yg': noisy(dy, IDEAL['yg'])}
    if 't' in kind:                      # not trace preserving
        t = ctx.real(tag + 't', 0.8, 1.2)
        truth['xg'][0] = [t, 0, 0, 0]
    return World(['id', 'xg', 'yg'], spam, truth, [n, 0, 0, n * r], [e0 / 2, 0, 0, e1 / 2])


def run_fit(ctx, w, spam, final=None):
    """run the public fit in world w with the optimizers replaced"""
    b = mk_basis(spam)
    labs = sorted(spam)
    probs = w.probs()
    q = 0.5 ** 0.5

    def gauge(x0):
        # gauge that maps the linear inversion onto the true gate set (orthonormal Paulis)
        cols = [w.vec(spam[l]) for l in labs]
        m = [[cols[j][i][0] * q for j in range(4)] for i in range(4)]
        inv = m4inv(m)
        return arr([inv[i][j] for i in range(4) for j in range(4)])
    rec = Recorder([gauge] + ([final] if final else []))
    f = tomo.GatesetTomographyFitter(gst_result(probs), [str(l) for l in probs], b)
    pairs = [(scipy.optimize.minimize, rec)]
    if ctx.sym:
        pairs += [(scipy.linalg.schur, schur_stub(KNOWN)), (np.linalg.inv, nparr.exact_inv),
                  (scipy.linalg.inv, nparr.exact_inv)]
    with classes(ctx):
        with replaced(pairs):
            out = f.fit()
    if len(rec.calls) != 2:
        raise Unsupported('fit does not call minimize twice')
    return b, rec, out


def m4inv(m):
    if not nparr.has_sym(m):
        return np.linalg.inv(np.array(m, dtype=float)).tolist()
    return [[v for v in r] for r in _rows(nparr.exact_inv(arr(m)))]


def cons_values(ctx, call, x):
    eq, ineq = [], []
    with classes(ctx):
        for c in call['constraints']:
            v = np.asarray(c['fun'](x), dtype=object).ravel().tolist()
            (eq if c['type'] == 'eq' else ineq).extend(v)
    return eq, ineq


def h_truth(spam, kind):
    """the truth has no residual, is feasible and is what comes back"""
    def h(ctx):
        w = simple_world(ctx, 'w', spam, kind)
        b, rec, out = run_fit(ctx, w, spam)
        g, mle = rec.calls
        ctx.check(np.ndim(g['x0']) == 1 and np.size(g['x0']) == 16, 'gauge start is a vector')
        with classes(ctx):
            ctx.eq(mle['fun'](mle['x0']), 0, 'no residual at the true gate set')
        eq, ineq = cons_values(ctx, mle, mle['x0'])
        ctx.check(And(*[close(v, 0) for v in eq]), 'equality constraints hold at the truth')
        ctx.check(And(*[v >= -1e-6 for v in ineq]), 'inequality constraints hold at the truth')
        for l in w.gates:
            ctx.eq(data_of(out[l]), w.truth[l], 'gate %s returned' % l)
        n, _, _, z = w.rho
        ctx.eq(data_of(out['rho']), [[(n + z) / 2, 0], [0, (n - z) / 2]], 'initial state')
        e0, _, _, e1 = w.E
        ctx.eq(data_of(out['E']), [[e0 + e1, 0], [0, e0 - e1]], 'measurement')
    return h


def h_cross(spam, kind):
    """residual of another gate set"""
    def h(ctx):
        w = simple_world(ctx, 'w', spam, kind)
        v = simple_world(ctx, 'v', spam, 'fixed')
        _, rw, _ = run_fit(ctx, w, spam)
        _, rv, _ = run_fit(ctx, v, spam)
        pw, pv = w.probs(), v.probs()
        want = 0
        for l in pw:
            if len(l) == 3:
                d = pw[l] - pv[l]
                want = want + d * d
        with classes(ctx):
            ctx.eq(rw.calls[1]['fun'](rv.calls[1]['x0']), want, 'residual of another gate set')
            ctx.eq(rv.calls[1]['fun'](rw.calls[1]['x0']), want, 'residual, other way around')
    return h


def h_unphysical(spam, kind):
    """unnormalised states and trace-changing gates violate a constraint"""
    def h(ctx):
        w = simple_world(ctx, 'w', spam, kind)
        _, rw, _ = run_fit(ctx, w, spam)
        eq, ineq = cons_values(ctx, rw.calls[1], rw.calls[1]['x0'])
        dev = ctx.inputs['wn' if 'n' in kind else 'wt']
        amount = (w.rho[0] if 'n' in kind else w.truth['xg'][0][0]) - 1
        bad = Or(*[Or(v > 1e-6, v < -1e-6) for v in eq])
        ctx.check(Or(And(amount < 0.01, amount > -0.01), bad), 'unphysical gate set rejected')
    return h


def h_gauge(spam, kind):
    """the gauge objective is the documented distance to the ideal gate set"""
    def h(ctx):
        w = simple_world(ctx, 'w', spam, kind)
        b, rec, out = run_fit(ctx, w, spam)
        labs = sorted(spam)
        q = 0.5 ** 0.5
        cols = [w.vec(spam[l]) for l in labs]
        inv = m4inv([[cols[j][i][0] * q for j in range(4)] for i in range(4)])
        with classes(ctx), replaced([(np.linalg.inv, nparr.exact_inv)] if ctx.sym else []):
            got = rec.calls[0]['fun'](arr([inv[i][j] for i in range(4) for j in range(4)]))
        ideal = World(w.gates, spam, {g: IDEAL[g].tolist() for g in w.gates}, [1, 0, 0, 1],
                      [0.5, 0, 0, 0.5])
        want = 0
        for l in w.gates:
            want = want + ssqrt(ssum([(w.truth[l][i][j] - ideal.truth[l][i][j]) *
                                      (w.truth[l][i][j] - ideal.truth[l][i][j])
                                      for i in range(4) for j in range(4)]))
        s2 = 2 ** 0.5
        want = want + ssqrt(ssum([(a - c) * (a - c) for a, c in zip(w.E, ideal.E)]) * 2)
        want = want + ssqrt(ssum([(a - c) * (a - c) for a, c in zip(w.rho, ideal.rho)]) / 2)
        ctx.eq(got, want, 'gauge objective')
        # start: the columns are the ideal prepared states
        start = [ideal.vec(spam[l]) for l in labs]
        x0 = rec.calls[0]['x0']
        ctx.eq([x0[4 * i + j] for i in range(4) for j in range(4)],
               [start[j][i][0] * q for i in range(4) for j in range(4)], 'gauge start')
    return h


def h_spam(ctx):
    """matrix of a SPAM sequence: product in the order of application"""
    th = [ctx.pick('g%d' % i, ['id', 'xg', 'yg']) for i in range(3)]
    n = int(ctx.int('n', 1, 3))
    spec = tuple(th[:n])
    b = mk_basis(dict(SPAM3, F9=spec))
    v = [ctx.real('v%d' % i, -1, 1) for i in range(4)]
    want = [[x] for x in v]
    for g in spec:
        want = mm(IDEAL[g].tolist(), want)
    got = mm(_rows(np.real(b.spam_matrix('F9')).round(12)), [[x] for x in v])
    ctx.eq(got, want, 'matrix of a SPAM sequence')


def h_errors(ctx):
    b = default_gateset_basis()
    n = int(ctx.int('n', 2, 4))
    ctx.raises(QiskitError, lambda: tomo.gateset_tomography_circuits(list(range(n))),
               'more than one qubit rejected')
    qc = QuantumCircuit(1)
    ctx.raises(RuntimeError, lambda: b.add_gate_to_circuit(qc, qc.qubits[0], 'nope'), 'gate name')
    ctx.raises(RuntimeError, lambda: b.add_spam_to_circuit(qc, qc.qubits[0], 'nope'), 'spam name')
    ctx.raises(RuntimeError, lambda: b.add_gate(lambda c, q: None), 'gate without a name')


def h_default(ctx):
    """the default gate set: circuits act as the ideal matrices say"""
    b = default_gateset_basis()
    sgn = ptm_of(rot(2, -np.pi / 2))
    ideal = {'Id': IDEAL['id'], 'X_Rot_90': IDEAL['xg'], 'Y_Rot_90': sgn}
    rho = [1] + [ctx.real('rho%d' % i, -1, 1) for i in range(3)]
    spam = {'F0': ('Id',), 'F1': ('X_Rot_90',), 'F2': ('Y_Rot_90',),
            'F3': ('X_Rot_90', 'X_Rot_90')}
    w = World(list(ideal), spam, {k: v.tolist() for k, v in ideal.items()}, rho,
              [0.5, 0, 0, 0.5])
    want = w.probs()
    circs = tomo.gateset_tomography_circuits()
    ctx.check({c.name for c in circs} == {str(l) for l in want}, 'labels')
    names = {str(l): l for l in want}
    for c in circs:
        p0, tot = run_circuit(c, w, 0)
        ctx.eq(p0, want[names[c.name]], 'probability of ' + c.name)
    for g in ideal:
        ctx.eq(b.gate_matrices[g], ideal[g], 'ideal matrix')
    h = HGate()
    b.add_gate(h)
    ctx.eq(b.gate_matrices['h'], IDEAL['h_g'], 'added gate')
    ctx.check('h' in b.gate_labels, 'added gate listed')


def obligations(tier):
    ob = []
    ob.append(Obligation('circuits-default', h_default, 'default gate set, any initial state'))
    ob.append(Obligation('circuits-gates', h_circuits(SPAM3, 'gate', None),
                         'any trace preserving maps (12 parameters each), any initial state'))
    ob.append(Obligation('circuits-sequences', h_circuits(SPAMN, 'fn', 0),
                         'SPAM sequences of up to 3 gates, gates given as functions'))
    ob.append(Obligation('circuits-qubit1', h_circuits(SPAMN, 'gate', 1), 'measured qubit 1'))
    ob.append(Obligation('circuits-added', h_circuits(SPAM3, 'gate', None, True), 'added gate'))
    ob.append(Obligation('spam-matrix', h_spam, 'all sequences of 1-3 gates'))
    ob.append(Obligation('inversion-linear', h_inversion(SPAM3, ()),
                         'symbolic gate data, ideal Gram matrix'))
    ob.append(Obligation('inversion-sequences', h_inversion(SPAMN, ()),
                         'symbolic gate data, other SPAM circuits'))
    ob.append(Obligation('inversion-gram', h_inversion(SPAM3, ((0, 1), (2, 3), (3, 0))),
                         'symbolic gate data, three symbolic Gram entries'))
    for nm, spam, kinds in (('a', SPAM3, ('yr', 're')), ('n', SPAMN, ('x', 'yr'))):
        for k in kinds:
            ob.append(Obligation('truth-%s-%s' % (nm, k), h_truth(spam, k),
                                 'exact data, noise parameters ' + k,
                                 stubs=['minimize', 'schur', 'terra channel classes']))
            ob.append(Obligation('residual-%s-%s' % (nm, k), h_cross(spam, k),
                                 'two gate sets, noise parameters ' + k,
                                 stubs=['minimize', 'schur', 'terra channel classes']))
            ob.append(Obligation('gauge-%s-%s' % (nm, k), h_gauge(spam, k),
                                 'exact data, noise parameters ' + k,
                                 stubs=['minimize', 'schur', 'terra channel classes']))
    ob.append(Obligation('unphysical-state', h_unphysical(SPAM3, 'n'), 'trace 0.8..1.2',
                         stubs=['minimize', 'schur', 'terra channel classes']))
    ob.append(Obligation('errors', h_errors, ''))
    return ob
