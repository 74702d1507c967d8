"""P07 tomography: circuits, bases and reconstruction agree; exact data give back the truth."""
import itertools

import numpy as np
import scipy.linalg
from qiskit.circuit import QuantumCircuit, QuantumRegister, ClassicalRegister, Gate
from qiskit.quantum_info import Choi
from qiskit.exceptions import QiskitError
import qiskit.ignis.verification.tomography as tomo
from qiskit.ignis.verification.tomography import basis as tb

from checks.lib import *
from checks import circ as cs

EXPLANATION = (
    'The circuits the generators return are run by an independent density-matrix interpreter in '
    'which the circuit under test prepares a symbolic Hermitian matrix (state tomography) or '
    'applies a map with a symbolic Choi matrix (process tomography). The resulting exact '
    'probabilities are given to the fitters as results; z3 shows that the fitted matrix equals '
    'the symbolic one for every value, and that the positivity rescaling returns the nearest '
    'positive matrix of the same trace for symbolic eigenvalues.')
OUTSIDE = ('more than 2 tomographed qubits (3 in the circuit); symbolic eigenvectors of the '
           'rescaled matrix; convergence of cvx solvers')
ASSUMPTIONS = ['scipy.linalg.lstsq of a full-rank problem returns its solution',
               'scipy.linalg.eigh returns ascending eigenvalues and orthonormal eigenvectors']

SHOTS = 1000


def herm(ctx, tag, d, tr=1):
    """Hermitian matrix with the given trace, bounded symbolic entries"""
    m = [[0] * d for _ in range(d)]
    diag = [ctx.real('%s%d' % (tag, i), -1, 1) for i in range(d - 1)]
    for i in range(d - 1):
        m[i][i] = diag[i]
    m[d - 1][d - 1] = tr - ssum(diag)
    for i in range(d):
        for j in range(i + 1, d):
            re = ctx.real('%s%d_%d.re' % (tag, i, j), -1, 1)
            im = ctx.real('%s%d_%d.im' % (tag, i, j), -1, 1)
            z = core.mkc(re, im) if is_sym(re) else complex(re, im)
            m[i][j] = z
            m[j][i] = z.conjugate()
    return m


def prep_super(rho):
    """discard and prepare rho"""
    d = len(rho)
    return {(a, b): [(i, i, rho[a][b]) for i in range(d)] for a in range(d) for b in range(d)}


def to_result(circs, special, ctx=None):
    exps = []
    for c in circs:
        probs = cs.outcome_probs(c, special)
        if ctx is not None:
            for p in probs.values():
                ctx.assume(p >= 0.001)
        sizes = [[r.name, r.size] for r in c.cregs]
        exps.append(exp_result(c.name, len(c.clbits),
                               counts={k: p * SHOTS for k, p in probs.items()},
                               creg_sizes=sizes, memory_slots=len(c.clbits)))
    return result(exps)


def layout(kind, k):
    """(circuit builder, measured qubits argument, ordered list of the measured qubits)"""
    if kind == 'reg':
        q = QuantumRegister(k)
        qc = QuantumCircuit(q)
        return qc, q, list(q)
    if kind == 'ints':
        qc = QuantumCircuit(k)
        return qc, list(range(k)), list(qc.qubits)
    if kind == 'reversed':
        q = QuantumRegister(k)
        qc = QuantumCircuit(q)
        return qc, [q[i] for i in reversed(range(k))], [q[i] for i in reversed(range(k))]
    if kind == 'sub':           # one more qubit than measured, out of order
        q = QuantumRegister(k + 1)
        qc = QuantumCircuit(q)
        ms = [q[k]] + [q[i] for i in range(k - 1)]
        return qc, ms, ms
    if kind == 'subints':
        qc = QuantumCircuit(k + 1)
        ix = [k] + list(range(k - 1))
        return qc, ix, [qc.qubits[i] for i in ix]
    if kind == 'tworegs':       # a list of whole registers
        a, b = QuantumRegister(1), QuantumRegister(k - 1)
        qc = QuantumCircuit(a, b)
        return qc, [b, a], list(b) + list(a)
    raise ValueError(kind)


def h_state(k, kind, cregs=0, meas_labels='Pauli', gate_order=None, name_lookup=False):
    def h(ctx):
        rho = herm(ctx, 'r', 2 ** k)
        qc, arg, ms = layout(kind, k)
        if cregs:
            c = ClassicalRegister(cregs)
            qc.add_register(c)
            # something else is measured before; its outcome must not matter
            qc.h(ms[0])
            qc.measure(ms[0], c[0])
        qc.append(cs.opaque('uut', k), ms)
        kw = {} if meas_labels == 'Pauli' else {'meas_labels': meas_labels}
        circs = tomo.state_tomography_circuits(qc, arg, **kw)
        ctx.check(len(circs) == 3 ** k, 'number of circuits')
        ctx.check(len({c.name for c in circs}) == len(circs), 'names differ')
        res = to_result(circs, {'uut': prep_super(rho)}, ctx if cregs else None)
        cc = [c.name for c in circs] if name_lookup else circs
        f = tomo.TomographyFitter(res, cc, 'Pauli', None)
        got = f.fit(method='lstsq', standard_weights=False, psd=False, trace=1)
        ctx.eq(got, rho, 'fitted state')
    return h


def h_state_fit(ctx):
    """public state fitter on the same data"""
    k = 1
    rho = herm(ctx, 'r', 2)
    qc, arg, ms = layout('reg', k)
    qc.append(cs.opaque('uut', k), ms)
    circs = tomo.state_tomography_circuits(qc, arg)
    res = to_result(circs, {'uut': prep_super(rho)})
    seen = []

    def eigh(a, *r, **kw):
        seen.append(a)
        return np.array([0.25, 0.75]), np.eye(2)
    f = tomo.StateTomographyFitter(res, circs)
    if ctx.sym:
        with replaced([(scipy.linalg.eigh, eigh), (np.linalg.eigh, eigh)]):
            f.fit(method='lstsq', standard_weights=False)
        if not seen:
            raise Unsupported('no eigh')
        ctx.eq(seen[0], rho, 'matrix before rescaling')
    else:
        # a physical state comes back unchanged
        ev = np.linalg.eigvalsh(np.array(rho))
        if ev[0] >= 0:
            ctx.eq(f.fit(method='lstsq', standard_weights=False), rho, 'fitted state')
        ctx.check(True, 'ok')


class ChoiStub:
    """container with the data of a terra Choi object"""

    def __init__(self, data, **k):
        self.data = getattr(data, 'data', data) if isinstance(data, ChoiStub) else data


def sym_choi(ctx):
    return replaced([(Choi, ChoiStub)] if ctx.sym else [])


def choi(ctx, tag, k, full=True, terms=3):
    d = 2 ** k
    if full:
        m = herm(ctx, tag, d * d, tr=d)
        for i in range(d):              # trace preserving
            for j in range(d):
                o = ssum([m[i * d + a][j * d + a] for a in range(d - 1)])
                m[i * d + d - 1][j * d + d - 1] = (1 if i == j else 0) - o
        return m
    rng = np.random.RandomState(5)
    mats = []
    for _ in range(terms + 1):
        a = rng.randint(-2, 3, (d * d, d * d)) + 1j * rng.randint(-2, 3, (d * d, d * d))
        a = a + a.conj().T
        for i in range(d):              # no trace over the output
            for j in range(d):
                a[i * d + d - 1, j * d + d - 1] -= sum(a[i * d + o, j * d + o] for o in range(d))
        mats.append(a)
    ws = [ctx.real('%s.w%d' % (tag, i), -1, 1) for i in range(terms)]
    m = [[0] * (d * d) for _ in range(d * d)]
    for i in range(d * d):
        for j in range(d * d):
            v = complex(mats[terms][i, j]) + (1 / d if i == j else 0)
            for w, a in zip(ws, mats):
                v = v + w * complex(a[i, j])
            m[i][j] = v
    return m


def h_process(k, kind, prep='Pauli', other=False, full=True, cregs=0, explicit=False):
    """other: prepared qubits differ from the measured ones"""
    def h(ctx):
        J = choi(ctx, 'J', k, full)
        d = 2 ** k
        kw = {}
        if other:
            q = QuantumRegister(2 * k)
            qc = QuantumCircuit(q)
            ps, ms = [q[i] for i in range(k)], [q[2 * k - 1 - i] for i in range(k)]
            arg = ms
            kw['prepared_qubits'] = ps
        else:
            qc, arg, ms = layout(kind, k)
            ps = ms
            if explicit:
                kw['prepared_qubits'] = arg
        if cregs:
            qc.add_register(ClassicalRegister(cregs))
        qc.append(cs.opaque('uut', k), ps)
        if other:
            for a, b in zip(ps, ms):
                qc.swap(a, b)
        if prep != 'Pauli':
            kw.update(prep_labels=prep, prep_basis=prep)
        circs = tomo.process_tomography_circuits(qc, arg, **kw)
        ctx.check(len(circs) == 12 ** k, 'number of circuits')
        ctx.check(len({c.name for c in circs}) == len(circs), 'names differ')
        res = to_result(circs, {'uut': cs.choi_superop(J, d)}, ctx if cregs else None)
        f = tomo.ProcessTomographyFitter(res, circs, prep_basis=prep)
        with sym_choi(ctx):
            got = f.fit(method='lstsq', standard_weights=False, psd=False)
        ctx.eq(got.data, J, 'fitted Choi matrix')
    return h


def h_basis_prep(basis, labels):
    """circuit, matrix and nominal state of every preparation label agree"""
    def h(ctx):
        a, b = ctx.cplx('a'), ctx.cplx('b')      # test vector <phi| = (a, b)
        for lab, want in labels.items():
            q = QuantumRegister(2)
            qc = basis.preparation_circuit(lab, q[1])
            full_qc = QuantumCircuit(q)
            full_qc = full_qc.compose(qc, qubits=[q[0], q[1]]) if qc.num_qubits == 2 \
                else full_qc
            rho = cs.density_run(full_qc)[()]
            sub = [[rho[2 * i][2 * j] for j in range(2)] for i in range(2)]
            mat = basis.preparation_matrix(lab)
            for m, nm in ((sub, 'circuit'), (mat, 'matrix')):
                got = want_v = 0
                for i, x in enumerate((a, b)):
                    for j, y in enumerate((a, b)):
                        got = got + x.conjugate() * complex(m[i][j]) * y
                        want_v = want_v + x.conjugate() * complex(want[i][j]) * y
                ctx.eq(got, want_v, 'preparation %s: %s' % (lab, nm))
    return h


def h_basis_meas(ctx):
    rho = herm(ctx, 'r', 2)
    P = tb.PauliBasis
    for lab, (x, y, z) in {'X': (1, 0, 0), 'Y': (0, 1, 0), 'Z': (0, 0, 1)}.items():
        q, c = QuantumRegister(2), ClassicalRegister(2)
        top = QuantumCircuit(q, c)
        top.append(cs.opaque('uut', 1), [q[1]])
        qc = P.measurement_circuit(lab, q[1], c[0])
        top = top + qc
        probs = cs.outcome_probs(top, {'uut': prep_super(rho)})
        ev = (x * 2 * _re(rho[0][1]) - y * 2 * _im(rho[0][1]) +
              z * (_re(rho[0][0]) - _re(rho[1][1])))
        for o in (0, 1):
            want = (1 + (1 - 2 * o) * ev) / 2
            ctx.eq(probs.get('0' + str(o), 0), want, 'measurement circuit ' + lab)
            for oo in (o, str(o)):
                M = P.measurement_matrix(lab, oo)
                got = 0
                for i in range(2):
                    for j in range(2):
                        got = got + complex(M[i, j]) * rho[j][i]
                ctx.eq(got, want, 'measurement operator ' + lab)


def _re(z):
    return z.real if isinstance(z, (complex, core.SymC)) else z


def _im(z):
    return z.imag if isinstance(z, (complex, core.SymC)) else 0


# ---------------------------------------------------- positivity rescaling --
def basis2(kind):
    if kind == 'z':
        return np.eye(2)
    if kind == 'x':
        return np.array([[1, 1], [-1, 1]]) / np.sqrt(2)
    if kind == 'y':
        return np.array([[1, 1], [-1j, 1j]]) / np.sqrt(2)
    return np.array([[3, 4j], [4j, 3]]) / 5      # columns orthonormal


def basis4(kind):
    if kind == 'bell':
        return np.array([[1, 1, 0, 0], [0, 0, 1, 1], [0, 0, 1, -1], [1, -1, 0, 0]]) / np.sqrt(2)
    a, b = kind.split('*')
    return np.kron(basis2(a), basis2(b))


def h_psd(k, kind, trace=False):
    d = 2 ** k

    def h(ctx):
        W = basis2(kind) if k == 1 else basis4(kind)
        v = [ctx.real('v%d' % i, -1, 2) for i in range(d - 1)]
        v.append(1 - ssum(v))
        for i in range(d - 1):
            ctx.assume(v[i] <= v[i + 1])
        A = [[ssum([complex(cs._snap(W[i, m] * np.conj(W[j, m]))) * v[m] for m in range(d)])
              for j in range(d)] for i in range(d)]
        labs = list(itertools.product('XYZ', repeat=k))
        exps = []
        for lab in labs:
            c = {}
            for key in bitstrings(k):
                op = np.eye(1)
                for j, l in enumerate(lab):
                    s = 1 if key[k - 1 - j] == '0' else -1
                    op = np.kron((np.eye(2) + s * PAULI[l]) / 2, op)
                p = ssum([_re(complex(op[i, j]) * A[j][i]) for i in range(d) for j in range(d)
                          if op[i, j] != 0])
                ctx.assume(p >= 0)
                c[key] = p * SHOTS
            exps.append(exp_result(str(lab), k, counts=c))
        f = tomo.StateTomographyFitter(result(exps), [str(l) for l in labs])

        def eigh(a, *r, **kw):
            ctx.eq(a, A, 'matrix before rescaling')
            return arr(v) if ctx.sym else np.array(v), W.astype(complex)
        def fit():
            if not trace:
                return f.fit(method='lstsq', standard_weights=False)
            # a requested trace: the positive matrix, rescaled
            g = tomo.TomographyFitter(result(exps), [str(l) for l in labs], 'Pauli', None)
            t = ctx.real('t', 0.25, 3)
            a = g.fit(method='lstsq', standard_weights=False, psd=True)
            b = g.fit(method='lstsq', standard_weights=False, psd=True, trace=t)
            ctx.eq(b, [[t * a[i, j] for j in range(d)] for i in range(d)],
                   'positive matrix rescaled to the requested trace')
            return a
        if ctx.sym:
            with replaced([(scipy.linalg.eigh, eigh), (np.linalg.eigh, eigh)]):
                out = fit()
        else:
            out = fit()
        # coordinates in the eigenbasis
        fv = []
        for m in range(d):
            for n in range(d):
                val = ssum([complex(cs._snap(np.conj(W[i, m]) * W[j, n])) * out[i, j]
                            for i in range(d) for j in range(d)
                            if abs(W[i, m] * W[j, n]) > 1e-14])
                if m == n:
                    fv.append(_re(val))
                    ctx.eq(_im(val), 0, 'rescaled matrix is Hermitian')
                else:
                    ctx.eq(val, 0, 'rescaled matrix keeps the eigenvectors')
        e = 1e-7
        ctx.eq(ssum(fv), 1, 'trace 1')
        for m in range(d):
            ctx.check(fv[m] >= -e, 'no negative eigenvalue')
            for n in range(d):
                # nearest positive matrix of the same trace (optimality conditions)
                ctx.check(Or(fv[m] <= e, v[m] - fv[m] >= v[n] - fv[n] - e),
                          'nearest positive matrix')
    return h


PAULI = {'X': np.array([[0, 1], [1, 0]]), 'Y': np.array([[0, -1j], [1j, 0]]),
         'Z': np.diag([1, -1])}


def h_trace(ctx):
    """the fitted matrix is rescaled to the requested trace"""
    rho = herm(ctx, 'r', 2)
    t = ctx.real('t', 0.5, 3)
    qc, arg, ms = layout('reg', 1)
    qc.append(cs.opaque('uut', 1), ms)
    circs = tomo.state_tomography_circuits(qc, arg)
    f = tomo.TomographyFitter(to_result(circs, {'uut': prep_super(rho)}), circs, 'Pauli', None)
    got = f.fit(method='lstsq', standard_weights=False, psd=False, trace=t)
    ctx.eq(got, [[t * x for x in r] for r in rho], 'trace rescaled')
    got = f.fit(method='lstsq', standard_weights=False, psd=False)
    ctx.eq(got, rho, 'no trace constraint')
    # more data of another state: the fit follows
    sig = herm(ctx, 's', 2)
    f.add_data([to_result(circs, {'uut': prep_super(sig)})], circs)
    got = f.fit(method='lstsq', standard_weights=False, psd=False)
    ctx.eq(got, [[(x + y) / 2 for x, y in zip(r, s)] for r, s in zip(rho, sig)],
           'fit after more data')
    got = f.fit(method='lstsq', standard_weights=False, psd=False, trace=t)
    ctx.eq(got, [[t * (x + y) / 2 for x, y in zip(r, s)] for r, s in zip(rho, sig)],
           'fit after more data, rescaled')


def h_weighted(ctx):
    """exact data give the truth back whatever the weights"""
    x, y, z = (ctx.real(n, -0.9, 0.9) for n in 'xyz')
    data = {'X': x, 'Y': y, 'Z': z}
    exps = [exp_result(str((l,)), 1, counts={'0': (1 + v) * 500, '1': (1 - v) * 500})
            for l, v in data.items()]
    f = tomo.TomographyFitter(result(exps), [str((l,)) for l in 'XYZ'], 'Pauli', None)
    beta = ctx.real('beta', 0.1, 2)
    seen = {}

    def lstsq(a, b, *r, **kw):
        # the truth has zero residual and the problem has full rank
        vec = [(1 + z) / 2, _c(x, y) / 2, _c(x, -y) / 2, (1 - z) / 2]
        for i in range(np.shape(a)[0]):
            res = ssum([a[i, j] * vec[j] for j in range(4)]) - b[i]
            ctx.eq(res, 0, 'residual of the truth')
        seen['n'] = 1
        return arr(vec), None, 4, None
    with replaced([(scipy.linalg.lstsq, lstsq), (np.linalg.lstsq, lstsq)]):
        got = f.fit(method='lstsq', beta=beta, psd=False)
    if not seen:
        raise Unsupported('no lstsq')
    ctx.eq(got, [[(1 + z) / 2, _c(x, -y) / 2], [_c(x, y) / 2, (1 - z) / 2]], 'matrix')


def _c(a, b):
    return core.mkc(a, b) if is_sym(a) or is_sym(b) else complex(a, b)


def h_partial(ctx):
    """partial label lists: only the requested operators, on the right qubits"""
    rho = herm(ctx, 'r', 4)
    q = QuantumRegister(2)
    qc = QuantumCircuit(q)
    qc.append(cs.opaque('uut', 2), [q[0], q[1]])
    for spec, labs in ((('X', 'Z'), list(itertools.product('XZ', repeat=2))),
                       ([('X', 'Z'), ('Y', 'Y')], [('X', 'Z'), ('Y', 'Y')])):
        circs = tomo.state_tomography_circuits(qc, q, meas_labels=spec)
        ctx.check([c.name for c in circs] == [str(l) for l in labs], 'labels')
        for c, lab in zip(circs, labs):
            probs = cs.outcome_probs(c, {'uut': prep_super(rho)})
            for key in bitstrings(2):
                op = np.eye(1)
                for j, l in enumerate(lab):
                    s = 1 if key[1 - j] == '0' else -1
                    op = np.kron((np.eye(2) + s * PAULI[l]) / 2, op)
                want = ssum([_re(complex(op[i, j]) * rho[j][i]) for i in range(4)
                             for j in range(4)])
                ctx.eq(probs.get(key, 0), want, 'probability')
    ctx.raises(ValueError, lambda: tomo.state_tomography_circuits(qc, q, meas_labels=('Q',)),
               'unknown label rejected')
    ctx.raises(ValueError, lambda: tomo.state_tomography_circuits(qc, q, meas_basis='Q'),
               'unknown basis rejected')
    ctx.raises(QiskitError, lambda: tomo.state_tomography_circuits(
        qc, [q[0], q[0]]), 'repeated qubit rejected')
    ctx.raises(QiskitError, lambda: tomo.process_tomography_circuits(
        qc, [q[0]], prepared_qubits=[q[0], q[1]]), 'different number of qubits rejected')
    ctx.raises(QiskitError, lambda: tomo.state_tomography_circuits(qc, q, meas_basis='SIC'),
               'SIC has no measurement')
    ctx.raises(QiskitError, lambda: tb.SICBasis.measurement_matrix('S0', 0), 'SIC measurement')
    ctx.raises(ValueError, lambda: tb.PauliBasis.measurement_matrix('X', 2), 'outcome 2')
    ctx.raises(ValueError, lambda: tb.PauliBasis.preparation_matrix('X'), 'label')
    ctx.raises(ValueError, lambda: tb.PauliBasis.preparation_circuit('X', q[0]), 'label')
    ctx.raises(ValueError, lambda: tb.PauliBasis.measurement_matrix('Xp', 0), 'label')


def h_tuples(ctx):
    """names used by the process circuits are the label tuples"""
    q = QuantumRegister(1)
    qc = QuantumCircuit(q)
    n = ctx.int('n', 1, 2)
    n = int(n)
    q = QuantumRegister(n)
    qc = QuantumCircuit(q)
    names = {c.name for c in tomo.process_tomography_circuits(qc, q)}
    tup = tb.tomography_circuit_tuples(n, 'Pauli', 'Pauli')
    ctx.check({str(t) for t in tup} == names and len(tup) == len(names), 'tuples')
    want = {str((p, m)) for p in itertools.product(('Zp', 'Zm', 'Xp', 'Yp'), repeat=n)
            for m in itertools.product('XYZ', repeat=n)}
    ctx.check(names == want, 'names')


def sic():
    w = np.exp(2j * np.pi / 3)
    s = np.sqrt(2)
    return {'S0': [[1, 0], [0, 0]], 'S1': [[1 / 3, s / 3], [s / 3, 2 / 3]],
            'S2': [[1 / 3, s * w / 3], [s * np.conj(w) / 3, 2 / 3]],
            'S3': [[1 / 3, s * np.conj(w) / 3], [s * w / 3, 2 / 3]]}


def obligations(tier):
    obs = []
    PL = {k: ((np.eye(2) + s * PAULI[k[0]]) / 2).tolist() for k, s in
          [('Xp', 1), ('Xm', -1), ('Yp', 1), ('Ym', -1), ('Zp', 1), ('Zm', -1)]}
    obs.append(Obligation('prep-pauli', h_basis_prep(tb.PauliBasis, PL), 'all labels'))
    obs.append(Obligation('prep-sic', h_basis_prep(tb.SICBasis, sic()), 'all labels'))
    obs.append(Obligation('meas-pauli', h_basis_meas, 'all labels and outcomes'))
    for k, kind, cr in ((1, 'reg', 0), (1, 'sub', 0), (1, 'ints', 0), (1, 'subints', 0),
                        (1, 'reg', 1), (2, 'reg', 0), (2, 'ints', 0), (2, 'reversed', 0),
                        (2, 'sub', 0), (2, 'subints', 0), (2, 'tworegs', 0), (2, 'reg', 1),
                        (2, 'sub', 2)):
        obs.append(Obligation('state-%d-%s-c%d' % (k, kind, cr), h_state(k, kind, cr),
                              '%d tomographed qubits, any Hermitian matrix of trace 1' % k))
    obs.append(Obligation('state-names', h_state(1, 'reg', 0, name_lookup=True),
                          'circuits by name'))
    obs.append(Obligation('state-fitter', h_state_fit, 'StateTomographyFitter, 1 qubit',
                          stubs=['scipy.linalg.eigh']))
    for kind, prep, other, cr, ex in (('reg', 'Pauli', False, 0, False),
                                      ('sub', 'Pauli', False, 0, False),
                                      ('subints', 'Pauli', False, 0, True),
                                      ('reg', 'SIC', False, 0, False),
                                      ('reg', 'Pauli', True, 0, False),
                                      ('reg', 'Pauli', False, 1, False)):
        obs.append(Obligation('process-1-%s-%s-%d-c%d' % (kind, prep, other, cr),
                              h_process(1, kind, prep, other, True, cr, ex),
                              '1-qubit maps with any Hermitian Choi matrix of trace 2'))
    obs.append(Obligation('process-2', h_process(2, 'reversed', full=False),
                          '2-qubit maps, 3-parameter family of Choi matrices'))
    for kind in ('z', 'x', 'y', 'g'):
        obs.append(Obligation('psd-1-' + kind, h_psd(1, kind), 'symbolic eigenvalues, trace 1',
                              stubs=['scipy.linalg.eigh']))
    for kind in ('bell', 'z*z', 'x*y', 'g*z'):
        obs.append(Obligation('psd-2-' + kind, h_psd(2, kind), 'symbolic eigenvalues, trace 1',
                              stubs=['scipy.linalg.eigh']))
    for kind in ('z', 'x'):
        obs.append(Obligation('psd-trace-' + kind, h_psd(1, kind, True),
                              'symbolic eigenvalues, requested trace in [0.25,3]',
                              stubs=['scipy.linalg.eigh']))
    obs.append(Obligation('trace', h_trace, 'trace in [0.5,3]'))
    obs.append(Obligation('weighted', h_weighted, '1 qubit, beta in [0.1,2]',
                          stubs=['scipy.linalg.lstsq']))
    obs.append(Obligation('labels', h_partial, '2 qubits, partial label lists'))
    obs.append(Obligation('tuples', h_tuples, '1-2 qubits'))
    return obs
