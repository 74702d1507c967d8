"""P10 expectation values with measurement-error mitigation (complete, tensored, CTMP)."""
import itertools

import numpy as np
import scipy.linalg
import scipy.sparse as sps
from qiskit.exceptions import QiskitError
import qiskit.ignis.mitigation as mit
from qiskit.ignis.mitigation import (
    expval_meas_mitigator_circuits, ExpvalMeasMitigatorFitter, expectation_value,
    CompleteExpvalMeasMitigator, TensoredExpvalMeasMitigator, CTMPExpvalMeasMitigator)

from checks.lib import *
from checks import p09
from checks.p09 import kron_matrix, noise_model, run_noisy, prepared, mv, PInv, free_matrix

EXPLANATION = (
    'Calibration circuits are interpreted with independent symbolic readout noise and the fitted '
    'mitigators compared with it; assignment and mitigation matrices of qubit subsets, '
    'expectation values, standard deviations and overheads are computed by the real code from '
    'symbolic matrices, counts and observables, and z3 shows they equal their definitions for '
    'every value. Matrix inverse, exponential and logarithm are arbitrary symbolic matrices '
    'tied to their argument; the CTMP sampler runs with symbolic random numbers.')
OUTSIDE = ('more than 3 qubits; the sampling error of CTMP (only each sampled trajectory and the '
           'distributions handed to the random generator are decided)')
ASSUMPTIONS = ['inv, expm and logm return the inverse, exponential and logarithm',
               'numpy random generators draw from the distributions they are given']

SHOTS = 1000


def dist(ctx, tag, n, lo=1):
    """symbolic positive counts with a fixed total"""
    ks = bitstrings(n)
    c = {k: ctx.real('%s%s' % (tag, k), lo, 900 // 2 ** n) for k in ks[:-1]}
    c[ks[-1]] = SHOTS - ssum(c.values())
    return c


def h_circuits(ctx):
    n = int(ctx.int('n', 1, 4))
    for method in ('complete', 'tensored', 'CTMP', 'ctmp'):
        circs, meta = expval_meas_mitigator_circuits(n, method=method)
        labels = [m['cal'] for m in meta]
        if method == 'complete':
            want = bitstrings(n)
        elif method == 'tensored':
            want = ['0' * n, '1' * n]
        else:
            want = ['0' * n, '1' * n] + [format(1 << i, '0%db' % n) for i in range(n)]
        ctx.check(sorted(labels) == sorted(want), 'calibration states of ' + method)
        ctx.check(len(circs) == len(meta), 'one entry per circuit')
        for c, m in zip(circs, meta):
            bits, meas = prepared(c)
            ctx.check([bits[i] for i in range(n)] == [int(x) for x in reversed(m['cal'])],
                      'prepared state')
            ctx.check(meas == {i: i for i in range(n)}, 'every qubit measured to its bit')
            ctx.check(m['experiment'] == 'meas_mit' and m['method'] == method, 'metadata')
    lab = ctx.pick('lab', ['0' * n, '1' + '0' * (n - 1), '0' * (n - 1) + '1'])
    circs, meta = expval_meas_mitigator_circuits(n, labels=[lab])
    ctx.check(len(circs) == 1 and meta[0]['cal'] == lab, 'custom label')
    ctx.check([prepared(circs[0])[0][i] for i in range(n)] == [int(x) for x in reversed(lab)],
              'custom state')
    ctx.raises(QiskitError, lambda: expval_meas_mitigator_circuits(n, method='x'), 'method')


def h_fit_complete(n, rep):
    """arbitrary calibration counts, repeated circuits, other experiments in the same job"""
    def h(ctx):
        labels = bitstrings(n)
        if rep:
            labels = labels + [bitstrings(n)[1]]
        meta, exps, data = [], [], []
        for i, l in enumerate(labels):
            if i == 1:
                meta.append({'experiment': 'other'})
                exps.append(exp_result('o', n, counts={'0' * n: 7}))
            c = sym_counts(ctx, 'c%d' % i, n, 100)
            data.append((l, c))
            meta.append({'experiment': 'meas_mit', 'cal': l, 'method': 'complete'})
            exps.append(exp_result(l, n, counts=c))
        tot = {x: ssum([total(c) for l, c in data if l == x]) for x in bitstrings(n)}
        ctx.assume(And(*[t >= 1 for t in tot.values()]))
        m = ExpvalMeasMitigatorFitter(result(exps), meta).fit()
        A = m.assignment_matrix()
        for j, x in enumerate(bitstrings(n)):
            for i, y in enumerate(bitstrings(n)):
                num = ssum([c[y] for l, c in data if l == x])
                ctx.check(close(A[i][j] * tot[x], num), 'fraction of outcomes')
    return h


def h_fit_missing(ctx):
    c = sym_counts(ctx, 'c', 1, 100)
    ctx.assume(total(c) >= 1)
    r = result([exp_result('0', 1, counts=c)])
    f = ExpvalMeasMitigatorFitter(r, [{'experiment': 'meas_mit', 'cal': '0', 'method': 'complete'}])
    ctx.raises(QiskitError, lambda: f.mitigator, 'not fitted')
    ctx.raises(QiskitError, lambda: f.fit(), 'insufficient data')
    ctx.raises(QiskitError, lambda: f.fit('x'), 'method')


def h_fit_noise(method, n, labels=None):
    """independent readout noise is identified exactly"""
    def h(ctx):
        noise = noise_model(ctx, range(n))
        circs, meta = expval_meas_mitigator_circuits(n, method=method, labels=labels)
        f = ExpvalMeasMitigatorFitter(result([run_noisy(c, noise) for c in circs]), meta)
        m = f.fit()
        ctx.check(f.mitigator is m, 'mitigator kept')
        ctx.eq(m.assignment_matrix(), kron_matrix(noise, range(n), bitstrings(n)),
               'assignment matrix')
        for q in range(n):
            ctx.eq(m.assignment_matrix([q]), noise[q], 'assignment matrix of qubit %d' % q)
        fid = 1
        for q in range(n):
            fid = fid * (noise[q][0][0] + noise[q][1][1]) / 2
        ctx.eq(m.assignment_fidelity(), fid, 'assignment fidelity')
    return h


def bits_of(x, n):
    return [(x >> i) & 1 for i in range(n)]


def marg_oracle(A, n, qubits):
    """other qubits prepared in 0, their outcomes summed over; ascending qubits"""
    qs = sorted(qubits)
    d = 2 ** len(qs)
    out = [[0] * d for _ in range(d)]
    for j in range(d):
        col = sum(((j >> i) & 1) << q for i, q in enumerate(qs))
        for y in range(2 ** n):
            i = sum(((y >> q) & 1) << k for k, q in enumerate(qs))
            out[i][j] = out[i][j] + A[y][col]
    return out


def h_sub_complete(n):
    def h(ctx):
        A = free_matrix(ctx, 'a', 2 ** n, 0, 1)
        m = CompleteExpvalMeasMitigator(arr(A))
        for r in range(1, n + 1):
            for qs in itertools.combinations(range(n), r):
                want = marg_oracle(A, n, qs)
                ctx.eq(m.assignment_matrix(list(qs)), want, 'subset %s' % (qs,))
                ctx.eq(m.assignment_fidelity(list(qs)),
                       ssum([want[i][i] for i in range(2 ** r)]) / 2 ** r, 'fidelity')
        ctx.eq(m.assignment_matrix(0), marg_oracle(A, n, [0]), 'single qubit given as a number')
        ctx.eq(m.assignment_matrix(), A, 'all qubits')
    return h


def pinv_ctx(ctx, mats, tag='p'):
    return p09.inverse_stub(ctx, mats, tag)


def h_sub_tensored(n):
    def h(ctx):
        noise = noise_model(ctx, range(n))
        m = TensoredExpvalMeasMitigator([arr(noise[q]) for q in range(n)])
        for r in range(1, n + 1):
            for qs in itertools.combinations(range(n), r):
                want = kron_matrix(noise, qs, bitstrings(r))
                ctx.eq(m.assignment_matrix(list(qs)), want, 'subset %s' % (qs,))
                ctx.eq(m.assignment_fidelity(list(qs)),
                       ssum([want[i][i] for i in range(2 ** r)]) / 2 ** r, 'fidelity')
        ctx.eq(m.assignment_matrix(), kron_matrix(noise, range(n), bitstrings(n)), 'all')
    return h


def h_inv_tensored(n):
    def h(ctx):
        noise = noise_model(ctx, range(n))
        mats = [noise[q] for q in range(n)]
        stub, invs, st = pinv_ctx(ctx, mats)
        with stub:
            m = TensoredExpvalMeasMitigator([arr(x) for x in mats])
        inv = dict(enumerate(invs))
        for r in range(1, n + 1):
            for qs in itertools.permutations(range(n), r):
                ok = [kron_matrix(inv, qs, bitstrings(r)),
                      kron_matrix(inv, sorted(qs), bitstrings(r))]
                got = m.mitigation_matrix(list(qs))
                if list(qs) == sorted(qs):
                    ctx.eq(got, ok[0], 'inverse on %s' % (qs,))
                else:
                    same = [And(*[close(got[i][j], w[i][j]) for i in range(2 ** r)
                                  for j in range(2 ** r)]) for w in ok]
                    ctx.check(Or(*same), 'inverse on reordered %s' % (qs,))
        ctx.eq(m.mitigation_matrix(), kron_matrix(inv, range(n), bitstrings(n)), 'inverse')
    return h


def h_inv_complete(n):
    def h(ctx):
        A = free_matrix(ctx, 'a', 2 ** n, 0, 1)
        sets = [qs for r in range(1, n + 1) for qs in itertools.combinations(range(n), r)]
        mats = [marg_oracle(A, n, qs) for qs in sets]
        if not ctx.sym:
            for x in mats:
                ctx.assume(abs(np.linalg.det(np.array(x, dtype=float))) > 1e-3)
        stub, invs, st = pinv_ctx(ctx, mats)
        with stub:
            m = CompleteExpvalMeasMitigator(arr(A))
            for _ in range(2):          # the second answer comes from a cache
                for qs, P in zip(sets, invs):
                    ctx.eq(m.mitigation_matrix(list(qs)), P, 'inverse on %s' % (qs,))
            ctx.eq(m.mitigation_matrix(), invs[-1], 'inverse on all qubits')
    return h


def marg_counts(counts, clbits):
    if clbits is None:
        return counts
    cb = sorted(clbits)
    out = {}
    for k, v in counts.items():
        kk = ''.join(k[-1 - c] for c in reversed(cb))
        out[kk] = out.get(kk, 0) + v
    return out


def ev_oracle(ctx, got, coeffs, counts, n):
    """expectation and standard error of coefficients per outcome"""
    e = ssum([coeffs[int(k, 2)] * v for k, v in counts.items()]) / SHOTS
    e2 = ssum([coeffs[int(k, 2)] * coeffs[int(k, 2)] * v for k, v in counts.items()]) / SHOTS
    ctx.eq(got[0], e, 'expectation value')
    var = (e2 - e * e) / SHOTS
    sd = got[1]
    ctx.check(Or(And(sd >= 0, close(sd * sd, var)), And(var <= 1e-9, sd >= 0, sd <= 1e-4)),
              'standard deviation')


def diag_of(ctx, n, given):
    if given:
        return [ctx.real('d%d' % i, -2, 2) for i in range(2 ** n)]
    return None


def zdiag(n):
    return [(-1) ** bin(i).count('1') for i in range(2 ** n)]


CONF = [  # (bits in the counts, clbits, qubits)
    (1, None, None), (2, None, None), (2, None, [1, 0]), (2, [1], [0]), (2, [0], None),
    (2, [1], [1]), (2, [0, 1], [1, 2]), (2, [1, 0], [0, 2]), (2, [0, 1], [2, 1]),
    (3, [2, 0], [1, 0]), (3, [0, 2], [2, 0]), (3, None, [2, 0, 1]), (3, None, None),
    (4, None, None), (4, [3, 0, 2], None)]


def h_ev_plain(idx, given):
    def h(ctx):
        nb, clbits, _ = CONF[idx]
        counts = dist(ctx, 'c', nb)
        mc = marg_counts(counts, clbits)
        n = len(clbits) if clbits is not None else nb
        d = diag_of(ctx, n, given)
        got = expectation_value(dict(counts), diagonal=d, clbits=clbits)
        ev_oracle(ctx, got, d or zdiag(n), mc, n)
    return h


def h_ev_shots(shots, given):
    """standard error for any number of shots, however large"""
    def h(ctx):
        k = ctx.int('k', 0, shots)
        counts = {'0': k, '1': shots - k}
        d = [0.5, -1.5] if given else None
        a, b = d or (1, -1)
        got = expectation_value(counts, diagonal=d)
        e = (a * k + b * (shots - k)) / shots
        var = (a - b) * (a - b) * k * (shots - k) / shots / shots       # per shot
        ctx.eq(got[0], e, 'expectation value')
        ctx.check(And(got[1] >= 0, Or(close(got[1] * got[1] * shots, var), var <= 1e-6)),
                  'standard deviation')
        ctx.check(got[1] * got[1] * shots <= var + 1e-6, 'standard deviation not above')
    return h


def meas_qubits(nb, clbits, qubits):
    """qubit of each bit of the marginal counts (ascending clbits)"""
    n = len(clbits) if clbits is not None else nb
    if qubits is None:
        return list(range(n))
    if clbits is None:
        return list(qubits)
    return [q for _, q in sorted(zip(clbits, qubits))]


NQ = 3


FIXED = {0: [[0.9, 0.2], [0.1, 0.8]], 1: [[0.95, 0.3], [0.05, 0.7]], 2: [[0.75, 0.1], [0.25, 0.9]]}


def h_ev_tensored(idx, given):
    def h(ctx):
        nb, clbits, qubits = CONF[idx]
        big = nb == 3 and clbits is None
        noise = FIXED if big else noise_model(ctx, range(NQ))
        mats = [noise[q] for q in range(NQ)]
        if big:
            stub, invs = replaced([]), [np.linalg.inv(np.array(x)).tolist() for x in mats]
        else:
            stub, invs, st = pinv_ctx(ctx, mats)
        with stub:
            m = TensoredExpvalMeasMitigator([arr(x) for x in mats])
        counts = dist(ctx, 'c', nb)
        mc = marg_counts(counts, clbits)
        n = len(clbits) if clbits is not None else nb
        d = diag_of(ctx, n, given)
        qs = meas_qubits(nb, clbits, qubits)
        P = kron_matrix(dict(enumerate(invs)), qs, bitstrings(n))
        dd = d or zdiag(n)
        coeffs = [ssum([dd[y] * P[y][x] for y in range(2 ** n)]) for x in range(2 ** n)]
        got = expectation_value(dict(counts), diagonal=d, clbits=clbits, qubits=qubits,
                                meas_mitigator=m)
        ev_oracle(ctx, got, coeffs, mc, n)
    return h


def permute(x, order):
    """index whose bit i is bit order[i] of x"""
    return sum(((x >> o) & 1) << i for i, o in enumerate(order))


def h_ev_complete(idx, given):
    def h(ctx):
        nb, clbits, qubits = CONF[idx]
        big = nb == 3 and clbits is None
        A = kron_matrix(noise_model(ctx, range(NQ)), range(NQ), bitstrings(NQ)) \
            if nb < 3 else kron_matrix(FIXED, range(NQ), bitstrings(NQ))
        qs = meas_qubits(nb, clbits, qubits)
        n = len(qs)
        marg = marg_oracle(A, NQ, qs)
        if big:
            stub, P = replaced([]), np.linalg.inv(np.array(marg)).tolist()
        else:
            stub, (P,), st = pinv_ctx(ctx, [marg])
        counts = dist(ctx, 'c', nb)
        mc = marg_counts(counts, clbits)
        d = diag_of(ctx, n, given)
        order = [qs.index(q) for q in sorted(qs)]       # sorted bit i <- bit order[i]
        dd = d or zdiag(n)
        coeffs = [ssum([dd[y] * P[permute(y, order)][permute(x, order)] for y in range(2 ** n)])
                  for x in range(2 ** n)]
        with stub:
            m = CompleteExpvalMeasMitigator(arr(A))
            got = m.expectation_value(dict(counts), diagonal=d, clbits=clbits, qubits=qubits)
            ev_oracle(ctx, got, coeffs, mc, n)
    return h


def h_restore(method, n):
    """noise -> calibration -> mitigated value of noisy counts equals the true value"""
    def h(ctx):
        noise = noise_model(ctx, range(n))
        circs, meta = expval_meas_mitigator_circuits(n, method=method)
        m = None
        with replaced([(np.linalg.inv, nparr.exact_inv)] if ctx.sym else []):
            m = ExpvalMeasMitigatorFitter(result([run_noisy(c, noise) for c in circs]), meta).fit()
            p = ([ctx.real('x%d' % i, 1, 100) for i in range(2 ** n - 1)] if n == 1 else
                 [120, 350, 200])
            p.append(SHOTS - ssum(p))
            raw = mv(kron_matrix(noise, range(n), bitstrings(n)), p)
            d = [ctx.real('d%d' % i, -2, 2) for i in range(2 ** n)]
            if n > 1:
                d = [1, -0.5, 2, 0.25][:2 ** n]
            got = m.expectation_value(dict(zip(bitstrings(n), raw)), diagonal=d)
        ctx.eq(got[0], ssum([a * b for a, b in zip(d, p)]) / SHOTS, 'true expectation value')
    return h


def h_gamma_tensored(n):
    def h(ctx):
        noise = {}
        for q in range(n):
            a, b = ctx.real('a%d' % q, 0, 0.1), ctx.real('b%d' % q, 0, 0.1)
            noise[q] = [[1 - a, b], [a, 1 - b]]
        stub, invs, st = pinv_ctx(ctx, [noise[q] for q in range(n)])
        with stub:
            m = TensoredExpvalMeasMitigator([arr(noise[q]) for q in range(n)])
        for qs in [None] + [list(c) for r in range(1, n + 1)
                            for c in itertools.permutations(range(n), r)]:
            g = 1
            for q in (qs if qs is not None else range(n)):
                e0, e1 = noise[q][1][0], noise[q][0][1]
                # largest column sum of the absolute inverse
                g = g * smax([1 - e1 + e0, 1 - e0 + e1]) / (1 - e0 - e1)
            ctx.eq(m.stddev_upper_bound(shots=25, qubits=qs), g / 5, 'bound for %s' % (qs,))
            if n == 1:
                o = m.mitigation_overhead(qubits=qs)
                ctx.check(And(o >= g * g - 1e-7, o < g * g + 1 + 1e-7), 'overhead')
                s = m.required_shots(1, qubits=qs)
                ctx.check(And(s >= 4 * g * g - 1e-7, s < 4 * g * g + 1 + 1e-7), 'shots')
    return h


def h_gamma_complete(ctx):
    A = p09.cal_mat(ctx, 'a', 2)
    stub, (P,), st = pinv_ctx(ctx, [A])
    if ctx.sym:
        P = [[ctx.real('q%d%d' % (i, j), -1.5, 1.5) for j in range(2)] for i in range(2)]
        st.invs = [P]
    with stub:
        m = CompleteExpvalMeasMitigator(arr(A))
        g = smax([ssum([abs(P[i][j]) for i in range(2)]) for j in range(2)])
        ctx.eq(m.stddev_upper_bound(shots=4), g / 2, 'bound')
        o = m.mitigation_overhead()
        ctx.check(And(o >= g * g - 1e-7, o < g * g + 1 + 1e-7), 'overhead')


# -------------------------------------------------------------------- CTMP
class Sp:
    """dense stand-in for the scipy sparse classes used by the code"""
    __array_ufunc__ = None

    def __init__(self, m, dtype=None):
        if isinstance(m, Sp):
            m = m.m
        elif isinstance(m, tuple):
            m = [[0] * m[1] for _ in range(m[0])]
        elif isinstance(m, np.ndarray):
            m = [[m[i, j] for j in range(m.shape[1])] for i in range(m.shape[0])]
        self.m = [list(r) for r in m]
        self.shape = (len(self.m), len(self.m[0]))

    def _z(self, o, f):
        o = Sp(o)
        return Sp([[f(a, b) for a, b in zip(r, s)] for r, s in zip(self.m, o.m)])

    def __add__(self, o):
        return self._z(o, lambda a, b: a + b)

    __radd__ = __iadd__ = __add__

    def __sub__(self, o):
        return self._z(o, lambda a, b: a - b)

    def __mul__(self, c):
        return Sp([[a * c for a in r] for r in self.m])

    __rmul__ = __mul__

    def __truediv__(self, c):
        return Sp([[a / c if is_sym(a) or a != 0 else 0 for a in r] for r in self.m])

    def __neg__(self):
        return self * -1

    def tocoo(self, *a, **k):
        return self

    tocsr = copy = tocoo

    def tocsc(self, *a, **k):
        return Csc(self.m)

    def todense(self):
        return arr(self.m)

    toarray = todense

    @property
    def T(self):
        return Sp([list(r) for r in zip(*self.m)])

    def _nz(self):
        return [(i, j, v) for i, r in enumerate(self.m) for j, v in enumerate(r)
                if is_sym(v) or v != 0]

    @property
    def row(self):
        return np.array([i for i, j, v in self._nz()], dtype=int)

    @property
    def col(self):
        return np.array([j for i, j, v in self._nz()], dtype=int)

    @property
    def data(self):
        return arr([v for i, j, v in self._nz()])

    def diagonal(self):
        return arr([self.m[i][i] for i in range(len(self.m))])


class Csc(Sp):
    def _nz(self):
        return [(i, j, self.m[i][j]) for j in range(self.shape[1]) for i in range(self.shape[0])
                if is_sym(self.m[i][j]) or self.m[i][j] != 0]

    @property
    def indices(self):
        return self.row

    @property
    def indptr(self):
        c = [j for i, j, v in self._nz()]
        return np.array([sum(1 for x in c if x < j) for j in range(self.shape[1] + 1)])


def sp_kron(a, b, *r, **k):
    a, b = Sp(a), Sp(b)
    return Sp([[x * y for x in ra for y in rb] for ra in a.m for rb in b.m])


def sp_eye(n, m=None, *a, **k):
    return Sp(np.eye(n, m or n).tolist())


def sparse(ctx):
    if not ctx.sym:
        return replaced([])
    return replaced([(sps.coo_matrix, Sp), (sps.csc_matrix, Sp), (sps.csr_matrix, Sp),
                     (sps.kron, sp_kron), (sps.eye, sp_eye), (sps.identity, sp_eye)])


def gen_oracle(gens, rates, qubits):
    """sum of rate (|b><a| - |a><a|) over generators inside the (ascending) qubits"""
    n = len(qubits)
    d = 2 ** n
    G = [[0] * d for _ in range(d)]
    for (b, a, c), r in zip(gens, rates):
        if not set(c) <= set(qubits):
            continue
        pos = [list(qubits).index(q) for q in c]
        for x in range(d):
            if all((x >> p) & 1 == int(ch) for p, ch in zip(pos, a)):
                y = x
                for p, ch in zip(pos, b):
                    y = (y & ~(1 << p)) | (int(ch) << p)
                G[y][x] = G[y][x] + r
                G[x][x] = G[x][x] - r
    return G


GENS = [('1', '0', (0,)), ('0', '1', (0,)), ('1', '0', (1,)), ('0', '1', (2,)),
        ('11', '00', (0, 1)), ('00', '11', (1, 2)), ('10', '01', (0, 2)), ('10', '01', (2, 0)),
        ('01', '10', (2, 1))]


def dense(m):
    return m.todense() if hasattr(m, 'todense') else m


def h_gen(ctx):
    rates = [ctx.real('r%d' % i, 0.001, 0.2) for i in range(len(GENS))]
    with sparse(ctx):
        m = CTMPExpvalMeasMitigator(GENS, rates)
        for qs in ([0, 1, 2], [0], [1], [0, 1], [1, 2], [0, 2]):
            ctx.eq(np.asarray(dense(m.generator_matrix(list(qs)))), gen_oracle(GENS, rates, qs),
                   'generator on %s' % qs)
        ctx.eq(np.asarray(dense(m.generator_matrix())), gen_oracle(GENS, rates, [0, 1, 2]),
               'generator')
        for qs in ([0], [1], [0, 1]):
            G = gen_oracle(GENS, rates, qs)
            ctx.eq(m.noise_strength(qs), smax([-G[i][i] for i in range(len(G))]),
                   'noise strength on %s' % qs)
        G = gen_oracle(GENS[:3], rates[:3], [0, 1])
        m3 = CTMPExpvalMeasMitigator(GENS[:3], rates[:3])
        g = sexp(2 * smax([-G[i][i] for i in range(4)]))
        b = m3.stddev_upper_bound(shots=16)
        ctx.eq(b, g / 4, 'bound on the standard deviation')
        o = m3.mitigation_overhead()
        ctx.check(And(o >= g * g - 1e-7, o < g * g + 1 + 1e-7), 'overhead')
        m2 = CTMPExpvalMeasMitigator(GENS[:2], [rates[0], 0], num_qubits=2)
        ctx.eq(np.asarray(dense(m2.generator_matrix())), gen_oracle(GENS[:1], rates[:1], [0, 1]),
               'vanishing rate')
        z = CTMPExpvalMeasMitigator(GENS[:2], [0, 0])
        ctx.eq(z.noise_strength(), 0, 'no noise')


def h_expm(ctx):
    gens = GENS[:3] + GENS[4:5]
    rates = [ctx.real('r%d' % i, 0.001, 0.2) for i in range(len(gens))]
    G = gen_oracle(gens, rates, [0, 1])
    neg = [[-v for v in r] for r in G]
    if ctx.sym:
        E, F = free_matrix(ctx, 'e', 4), free_matrix(ctx, 'f', 4)
        st = PInv(ctx, [G, neg], [E, F])
        stub = replaced([(scipy.linalg.expm, st)])
    else:
        E, F = (scipy.linalg.expm(np.array(x, dtype=float)).tolist() for x in (G, neg))
        stub = replaced([])
    with sparse(ctx), stub:
        m = CTMPExpvalMeasMitigator(gens, rates)
        ctx.eq(np.asarray(m.assignment_matrix()), E, 'assignment matrix is exp(G)')
        ctx.eq(np.asarray(m.mitigation_matrix()), F, 'mitigation matrix is exp(-G)')


def h_expm_sub(ctx):
    """subsets of the qubits, one after the other on the same mitigator"""
    rates = [ctx.real('r%d' % i, 0.001, 0.2) for i in range(len(GENS))]
    sub = [[0], [1], [2, 0], [1, 2], [1, 0], [0]]
    Gs = [gen_oracle(GENS, rates, sorted(q)) for q in sub[:-1]]
    neg = [[[-v for v in r] for r in G] for G in Gs]
    if ctx.sym:
        E = [free_matrix(ctx, 'e%d' % i, len(G)) for i, G in enumerate(Gs + neg)]
        stub = replaced([(scipy.linalg.expm, PInv(ctx, Gs + neg, E))])
    else:
        E = [scipy.linalg.expm(np.array(x, dtype=float)).tolist() for x in Gs + neg]
        stub = replaced([])
    with sparse(ctx), stub:
        m = CTMPExpvalMeasMitigator(GENS, rates)
        for i, q in enumerate(sub):
            j = i % len(Gs)
            ctx.eq(np.asarray(m.assignment_matrix(list(q))), E[j], 'assignment matrix of %s' % q)
            ctx.eq(np.asarray(m.mitigation_matrix(list(q))), E[j + len(Gs)],
                   'mitigation matrix of %s' % q)


def perm2(L):
    """matrix on (k, j) from the matrix on (j, k)"""
    s = [0, 2, 1, 3]
    return [[L[s[i]][s[j]] for j in range(4)] for i in range(4)]


def h_ctmp_fit(n):
    """the generator of the fitted mitigator from the logarithms of the pair matrices"""
    def h(ctx):
        noise = noise_model(ctx, range(n))
        A = {q: noise[q] for q in noise}
        mats, logs, L = [], [], {}
        for j in range(n):
            for k in range(j + 1, n):
                mm_ = [[A[j][a >> 1][b >> 1] * A[k][a & 1][b & 1] for b in range(4)]
                       for a in range(4)]
                if ctx.sym:
                    # logarithms of stochastic matrices need not be generators: signs are free
                    l = [[ctx.real('l%d%d_%d%d' % (j, k, a, b),
                                   -0.1 if (a, b) in ((3, 0), (1, 2)) and j == 0 and k == 1
                                   else 0.01, 0.2)
                          if a != b else -0.3 for b in range(4)] for a in range(4)]
                    for r in l:
                        for v in r:
                            if is_sym(v):
                                ctx.assume(Or(v < -0.001, v > 0.001))
                else:
                    l = np.real(scipy.linalg.logm(np.array(mm_, dtype=float))).tolist()
                L[j, k], L[k, j] = l, perm2(l)
                mats += [mm_, perm2(mm_)]
                logs += [l, perm2(l)]
        if n == 1:
            l1 = ([[-0.1, ctx.real('l01', 0.01, 0.2)], [ctx.real('l10', 0.01, 0.2), -0.1]]
                  if ctx.sym else
                  np.real(scipy.linalg.logm(np.array(A[0], dtype=float))).tolist())
            mats, logs = [A[0]], [l1]
        circs, meta = expval_meas_mitigator_circuits(n, method='CTMP')
        f = ExpvalMeasMitigatorFitter(result([run_noisy(c, noise) for c in circs]), meta)
        stub = [(scipy.linalg.logm, PInv(ctx, mats, logs))] if ctx.sym else []
        with sparse(ctx), replaced(stub):
            m = f.fit()
            G = np.asarray(dense(m.generator_matrix(list(range(n)))))

        def pos(v):
            return ite(v > 0, v, 0)
        gens, rates = [], []
        for j in range(n):
            for b, a in (('1', '0'), ('0', '1')):
                gens.append((b, a, (j,)))
                if n == 1:
                    rates.append(pos(l1[int(b)][int(a)]))
                else:
                    vs = [pos(L[j, k][int(b + s, 2)][int(a + s, 2)]) for k in range(n) if k != j
                          for s in '01']
                    rates.append(ssum(vs) / len(vs))
        for j in range(n):
            for k in range(j + 1, n):
                for b, a in (('11', '00'), ('00', '11'), ('10', '01'), ('01', '10')):
                    gens.append((b, a, (j, k)))
                    rates.append(pos(L[j, k][int(b, 2)][int(a, 2)]))
        want = gen_oracle(gens, rates, list(range(n)))
        # rates below the threshold 1e-5 may be dropped
        ctx.check(And(*[And(G[i][j] - want[i][j] < 1e-4, G[i][j] - want[i][j] > -1e-4)
                        for i in range(2 ** n) for j in range(2 ** n)]), 'fitted generator')
    return h


class FakeRng(np.random.Generator):
    """records the distributions it is given and returns prescribed draws"""
    def __init__(self, alphas, xs, rs):
        super().__init__(np.random.PCG64(1))
        self._a, self._x, self._r = alphas, xs, rs
        self.log = []

    def poisson(self, lam=1.0, size=None):
        self.log.append(('poisson', lam, size))
        return np.array((self._a + [0] * size)[:size])

    def choice(self, a, size=None, replace=True, p=None, **k):
        self.log.append(('choice', a, p))
        return np.array((self._x * size)[:size])

    def random(self, size=None, **k):
        self.log.append(('random', size))
        if size == 0:
            return np.zeros(0)
        if size != len(self._r):
            raise Unsupported('random numbers')
        return arr(self._r)


def h_batches(shots, qubits):
    """numbers of samples that need several batches"""
    def h(ctx):
        import math as M
        n = len(qubits)
        gens, rates = [('1', '0', (0,)), ('0', '1', (1,))], [0.125, 0.0625]
        m = CTMPExpvalMeasMitigator(gens, rates)
        G = np.array(gen_oracle(gens, rates, sorted(qubits)), dtype=float)
        gamma = max(-np.diag(G))
        B = np.eye(2 ** n) + G / gamma
        alphas = [2, 1, 0]
        rs = [ctx.real('r%d' % i, 0, 0.999) for i in range(3)]
        rng = FakeRng(alphas, [1, 0], rs)
        m.seed(rng)
        d = [0.5, -1.5, 2, 1][:2 ** n]
        a = ctx.pick('a', [1, shots // 3, shots])
        counts = {'0' * n: a}
        if a < shots:
            counts['0' * (n - 1) + '1'] = shots - a
        with sparse(ctx):
            got = m.expectation_value(counts, diagonal=d, qubits=qubits)
        sizes = [l[2] for l in rng.log if l[0] == 'poisson']
        num = int(M.ceil(max(1600, shots) * M.exp(2 * gamma)))
        ctx.check(sum(sizes) == num, 'number of samples')
        acc = 0
        for size in sizes:
            k = 0
            for t in range(size):
                if t >= len(alphas):
                    acc += d[1] * ((size - t) // 2 + (size - t) % 2 * (t % 2 == 0))
                    acc += d[0] * ((size - t) // 2 + (size - t) % 2 * (t % 2 == 1))
                    break
                y = [1, 0][t % 2]
                for _ in range(alphas[t]):
                    cols = [x for x in range(2 ** n) if abs(B[x][y]) > 1e-15]
                    cum, nxt = 0.0, cols[-1]
                    for x in cols[:-1]:
                        cum += B[x][y]
                        ctx.assume(Or(rs[k] < cum - 1e-9, rs[k] > cum + 1e-9))
                        if bool(rs[k] < cum):
                            nxt = x
                            break
                    y = nxt
                    k += 1
                acc += d[y] * (-1) ** alphas[t]
        ctx.eq(got[0], acc * M.exp(2 * gamma) / num, 'average over all batches')
        ctx.eq(got[1], M.exp(2 * gamma) / M.sqrt(shots), 'standard deviation bound')
    return h


CRATES = [0.05, 0.03, 0.02, 0.04, 0.06, 0.03, 0.05, 0.02, 0.01]


def h_sample(idx, given):
    def h(ctx):
        nb, clbits, qubits = CONF[idx]
        m = CTMPExpvalMeasMitigator(GENS, CRATES)
        qs = meas_qubits(nb, clbits, qubits)
        n = len(qs)
        counts = dist(ctx, 'c', nb)
        mc = marg_counts(counts, clbits)
        d = diag_of(ctx, n, given)
        dd = d or zdiag(n)
        sq = sorted(qs)
        order = [qs.index(q) for q in sq]
        G = np.array(gen_oracle(GENS, CRATES, sq), dtype=float)
        gamma = max(-G[i][i] for i in range(2 ** n))
        B = np.eye(2 ** n) + (G / gamma if gamma else 0)
        alphas = [1, 2, 0, 1]
        xs = [1 % 2 ** n, 0, 2 ** n - 1]
        rs = [ctx.real('r%d' % i, 0, 0.999) for i in range(4)]
        rng = FakeRng(alphas, xs, rs)
        if idx % 2:
            # the mitigator was used for other qubits before
            for o in itertools.combinations(range(3), min(n, 3)):
                if list(o) != sq:
                    m.seed(FakeRng([0], [0, 1], []))
                    with sparse(ctx):
                        m.expectation_value({'0' * n: 7, '1' * n: 5}, qubits=list(o))
        m.seed(rng)
        with sparse(ctx):
            got = m.expectation_value(dict(counts), diagonal=d, clbits=clbits, qubits=qubits)
        kinds = [l[0] for l in rng.log]
        if sorted(kinds) != ['choice', 'poisson', 'random']:
            raise Unsupported('other sampling scheme')
        for l in rng.log:
            if l[0] == 'poisson':
                ctx.eq(l[1], gamma, 'mean number of steps')
            if l[0] == 'choice':
                ctx.check(l[1] == 2 ** n, 'states')
                ctx.eq([l[2][permute(int(k, 2), order)] for k in bitstrings(n)],
                       [mc[k] / SHOTS for k in bitstrings(n)], 'initial distribution')
        # trajectories
        import math as M
        num = int(M.ceil(max(1600, SHOTS) * M.exp(2 * gamma)))
        cuts = []
        k = 0
        acc = 0
        inv = [0] * len(order)
        for i, o in enumerate(order):
            inv[o] = i
        for s in range(num):
            y = xs[s % len(xs)]
            a = alphas[s] if s < len(alphas) else 0
            for _ in range(a):
                cum, nxt = 0.0, None
                cols = [t for t in range(2 ** n) if abs(B[t][y]) > 1e-15]
                near = []
                for t in cols[:-1]:
                    cum += B[t][y]
                    near.append(Or(rs[k] < cum - 1e-9, rs[k] > cum + 1e-9))
                ctx.assume(And(*near) if near else True)
                cum = 0.0
                nxt = cols[-1]
                for t in cols[:-1]:
                    cum += B[t][y]
                    if bool(rs[k] < cum):
                        nxt = t
                        break
                y = nxt
                k += 1
            v = dd[permute(y, inv)]
            acc = acc + (v if a % 2 == 0 else -v)
        ctx.eq(got[0], acc * M.exp(2 * gamma) / num, 'signed average over the trajectories')
        ctx.eq(got[1], M.exp(2 * gamma) / M.sqrt(SHOTS), 'standard deviation bound')
    return h


def obligations(tier):
    inv = ['inv/pinv']
    ob = [Obligation('circuits', h_circuits, '1-4 qubits, all methods'),
          Obligation('fit-complete-1', h_fit_complete(1, False), 'all counts 0..100'),
          Obligation('fit-complete-2', h_fit_complete(2, False), 'all counts 0..100'),
          Obligation('fit-complete-2r', h_fit_complete(2, True), 'repeated calibration circuit'),
          Obligation('fit-missing', h_fit_missing, '')]
    for n in (1, 2, 3):
        ob.append(Obligation('fit-noise-complete-%d' % n, h_fit_noise('complete', n),
                             'independent readout noise'))
        ob.append(Obligation('fit-noise-tensored-%d' % n, h_fit_noise('tensored', n),
                             'independent readout noise'))
    ob.append(Obligation('fit-noise-tensored-labels', h_fit_noise('tensored', 2, ['01', '10']),
                         'other calibration states'))
    ob.append(Obligation('fit-noise-tensored-labels3', h_fit_noise('tensored', 3, ['011', '100',
                                                                               '111', '000']),
                         'other calibration states'))
    for n in (1, 2, 3):
        ob.append(Obligation('sub-complete-%d' % n, h_sub_complete(n), 'any matrix, all subsets'))
        ob.append(Obligation('sub-tensored-%d' % n, h_sub_tensored(n), 'any noise, all subsets'))
        ob.append(Obligation('inv-tensored-%d' % n, h_inv_tensored(n), 'all subsets', stubs=inv))
    ob.append(Obligation('inv-complete-2', h_inv_complete(2), 'all subsets', stubs=inv))
    ob.append(Obligation('inv-complete-3', h_inv_complete(3), 'all subsets', stubs=inv))
    for sh in (1, 3, 1000, 10 ** 6, 10 ** 8):
        for g in (0, 1):
            ob.append(Obligation('ev-shots-%d-%d' % (sh, g), h_ev_shots(sh, g), '%d shots' % sh,
                                 query_ms=5000))
    for i, c in enumerate(CONF):
        for g in ((False, True) if i in (0, 1, 4) or i > 10 else (True,)):
            t = '%d%s' % (i, 'd' if g else 'z')
            tx = 'bits %s clbits %s qubits %s, %s' % (c + ('any observable' if g else 'parity',))
            if c[2] is None:
                ob.append(Obligation('ev-plain-' + t, h_ev_plain(i, g), tx, query_ms=1500))
            if c[0] > 3:
                continue
            ob.append(Obligation('ev-tensored-' + t, h_ev_tensored(i, g), tx, stubs=inv, query_ms=1500))
            ob.append(Obligation('ev-complete-' + t, h_ev_complete(i, g), tx, stubs=inv, query_ms=1500))
            ob.append(Obligation('ctmp-sample-' + t, h_sample(i, g), tx + ', all random numbers',
                                 stubs=['random generator']))
    for meth, n in (('complete', 1), ('tensored', 1), ('tensored', 2)):
        ob.append(Obligation('restore-%s-%d' % (meth, n), h_restore(meth, n),
                             'calibration to expectation value', query_ms=1000))
    ob.append(Obligation('gamma-tensored-1', h_gamma_tensored(1), 'errors 0..0.1', stubs=inv))
    ob.append(Obligation('gamma-tensored-2', h_gamma_tensored(2), 'errors 0..0.1', stubs=inv))
    ob.append(Obligation('gamma-complete', h_gamma_complete, 'any inverse', stubs=inv))
    ob.append(Obligation('ctmp-generator', h_gen, '3 qubits, 9 generators, any rates',
                         stubs=['scipy.sparse']))
    ob.append(Obligation('ctmp-expm-subsets', h_expm_sub, '3 qubits, subsets, any rates',
                         stubs=['scipy.sparse', 'expm']))
    for sh, qs in ((20000, [0]), (45000, [0]), (90000, [0, 1])):
        ob.append(Obligation('ctmp-batches-%d' % sh, h_batches(sh, qs),
                             '%d shots, all random numbers' % sh))
    ob.append(Obligation('ctmp-expm', h_expm, '2 qubits, any rates', stubs=['scipy.sparse', 'expm']))
    for n in (1, 2, 3):
        ob.append(Obligation('ctmp-fit-%d' % n, h_ctmp_fit(n), 'any logarithms of pair matrices',
                             stubs=['scipy.sparse', 'logm']))
    return ob
