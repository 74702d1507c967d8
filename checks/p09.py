"""P09 measurement-error mitigation: calibration circuits, calibration matrices, filters."""
import copy

import numpy as np
import scipy.linalg
import scipy.optimize
import qiskit.tools.parallel
from qiskit.circuit import QuantumRegister, ClassicalRegister
from qiskit.exceptions import QiskitError
from qiskit.result import Counts
from qiskit.ignis.mitigation.measurement import (
    complete_meas_cal, tensored_meas_cal, CompleteMeasFitter, TensoredMeasFitter,
    MeasurementFilter, TensoredFilter)

from checks.lib import *
from checks import circ as cs

EXPLANATION = (
    'The calibration circuits are interpreted with an independent readout model in which every '
    'qubit has its own symbolic misassignment probabilities; the fitters run on the resulting '
    'real Result objects and on results with fully symbolic counts. z3 shows that calibration '
    'matrices, subset matrices and fidelities equal their definitions. The filters run with '
    'symbolic matrices and data; pinv is an arbitrary symbolic matrix tied to its argument and '
    'minimize is replaced by a recorder, so the applied correction and the constrained problem '
    'handed to the optimiser are compared with their definitions for every value.')
OUTSIDE = ('more than 3 calibrated qubits (4 in the circuit); convergence of SLSQP (scipy); '
           'plots; counts with several classical registers')
ASSUMPTIONS = ['scipy pinv returns the inverse of an invertible matrix',
               'minimize returns a feasible minimiser of the problem it is given']


def noise_model(ctx, qubits):
    """qubit -> 2x2 matrix A[measured][prepared]"""
    m = {}
    for q in qubits:
        a, b = ctx.real('p10_%d' % q, 0, 0.4), ctx.real('p01_%d' % q, 0, 0.4)
        m[q] = [[1 - a, b], [a, 1 - b]]
    return m


def prepared(circ):
    """(qubit -> bit, clbit -> qubit) of a circuit of X gates and measurements"""
    bits = {i: 0 for i in range(len(circ.qubits))}
    meas = {}
    for name, params, q, c, cond, inst in cs.flat(circ):
        if name == 'x':
            if q[0] in meas.values():
                raise Unsupported('gate after measurement')
            bits[q[0]] ^= 1
        elif name == 'measure':
            if c[0] in meas:
                raise Unsupported('clbit written twice')
            meas[c[0]] = q[0]
        elif name not in ('barrier', 'id'):
            raise Unsupported('gate %s in a calibration circuit' % name)
    return bits, meas


def run_noisy(circ, noise, shots=1000):
    """exact expected counts of the circuit under the readout model"""
    bits, meas = prepared(circ)
    nc = len(circ.clbits)
    out = {'': shots}
    for c in range(nc):            # clbit 0 is the rightmost character
        new = {}
        for k, v in out.items():
            if c in meas:
                q = meas[c]
                for b in (0, 1):
                    new[str(b) + k] = v * noise[q][b][bits[q]]
            else:
                new['0' + k] = v
        out = new
    return exp_result(circ.name, nc, counts=out, shots=shots)


def kron_matrix(noise, qubits, labels):
    """rows/columns by labels; the rightmost character belongs to qubits[0]"""
    out = []
    for r in labels:
        row = []
        for c in labels:
            v = 1
            for i, q in enumerate(qubits):
                v = v * noise[q][int(r[-1 - i])][int(c[-1 - i])]
            row.append(v)
        out.append(row)
    return out


def rows(m):
    return [[m[i][j] for j in range(np.shape(m)[1])] for i in range(np.shape(m)[0])]


LISTS = [([0], None), ([0, 1], None), ([1, 0], None), ([2, 0], None), (None, 2), ([1, 3], 4),
         ([3, 1], 4), ([2, 0, 1], None)]


def h_complete(idx, cr=None, label=''):
    def h(ctx):
        ql, qr = LISTS[idx]
        n = len(ql) if ql is not None else qr
        circs, labels = complete_meas_cal(ql, qr if qr is None else
                                          QuantumRegister(qr, 'qq'), cr, label)
        ctx.check(sorted(labels) == bitstrings(n), 'state labels')
        ctx.check(len(circs) == 2 ** n and [c.name for c in circs] ==
                  ['%scal_%s' % (label, s) for s in labels], 'circuit names')
        qs = ql if ql is not None else list(range(qr))
        for c, s in zip(circs, labels):
            bits, meas = prepared(c)
            ctx.check([meas.get(i) for i in range(n)] == list(qs) and len(meas) == n,
                      'measured qubits in order')
            ctx.check(all(bits[q] == int(s[-1 - i]) for i, q in enumerate(qs)) and
                      sum(bits.values()) == s.count('1'), 'prepared state')
        noise = noise_model(ctx, qs)
        res = [run_noisy(c, noise) for c in circs]
        extra = exp_result('other', n, counts={'0' * n: 5})
        fit = CompleteMeasFitter([result(res[:1] + [extra]), result(res[1:][::-1])], labels,
                                 ql, label)
        ctx.eq(fit.cal_matrix, kron_matrix(noise, qs, labels), 'calibration matrix')
        ctx.check(list(fit.state_labels) == list(labels), 'labels of the matrix')
        ctx.check(list(fit.qubit_list) == list(range(n) if ql is None else ql), 'qubit list')
        diag = kron_matrix(noise, qs, labels)
        ctx.eq(fit.readout_fidelity(), ssum([diag[i][i] for i in range(2 ** n)]) / 2 ** n,
               'readout fidelity')
    return h


PATTERNS = [[[0], [1]], [[1], [0]], [[0, 1], [2]], [[2], [0, 1]], [[1, 0], [2]], [[3], [0, 2]],
            [[2, 0], [1]], [[0], [1], [2]], [[2], [1], [0]]]


def h_tensored(idx, cr=None, label=''):
    def h(ctx):
        pat = PATTERNS[idx]
        circs, pat2 = tensored_meas_cal(pat, None, cr, label)
        ctx.check([list(p) for p in pat2] == pat, 'pattern returned')
        qs = [q for p in pat for q in p]
        noise = noise_model(ctx, qs)
        for c in circs:
            bits, meas = prepared(c)
            s = c.name[len(label) + 4:]
            ctx.check([meas.get(i) for i in range(len(qs))] == qs, 'measured qubits in order')
            ctx.check(all(bits[q] == int(s[-1 - i]) for i, q in enumerate(qs)), 'prepared state')
        res = [run_noisy(c, noise) for c in circs]
        fit = TensoredMeasFitter(result(res), pat, None, label)
        ctx.check(len(fit.cal_matrices) == len(pat), 'one matrix per group')
        for i, p in enumerate(pat):
            want = kron_matrix(noise, p, bitstrings(len(p)))
            ctx.eq(fit.cal_matrices[i], want, 'calibration matrix of group %d' % i)
            ctx.eq(fit.readout_fidelity(i), ssum([want[j][j] for j in range(len(want))]) /
                   len(want), 'readout fidelity of group %d' % i)
        ctx.check(fit.nqubits == len(qs) and fit.filter.nqubits == len(qs), 'qubits')
    return h


def h_counts(sizes, split, labels=None):
    """symbolic counts; any split over results"""
    def h(ctx):
        n = sum(sizes)
        big = bitstrings(max(sizes))
        cals = []
        for s in big:
            name = ''
            for k in sizes:
                name = s[:k] + name
            cals.append(name)
        pat, q = [], 0
        for k in sizes:
            pat.append(list(range(q, q + k)))
            q += k
        data, results = [], []
        for r in range(split):
            exps = []
            for s in cals:
                if r and s == cals[0]:
                    continue
                c = sym_counts(ctx, 'c%d.%s' % (r, s), n, 200)
                data.append((s, c))
                exps.append(exp_result('cal_' + s, n, counts=c))
            results.append(result(exps if r % 2 == 0 else exps[::-1]))
        if split == 1:
            fit = TensoredMeasFitter(results[0], pat, labels)
        else:
            fit = TensoredMeasFitter(results[0], pat, labels)
            fit.add_data(results[1:], rebuild_cal_matrix=split != 3)
            if split == 3:
                fit.add_data([], rebuild_cal_matrix=True)
        hi = n
        for g, k in enumerate(sizes):
            lo = hi - k
            lab = labels[g] if labels else bitstrings(k)
            num = {(a, b): 0 for a in lab for b in lab}
            for s, c in data:
                for m, v in c.items():
                    num[m[lo:hi], s[lo:hi]] = num[m[lo:hi], s[lo:hi]] + v
            got = fit.cal_matrices[g]
            for j, b in enumerate(lab):
                tot = ssum([num[a, b] for a in lab])
                for i, a in enumerate(lab):
                    x = got[i][j]
                    ctx.check(ite(tot == 0, close(x, 0), close(x * tot, num[a, b])),
                              'entry is the fraction of outcomes')
            hi = lo
    return h


def free_matrix(ctx, tag, d, lo=0.05, hi=2):
    return [[ctx.real('%s%d%d' % (tag, i, j), lo, hi) for j in range(d)] for i in range(d)]


def h_subset(n, order):
    """subset of a calibration of independent and of arbitrary matrices"""
    def h(ctx):
        ql = order
        labels = bitstrings(n)
        noise = noise_model(ctx, ql)
        fit = CompleteMeasFitter(None, labels, ql)
        fit.cal_matrix = arr(kron_matrix(noise, ql, labels))
        subs = [[q] for q in ql] + [[a, b] for a in ql for b in ql if a != b]
        for sub in subs:
            f2 = fit.subset_fitter(sub)
            ctx.check(list(f2.qubit_list) == sub, 'qubits of the subset')
            ctx.eq(f2.cal_matrix, kron_matrix(noise, sub, f2.state_labels),
                   'matrix of the subset %s' % sub)
        ctx.raises(QiskitError, lambda: fit.subset_fitter([9]), 'foreign qubit')
        ctx.raises(QiskitError, lambda: fit.subset_fitter(), 'no list')
    return h


def h_subset_free(ctx):
    """correlated calibration: the other qubits are averaged over their preparations"""
    A = free_matrix(ctx, 'a', 4, 0, 1)
    fit = CompleteMeasFitter(None, bitstrings(2), [5, 7])
    fit.cal_matrix = arr(A)
    for i, q in enumerate((5, 7)):
        got = fit.subset_fitter([q]).cal_matrix
        for a in (0, 1):
            for b in (0, 1):
                want = 0
                for r in range(4):
                    for c in range(4):
                        if (r >> i) & 1 == a and (c >> i) & 1 == b:
                            want = want + A[r][c]
                ctx.eq(got[a][b], want / 2, 'averaged over the other qubit')


def h_fidelity(ctx):
    A = free_matrix(ctx, 'a', 4, 0, 1)
    labels = bitstrings(2)
    fit = CompleteMeasFitter(None, labels, [0, 1])
    ctx.raises(QiskitError, lambda: fit.readout_fidelity(), 'no matrix')
    fit.cal_matrix = arr(A)
    groups = ctx.pick('g', [[['00', '11'], ['01']], [['01', '10']], [['11'], ['00']],
                            [['00', '01', '10', '11']], [['10', '01', '11'], ['00']]])
    want = 0
    for g in groups:
        ix = [labels.index(s) for s in g]
        want = want + ssum([A[i][j] for i in ix for j in ix]) / len(ix)
    ctx.eq(fit.readout_fidelity(groups), want / len(groups), 'fidelity of groups of states')


# ------------------------------------------------------------------ filters
class PInv:
    """arbitrary inverse: a free matrix for each distinct argument"""
    def __init__(self, ctx, mats, invs):
        self.ctx, self.mats, self.invs, self.n = ctx, mats, invs, 0

    def __call__(self, a, *x, **k):
        self.n += 1
        for m, p in zip(self.mats, self.invs):
            if np.shape(m) == np.shape(a) and all(
                    is_same(a[i][j], m[i][j]) for i in range(len(m)) for j in range(len(m))):
                return arr(p)
        raise Unsupported('inverse of another matrix')


def is_same(a, b):
    t = close(a, b)
    return t is True or (is_sym(t) and core._CUR.valid(t))


def inverse_stub(ctx, mats, tag):
    if not ctx.sym:
        return replaced([]), [np.linalg.inv(np.array(m, dtype=float)).tolist() for m in mats], None
    invs = [free_matrix(ctx, '%s%d_' % (tag, i), len(m)) for i, m in enumerate(mats)]
    st = PInv(ctx, mats, invs)
    return replaced([(scipy.linalg.pinv, st), (np.linalg.pinv, st), (np.linalg.inv, st),
                     (scipy.linalg.inv, st)]), invs, st


def diag_dominant(ctx, mats):
    if not ctx.sym:
        return
    return


def cal_mat(ctx, tag, d):
    """column-stochastic, diagonally dominant"""
    m = [[None] * d for _ in range(d)]
    for j in range(d):
        off = [ctx.real('%s%d%d' % (tag, i, j), 0.01, 0.4 / (d - 1)) for i in range(d) if i != j]
        it = iter(off)
        for i in range(d):
            m[i][j] = (1 - ssum(off)) if i == j else next(it)
    return m


def data_of(got, labels):
    return [got.get(s, 0) for s in labels]


def mv(m, v):
    return [ssum([m[i][j] * v[j] for j in range(len(v))]) for i in range(len(m))]


def h_pinv(form, labels):
    """direct inversion, every form of input"""
    def h(ctx):
        d = len(labels)
        A = cal_mat(ctx, 'a', d)
        stub, (P,), st = inverse_stub(ctx, [A], 'p')
        flt = MeasurementFilter(arr(A), list(labels))
        blocks = 2 if form == 'long' else 1
        raw = [[ctx.real('r%d_%d' % (b, i), 1, 1000) for i in range(d)] for b in range(blocks)]
        want = [mv(P, r) for r in raw]
        with stub:
            if form == 'dict':
                data = dict(zip(labels, raw[0]))
                keep = dict(data)
                got = flt.apply(data, method='pseudo_inverse')
                ctx.check(type(got) is dict, 'dict returned')
                got = [data_of(got, labels)]
                ctx.check(all(data[k] is keep[k] for k in keep) and len(data) == len(keep),
                          'input unchanged')
            elif form == 'missing':
                data = {s: v for s, v in zip(labels, raw[0]) if s != labels[1]}
                raw[0][1] = 0
                want = [mv(P, raw[0])]
                got = [data_of(flt.apply(data, method='pseudo_inverse'), labels)]
            elif form == 'list':
                data = list(raw[0])
                got = [list(flt.apply(data, method='pseudo_inverse'))]
                ctx.check(len(data) == d and all(u is v for u, v in zip(data, raw[0])),
                          'input unchanged')
            else:
                data = raw[0] + raw[1]
                g = flt.apply(data, method='pseudo_inverse')
                ctx.check(len(data) == 2 * d and
                          all(u is v for u, v in zip(data, raw[0] + raw[1])), 'input unchanged')
                ctx.check(len(g) == 2 * d, 'length kept')
                got = [list(g[:d]), list(g[d:])]
        ctx.eq(got, want, 'inverse applied')
    return h


def h_pinv_result(tens):
    """a Result: every experiment corrected, the original left alone"""
    def h(ctx):
        labels = bitstrings(2)
        if tens:
            mats = [cal_mat(ctx, 'a', 2), cal_mat(ctx, 'b', 2)]
            flt = TensoredFilter([arr(m) for m in mats], [bitstrings(1)] * 2)
        else:
            mats = [cal_mat(ctx, 'a', 4)]
            flt = MeasurementFilter(arr(mats[0]), labels)
        stub, invs, st = inverse_stub(ctx, mats, 'p')
        P = invs[0] if not tens else [
            [invs[0][i & 1][j & 1] * invs[1][i >> 1][j >> 1] for j in range(4)] for i in range(4)]
        raw = [{s: ctx.real('r%d_%s' % (e, s), 1, 1000) for s in labels} for e in range(2)]
        res = result([exp_result('e%d' % e, 2, counts=raw[e]) for e in range(2)])

        def serial(f, vals, task_args=(), task_kwargs={}, num_processes=None):
            return [f(v, *task_args, **task_kwargs) for v in vals]
        with stub, replaced([(qiskit.tools.parallel.parallel_map, serial)]):
            out = flt.apply(res, method='pseudo_inverse')
        for e in range(2):
            ctx.eq(data_of(out.get_counts(e), labels),
                   mv(P, [raw[e][s] for s in labels]), 'experiment %d corrected' % e)
            ctx.eq(data_of(res.get_counts(e), labels), [raw[e][s] for s in labels],
                   'original result unchanged')
    return h


def h_reuse(tens):
    """one filter, applied again after its matrices or labels were replaced"""
    def h(ctx):
        A, B = cal_mat(ctx, 'a', 2), cal_mat(ctx, 'b', 2)
        if not ctx.sym:
            A, B = np.array(A, dtype=float), np.array(B, dtype=float)
        stub, (P, Q), st = inverse_stub(ctx, [A, B], 'p')
        raw = [{s: ctx.real('r%d%s' % (i, s), 1, 1000) for s in '01'} for i in range(3)]
        if tens:
            flt = TensoredFilter([arr(A)], [['0', '1']])
        else:
            flt = MeasurementFilter(arr(A), ['0', '1'])

        def go(i, M, order='01'):
            got = flt.apply(dict(raw[i]), method='pseudo_inverse')
            ctx.eq(data_of(got, order), mv(M, [raw[i][s] for s in order]), 'application %d' % i)
        with stub:
            go(0, P)
            go(1, P)
            if tens:
                flt.cal_matrices = [arr(B)]
            else:
                flt.cal_matrix = arr(B)
            go(2, Q)
            go(0, Q)
            if tens:
                flt.substate_labels_list = [['1', '0']]
            else:
                flt.state_labels = ['1', '0']
            go(1, Q, '10')
    return h


def h_later(tens):
    """the filter of a fitter follows the data added to the fitter"""
    def h(ctx):
        def cal(tag):
            return [{t: ctx.real('%s%s%s' % (tag, s, t), 300 if s == t else 10,
                                 600 if s == t else 50) for t in '01'} for s in '01']

        def res(cs_):
            return result([exp_result('cal_' + s, 1, counts=c) for s, c in zip('01', cs_)])
        c1, c2 = cal('a'), cal('b')
        x = {s: ctx.real('x' + s, 1, 100) for s in '01'}
        if tens:
            fit = TensoredMeasFitter(res(c1), [[0]])
        else:
            fit = CompleteMeasFitter(res(c1), ['0', '1'])

        def mat(*es):
            cols = []
            for j in range(2):
                tot = [ssum([e[j][t] for e in es]) for t in '01']
                cols.append([v / ssum(tot) for v in tot])
            return [[cols[j][i] for j in range(2)] for i in range(2)]

        def now(flt):
            return flt.cal_matrices[0] if tens else flt.cal_matrix
        ctx.eq(now(fit.filter), mat(c1), 'filter of the first results')
        fit.add_data(res(c2))
        ctx.eq(now(fit.filter), mat(c1, c2), 'filter after more results')
    return h


def h_roundtrip(tens):
    """data produced by the calibrated noise are restored exactly"""
    def h(ctx):
        from pysym import nparr
        if tens:
            mats = [cal_mat(ctx, 'a', 2), cal_mat(ctx, 'b', 2)]
            flt = TensoredFilter([arr(m) for m in mats], [bitstrings(1)] * 2)
            A = [[mats[0][i & 1][j & 1] * mats[1][i >> 1][j >> 1] for j in range(4)]
                 for i in range(4)]
            x = [ctx.real('x%d' % i, 1, 100) for i in range(4)]
        else:
            mats = [cal_mat(ctx, 'a', 2)]
            A = mats[0]
            flt = MeasurementFilter(arr(A), bitstrings(1))
            x = [ctx.real('x%d' % i, 1, 100) for i in range(2)]
        n = len(x).bit_length() - 1
        data = dict(zip(bitstrings(n), mv(A, x)))
        inv = nparr.exact_inv
        with replaced([(scipy.linalg.pinv, inv), (np.linalg.pinv, inv)] if ctx.sym else []):
            got = flt.apply(data, method='pseudo_inverse')
        ctx.eq(data_of(got, bitstrings(n)), x, 'true counts restored')
    return h


def index(labels_list, sizes, i, j):
    pass


def h_tens_pinv(sizes, orders=None, zeros=False):
    def h(ctx):
        n = sum(sizes)
        labs = [[bitstrings(k)[o] for o in (orders[g] if orders else range(2 ** k))]
                for g, k in enumerate(sizes)]
        mats = [cal_mat(ctx, 'abc'[g], 2 ** k) for g, k in enumerate(sizes)]
        flt = TensoredFilter([arr(m) for m in mats], labs)
        stub, invs, st = inverse_stub(ctx, mats, 'p')
        raw = {s: ctx.real('r' + s, 0 if zeros else 1, 1000) for s in bitstrings(n)}
        if zeros:
            del raw[bitstrings(n)[1]]
        with stub:
            got = flt.apply(dict(raw), method='pseudo_inverse')
        for s in bitstrings(n):
            want = 0
            for t, v in raw.items():
                p, hi = 1, n
                for g, k in enumerate(sizes):
                    p = p * invs[g][labs[g].index(s[hi - k:hi])][labs[g].index(t[hi - k:hi])]
                    hi -= k
                want = want + p * v
            ctx.eq(got.get(s, 0), want, 'tensor product of the inverses applied')
    return h


class Recorder:
    def __init__(self, answers):
        self.calls, self.answers = [], answers

    def __call__(self, fun, x0, *a, **k):
        i = len(self.calls)
        # evaluate at once: the caller may reuse its variables
        self.calls.append(self.probe(fun, x0, k))
        return scipy.optimize.OptimizeResult(x=arr(self.answers[i]), success=True)


def h_lsq(kind, form='dict'):
    """the problem handed to the optimiser, and its answer returned"""
    def h(ctx):
        if kind == 'complete':
            A = cal_mat(ctx, 'a', 4)
            flt = MeasurementFilter(arr(A), bitstrings(2))
            n = 2
        elif kind == 'one':
            A = cal_mat(ctx, 'a', 2)
            flt = MeasurementFilter(arr(A), bitstrings(1))
            n = 1
        else:
            sizes = kind
            n = sum(sizes)
            mats = [cal_mat(ctx, 'abc'[g], 2 ** k) for g, k in enumerate(sizes)]
            flt = TensoredFilter([arr(m) for m in mats], [bitstrings(k) for k in sizes])
            A = []
            for s in bitstrings(n):
                row = []
                for t in bitstrings(n):
                    p, hi = 1, n
                    for g, k in enumerate(sizes):
                        p = p * mats[g][int(s[hi - k:hi], 2)][int(t[hi - k:hi], 2)]
                        hi -= k
                    row.append(p)
                A.append(row)
        d = 2 ** n
        nb = 2 if form == 'long' else 1
        raws = [[ctx.real('r%d_%d' % (b, i), 1, 1000) for i in range(d)] for b in range(nb)]
        xs = [[ctx.real('x%d_%d' % (b, i), -10, 1000) for i in range(d)] for b in range(nb)]
        ctx.assume(And(*[Or(v > 0.01, v < -0.01) for x in xs for v in x]))
        rec = Recorder(xs)

        def probe(fun, x0, k):
            b = len(rec.calls)
            x = arr(xs[b])
            cons = k.get('constraints', ())
            cons = [cons] if isinstance(cons, dict) else list(cons)
            return (fun(x), [(c['type'], c['fun'](x)) for c in cons], k.get('bounds'), len(x0))
        rec.probe = probe
        meth = ctx.pick('m', ['default', 'least_squares', None])
        kw = {} if meth == 'default' else {'method': meth}
        with replaced([(scipy.optimize.minimize, rec)]):
            if form == 'dict':
                got = flt.apply(dict(zip(bitstrings(n), raws[0])), **kw)
                got = [data_of(got, bitstrings(n))]
            elif form == 'list':
                got = [list(flt.apply(list(raws[0]), **kw))]
            else:
                g = flt.apply(raws[0] + raws[1], **kw)
                got = [list(g[:d]), list(g[d:])]
        if len(rec.calls) != nb:
            raise Unsupported('minimize not called')
        for b, (fv, cons, bounds, size) in enumerate(rec.calls):
            r, x = raws[b], xs[b]
            res = [u - v for u, v in zip(r, mv(A, x))]
            ctx.eq(fv, ssum([v * v for v in res]), 'squared distance to the data')
            shots = ssum(r)
            ok = And(*[(Or(And(v < 1e-6, v > -1e-6)) if t == 'eq' else v >= -1e-6)
                       for t, v in cons])
            inb = True
            if bounds is not None:
                lo = getattr(bounds, 'lb', None)
                prs = list(zip(bounds.lb, bounds.ub)) if lo is not None else list(bounds)
                ctx.check(len(prs) == d, 'one bound per state')
                inb = And(*[And(v >= l, v <= u) for v, (l, u) in zip(x, prs)])
            feas = And(ok, inb)
            s = ssum(x)
            phys = And(*([v >= 0 for v in x] + [s - shots < 1e-7, shots - s < 1e-7]))
            off = Or(*([v < -1e-3 for v in x] + [s - shots > 1e-3, shots - s > 1e-3]))
            ctx.check(Implies(phys, feas), 'physical counts are feasible')
            ctx.check(Implies(off, Not(feas)), 'unphysical counts are not feasible')
        ctx.eq(got, xs, 'minimiser returned')
    return h


def h_reject(ctx):
    A = cal_mat(ctx, 'a', 2)
    flt = MeasurementFilter(arr(A), ['0', '1'])
    v = ctx.real('v', 1, 10)
    ctx.raises(QiskitError, lambda: flt.apply({'0': v, '00': v}), 'unknown label')
    ctx.raises(QiskitError, lambda: flt.apply([v, v, v]), 'length')
    ctx.raises(QiskitError, lambda: flt.apply((v, v)), 'type')
    ctx.raises(QiskitError, lambda: flt.apply([v, v], method='x'), 'method')
    t = TensoredFilter([arr(A)], [['0', '1']])
    ctx.raises(QiskitError, lambda: t.apply([v, v]), 'type')
    ctx.raises(QiskitError, lambda: t.apply({'0': v}, method='x'), 'method')
    ctx.raises(QiskitError, lambda: complete_meas_cal(), 'nothing given')
    ctx.raises(QiskitError, lambda: tensored_meas_cal(), 'nothing given')
    q = int(ctx.int('q', 0, 3))
    ctx.raises(QiskitError, lambda: tensored_meas_cal([[q, 1], [2, q]]), 'qubit twice') \
        if True else None
    ctx.raises(ValueError, lambda: TensoredMeasFitter(None, [[0], [1]], [['0', '1']]), 'labels')


def h_chain(ctx):
    """circuits -> fitter -> filter: data of the same noise restored (two groups)"""
    from pysym import nparr
    pat = [[2], [0]]
    circs, _ = tensored_meas_cal(pat)
    noise = noise_model(ctx, [2, 0])
    fit = TensoredMeasFitter(result([run_noisy(c, noise) for c in circs]), pat)
    x = {s: ctx.real('x' + s, 1, 100) for s in bitstrings(2)}
    A = kron_matrix(noise, [2, 0], bitstrings(2))
    data = dict(zip(bitstrings(2), mv(A, [x[s] for s in bitstrings(2)])))
    inv = nparr.exact_inv
    for q in noise:
        ctx.assume(And(*[noise[q][0][1] > 0.01, noise[q][1][0] > 0.01]))
    with replaced([(scipy.linalg.pinv, inv), (np.linalg.pinv, inv)] if ctx.sym else []):
        got = fit.filter.apply(data, method='pseudo_inverse')
    ctx.eq(data_of(got, bitstrings(2)), [x[s] for s in bitstrings(2)], 'true counts restored')


def obligations(tier):
    ob = []
    for i in range(len(LISTS)):
        ob.append(Obligation('complete-%d' % i, h_complete(i), 'qubit list/register %s, all '
                             'misassignment probabilities' % (LISTS[i],)))
    ob.append(Obligation('complete-cr', h_complete(3, cr=4), 'larger classical register'))
    ob.append(Obligation('complete-label', h_complete(1, label='m.'), 'labelled circuits'))
    ob.append(Obligation('complete-label2', h_complete(2, label='a+(x'), 'labelled circuits'))
    for i in range(len(PATTERNS)):
        ob.append(Obligation('tensored-%d' % i, h_tensored(i), 'pattern %s' % (PATTERNS[i],)))
    ob.append(Obligation('tensored-cr', h_tensored(2, cr=5, label='t'), 'larger register, label'))
    for sizes in ([1], [2], [1, 1], [2, 1], [1, 2]):
        for split in (1, 2):
            ob.append(Obligation('counts-%s-%d' % (''.join(map(str, sizes)), split),
                                 h_counts(sizes, split), 'all counts 0..200, %d results' % split))
    ob.append(Obligation('counts-11-3', h_counts([1, 1], 3), 'deferred rebuild'))
    ob.append(Obligation('counts-labels', h_counts([2], 1, [['11', '00', '10', '01']]),
                         'labels in another order'))
    ob.append(Obligation('counts-labels2', h_counts([1, 2], 2, [['1', '0'], ['10', '00', '01',
                                                                               '11']]),
                         'labels in another order'))
    ob.append(Obligation('subset-2', h_subset(2, [4, 1]), 'independent readout, all subsets'))
    ob.append(Obligation('subset-3', h_subset(3, [2, 0, 3]), 'independent readout, all subsets'))
    ob.append(Obligation('subset-correlated', h_subset_free, 'any 4x4 matrix'))
    ob.append(Obligation('fidelity', h_fidelity, 'any 4x4 matrix, groups of states'))
    for form in ('dict', 'missing', 'list', 'long'):
        ob.append(Obligation('pinv-' + form, h_pinv(form, bitstrings(2)), 'any matrix and data'))
    ob.append(Obligation('pinv-labels', h_pinv('dict', ['10', '00', '11', '01']), 'label order'))
    ob.append(Obligation('pinv-subspace', h_pinv('dict', ['10', '00', '11']), 'subset of states'))
    ob.append(Obligation('pinv-result', h_pinv_result(False), 'Result of two experiments'))
    ob.append(Obligation('pinv-result-tensored', h_pinv_result(True), 'Result'))
    ob.append(Obligation('restore-1', h_roundtrip(False), 'one qubit'))
    ob.append(Obligation('restore-11', h_roundtrip(True), 'two groups'))
    for t in (False, True):
        ob.append(Obligation('reuse-%d' % t, h_reuse(t), 'filter changed between applications'))
        ob.append(Obligation('later-%d' % t, h_later(t), 'filter before and after more results'))
    for sizes in ([1, 1], [2, 1], [1, 2], [1, 1, 1]):
        ob.append(Obligation('tensored-pinv-%s' % ''.join(map(str, sizes)), h_tens_pinv(sizes),
                             'any matrices and data'))
    ob.append(Obligation('tensored-pinv-labels', h_tens_pinv([1, 2], [[1, 0], [2, 0, 3, 1]]),
                         'label order'))
    ob.append(Obligation('tensored-pinv-zeros', h_tens_pinv([1, 1], None, True), 'zero counts'))
    ob.append(Obligation('lsq-1', h_lsq('one'), 'any matrix, data, point'))
    ob.append(Obligation('lsq-2', h_lsq('complete'), 'any matrix, data, point'))
    ob.append(Obligation('lsq-2-list', h_lsq('complete', 'list'), 'list input'))
    ob.append(Obligation('lsq-1-long', h_lsq('one', 'long'), 'several blocks'))
    ob.append(Obligation('lsq-11', h_lsq([1, 1]), 'tensored, any matrices'))
    ob.append(Obligation('chain', h_chain, 'circuits to corrected counts'))
    ob.append(Obligation('reject', h_reject, ''))
    if tier == 'thorough':
        ob.append(Obligation('lsq-21', h_lsq([2, 1]), 'tensored, any matrices', query_ms=60000))
        ob.append(Obligation('lsq-12', h_lsq([1, 2]), 'tensored, any matrices', query_ms=60000))
        ob.append(Obligation('counts-3', h_counts([3], 1), 'three qubits'))
    return ob
