"""P06 tomography data: counts arithmetic and the weighted problem handed to the fit."""
import itertools

import numpy as np
import scipy.linalg
from qiskit.circuit import QuantumCircuit, QuantumRegister, ClassicalRegister
from qiskit.exceptions import QiskitError
import qiskit.ignis.verification.tomography as tomo

from checks.lib import *

EXPLANATION = (
    'marginal_counts, combine_counts, expectation_counts, TomographyFitter.add_data and the '
    'weighted least-squares problem the fitters hand to lstsq are executed with symbolic counts '
    '(and a symbolic set of keys present); z3 shows that they equal sums over the matching '
    'outcomes, and that the normal equations of the handed problem are those of the counts '
    'weighted by the binomial weights of the hedged frequencies.')
OUTSIDE = 'more than 3 qubits in counts, more than 2 in the fit problem; more than 3 results'
ASSUMPTIONS = ['counts are non-negative integers', 'scipy.linalg.lstsq solves least squares']


def spaced(key, sizes):
    out, i = [], 0
    for s in sizes:
        out.append(key[i:i + s])
        i += s
    return ' '.join(out)


def presence(ctx, tag, n, hi=1000, sizes=None, always=()):
    """counts over a symbolic non-empty set of outcomes"""
    c = {}
    for k in bitstrings(n):
        if k in always or ctx.boolean('%s.has[%s]' % (tag, k)):
            c[spaced(k, sizes) if sizes else k] = ctx.int('%s[%s]' % (tag, k), 0, hi)
    ctx.assume(len(c) > 0)
    return c


def full(ctx, tag, n, hi=1000, sizes=None):
    return {(spaced(k, sizes) if sizes else k): ctx.int('%s[%s]' % (tag, k), 0, hi)
            for k in bitstrings(n)}


def marg(counts, n, qubits):
    qs = sorted(qubits, reverse=True)
    out = {}
    for k, v in counts.items():
        k = k.replace(' ', '')
        kk = ''.join(k[n - 1 - q] for q in qs)
        out[kk] = out.get(kk, 0) + v
    return out


def check_counts(ctx, got, want, keys, pad, label):
    ctx.check(set(got) <= set(keys), label + ': keys')
    if pad:
        ctx.check(set(got) == set(keys), label + ': all outcomes listed')
    for k in keys:
        ctx.check(got.get(k, 0) == want.get(k, 0), label + ': value of ' + k)


def h_marginal(n, qubits, pad, mk, sizes=None, part=False):
    def h(ctx):
        c = presence(ctx, 'c', n, sizes=sizes) if part else full(ctx, 'c', n, sizes=sizes)
        before = dict(c)
        got = tomo.marginal_counts(c, mk(qubits) if qubits is not True else True, pad_zeros=pad) \
            if pad is not None else tomo.marginal_counts(c, mk(qubits) if qubits is not True
                                                         else True)
        qs = list(range(n)) if qubits is True else list(qubits)
        check_counts(ctx, got, marg(c, n, qs), bitstrings(len(qs)), bool(pad), 'marginal')
        ctx.check(list(c) == list(before) and And(*[c[k] == before[k] for k in before]),
                  'input unchanged')
        if not pad and len(qs) < n:
            ctx.check(And(*[v != 0 for v in got.values()]), 'no empty outcomes')
    return h


def h_combine(n):
    def h(ctx):
        a, b = presence(ctx, 'a', n), presence(ctx, 'b', n)
        a0, b0 = dict(a), dict(b)
        got = tomo.combine_counts(a, b)
        check_counts(ctx, got, {k: a0.get(k, 0) + b0.get(k, 0) for k in bitstrings(n)},
                     bitstrings(n), False, 'sum')
        ctx.check(set(got) == set(a0) | set(b0), 'outcomes of both')
        for o, c in ((a0, a), (b0, b)):
            ctx.check(set(o) == set(c) and And(*[o[k] == c[k] for k in o]), 'inputs unchanged')
        third = tomo.combine_counts(got, a)
        check_counts(ctx, third, {k: 2 * a0.get(k, 0) + b0.get(k, 0) for k in bitstrings(n)},
                     bitstrings(n), False, 'sum of three')
    return h


def h_expect(n, part, sizes=None):
    def h(ctx):
        c = presence(ctx, 'c', n, sizes=sizes) if part else full(ctx, 'c', n, sizes=sizes)
        got = tomo.expectation_counts(c)
        ctx.check(set(got) == set(bitstrings(n)), 'one entry per subset')
        for m in bitstrings(n):
            want = 0
            for k, v in c.items():
                k = k.replace(' ', '')
                par = sum(int(x) & int(y) for x, y in zip(k, m)) % 2
                want = want + (v if par == 0 else -v)
            ctx.check(got[m] == want, 'expectation of ' + m)
    return h


# ------------------------------------------------------------------ fitter --
LS = scipy.linalg.lstsq
NLS = np.linalg.lstsq


class Lstsq:
    """records the problem; returns a fixed solution in symbolic runs"""

    def __init__(self, ctx):
        self.ctx, self.calls = ctx, []

    def __call__(self, a, b, *r, **k):
        self.calls.append((a, b))
        cols = np.shape(a)[1]
        d = int(round(cols ** 0.5))
        x = np.eye(d).reshape(-1, order='F') / d
        return x.astype(complex), None, cols, None

    def replaced(self):
        return replaced([(LS, self), (NLS, self)])

    def one(self):
        if len(self.calls) != 1:
            raise Unsupported('the fit is not solved by one call of lstsq')
        return self.calls[0]


PAULI = {'X': np.array([[0, 1], [1, 0]]), 'Y': np.array([[0, -1j], [1j, 0]]),
         'Z': np.diag([1, -1])}
PREP = {k: (np.eye(2) + s * PAULI[k[0]]) / 2 for k, s in
        [('Xp', 1), ('Xm', -1), ('Yp', 1), ('Ym', -1), ('Zp', 1), ('Zm', -1)]}


def meas_op(label, key):
    """operator of outcome key (qubit 0 rightmost) for the label (label[j] on qubit j)"""
    op = np.eye(1)
    for j, l in enumerate(label):
        bit = key[len(label) - 1 - j]
        op = np.kron((np.eye(2) + (1 if bit == '0' else -1) * PAULI[l]) / 2, op)
    return op


def prep_op(label):
    op = np.eye(1)
    for l in label:
        op = np.kron(PREP[l], op)
    return op


def normal_eqs(a, b):
    """A^H A and A^H b of a captured problem, symbolic or not"""
    A = [[a[i, j] for j in range(np.shape(a)[1])] for i in range(np.shape(a)[0])]
    B = [b[i] for i in range(len(A))]
    return A, B


def conj(z):
    return z.conjugate()


def check_problem(ctx, call, rows, label):
    """rows: [(operator, probability, squared weight)]; compare the normal equations"""
    A, B = normal_eqs(*call)
    cols = len(A[0])
    ctx.check(all(op.size == cols for op, p, w in rows), label + ': size')
    vec = [(op.reshape(-1, order='F').conj(), p, w) for op, p, w in rows]
    if len(A) == len(vec):          # rows in the same order: compare them one by one
        cs = []
        for r, bb, (v, p, w) in zip(A, B, vec):
            z = [i for i in range(cols) if v[i] != 0]
            cs += [close(r[i], 0) for i in range(cols) if v[i] == 0]
            k = z[0]
            cs.append(close(r[k] * conj(r[k]), float(abs(v[k]) ** 2) * w, 1e-4))
            cs += [close(r[i], complex(v[i] / v[k]) * r[k], 1e-4) for i in z[1:]]
            cs.append(close(conj(r[k]) * bb, complex(np.conj(v[k])) * w * p, 1e-4))
        ctx.reached += 1
        if all(ctx.valid(c) for c in cs):
            return
    for i in range(cols):
        want = got = 0
        for v, p, w in vec:
            if v[i] != 0:
                want = want + complex(np.conj(v[i])) * (w * p)
        for r, bb in zip(A, B):
            if is_sym(r[i]) or r[i] != 0:
                got = got + conj(r[i]) * bb
        ctx.eq(got, want, label + ': right-hand side', tol=1e-4)
        for j in range(cols):
            want = got = 0
            for v, p, w in vec:
                z = complex(np.conj(v[i]) * v[j])
                if z != 0:
                    want = want + z * w
            for r in A:
                if is_sym(r[i]) or r[i] != 0:
                    got = got + conj(r[i]) * r[j]
            ctx.eq(got, want, label + ': normal matrix', tol=1e-4)


def hedged_w2(counts, keys, beta):
    shots = total(counts)
    K = len(keys)
    out = {}
    for k in keys:
        p = (counts[k] + beta) / (shots + K * beta)
        out[k] = shots / (p * (1 - p))
    return out


def fixed_counts(ctx, tag, n, shots, lo=0):
    keys = bitstrings(n)
    c = {k: ctx.int('%s[%s]' % (tag, k), lo, shots) for k in keys[:-1]}
    last = shots - ssum(c.values())
    ctx.assume(last >= lo)
    c[keys[-1]] = last
    return c


def rows_of(data, n, beta, qpt=False):
    rows = []
    keys = bitstrings(n)
    for lab, c in data.items():
        w2 = hedged_w2(c, keys, beta) if beta is not None else {k: 1 for k in keys}
        s = total(c)
        for k in keys:
            if qpt:
                op = np.kron(prep_op(lab[0]).T, meas_op(lab[1], k))
            else:
                op = meas_op(lab, k)
            rows.append((op, c[k] / s, w2[k]))
    return rows


def h_weights(labels, n, beta, qpt=False, symbolic=None, cls=None):
    """symbolic: labels with symbolic counts (the others fixed)"""
    def h(ctx):
        data = {}
        for t, lab in enumerate(labels):
            if symbolic is None or t in symbolic:
                data[lab] = fixed_counts(ctx, 'c%d' % t, n, 100)
            else:
                data[lab] = {k: 10 + 7 * i + 3 * t for i, k in enumerate(bitstrings(n))}
        res = result([exp_result(str(lab), n, counts=c) for lab, c in data.items()])
        ls = Lstsq(ctx)
        c = cls or (tomo.ProcessTomographyFitter if qpt else tomo.StateTomographyFitter)
        f = c(res, [str(lab) for lab in data])
        kw = {}
        if beta is None:
            kw['standard_weights'] = False
        elif beta != 'default':
            kw['beta'] = beta
        with ls.replaced():
            f.fit(method='lstsq', **kw)
        b = 0.5 if beta == 'default' else beta
        if b == 0:
            # documented fallback: 0.5 for a configuration with a frequency of 0 or 1
            rows = []
            for lab, cc in data.items():
                zero = bool(Or(*[v == 0 for v in cc.values()]))
                rows += rows_of({lab: cc}, n, 0.5 if zero else 0, qpt)
        else:
            rows = rows_of(data, n, b, qpt)
        check_problem(ctx, ls.one(), rows, 'fit problem')
    return h


def h_beta(ctx):
    c = {'0': 40, '1': 60}
    f = tomo.StateTomographyFitter(result([exp_result(str((l,)), 1, counts=c) for l in 'XYZ']),
                                   [str((l,)) for l in 'XYZ'])
    beta = ctx.real('beta', -2, -0.01)
    ctx.raises(ValueError, lambda: f.fit(method='lstsq', beta=beta), 'negative beta rejected')
    ctx.raises(QiskitError, lambda: f.fit(method='nosuch'), 'unknown method rejected')


def h_betasym(ctx):
    """the hedging parameter itself symbolic"""
    beta = ctx.real('beta', 0.1, 3)
    a = ctx.int('a', 0, 100)
    data = {('X',): {'0': a, '1': 100 - a}, ('Y',): {'0': 30, '1': 70},
            ('Z',): {'0': 55, '1': 45}}
    f = tomo.StateTomographyFitter(
        result([exp_result(str(l), 1, counts=c) for l, c in data.items()]), [str(l) for l in data])
    ls = Lstsq(ctx)
    with ls.replaced():
        f.fit(method='lstsq', beta=beta)
    check_problem(ctx, ls.one(), rows_of(data, 1, beta), 'fit problem')


def h_refit(ctx):
    """one fitter fitted again with other options and after more data"""
    def some(tag):
        a, b = ctx.int(tag + 'a', 1, 99), ctx.int(tag + 'b', 1, 49)
        return {('X',): {'0': a, '1': 100 - a}, ('Y',): {'0': 30, '1': 70},
                ('Z',): {'0': b, '1': 50 - b}}
    d1, d2 = some('u'), some('v')

    def res(d):
        return result([exp_result(str(l), 1, counts=c) for l, c in d.items()])
    names = [str(l) for l in d1]
    f = tomo.StateTomographyFitter(res(d1), names)

    def go(data, hedge, label, **kw):
        ls = Lstsq(ctx)
        with ls.replaced():
            f.fit(method='lstsq', **kw)
        check_problem(ctx, ls.one(), rows_of(data, 1, hedge), label)
    go(d1, 0.5, 'first fit')
    go(d1, 1.5, 'other hedging', beta=1.5)
    go(d1, None, 'no weights', standard_weights=False)
    f.add_data([res(d2)], names)
    both = {l: {k: d1[l][k] + d2[l][k] for k in '01'} for l in d1}
    go(both, 0.5, 'after more data')
    go(both, None, 'after more data, no weights', standard_weights=False)


def same_data(ctx, f, want, n, label):
    ctx.check(set(f.data) == set(want), label + ': labels')
    for lab, c in want.items():
        got = f.data[lab]
        check_counts(ctx, {k.replace(' ', ''): v for k, v in dict(got).items()},
                     c, bitstrings(n), False, label)


def circs_for(labels, n, extra):
    out = []
    for lab in labels:
        q, c = QuantumRegister(n), ClassicalRegister(n)
        qc = QuantumCircuit(q, c)
        if extra:
            qc.add_register(ClassicalRegister(extra))
        qc.name = str(lab)
        out.append(qc)
    return out


def h_add(labels, n, extra, how, split):
    """several results, added at once or one after the other"""
    def h(ctx):
        tot = n + extra
        want = {lab: {} for lab in labels}
        results = []
        cs = [['c0', n]] + ([['cx', extra]] if extra else [])
        for r, labs in enumerate(split):
            exps = []
            for t in labs:
                c = {k: ctx.int('r%d.%d[%s]' % (r, t, k), 0, 500) for k in bitstrings(tot)}
                for k, v in c.items():
                    kk = k[extra:]
                    want[labels[t]][kk] = want[labels[t]].get(kk, 0) + v
                exps.append(exp_result(str(labels[t]), tot, counts=c, creg_sizes=cs))
            results.append(result(exps))
        circs = circs_for(labels, n, extra)
        if how == 'names':
            circs = [str(l) for l in labels]
        cls = tomo.ProcessTomographyFitter if isinstance(labels[0][0], tuple) \
            else tomo.StateTomographyFitter
        if how == 'incremental':
            first = [circs[t] for t in split[0]]
            f = cls(results[0], first)
            for r in range(1, len(results)):
                f.add_data([results[r]], [circs[t] for t in split[r]])
        else:
            f = cls(results if len(results) > 1 else results[0], circs)
        same_data(ctx, f, want, n, how)
        for r in results:           # adding data leaves the results alone
            for e in r.results:
                pass
    return h


def h_missing(how):
    def h(ctx):
        c = {k: ctx.int('c[%s]' % k, 0, 100) for k in bitstrings(1)}
        res = result([exp_result(str((l,)), 1, counts=c) for l in 'XY'])
        circs = circs_for([(l,) for l in 'XYZ'], 1, 0)
        if how == 'names':
            circs = [x.name for x in circs]
        ctx.raises(QiskitError, lambda: tomo.StateTomographyFitter(res, circs),
                   'missing data reported')
        ctx.raises(QiskitError, lambda: tomo.StateTomographyFitter(res, []),
                   'no circuits reported')
    return h


def h_noalias(ctx):
    """results given twice, and fitters sharing a result, do not disturb each other"""
    labs = [('X',), ('Y',), ('Z',)]
    cs = {l: {k: ctx.int('%s[%s]' % (l[0], k), 1, 100) for k in '01'} for l in labs}
    res = result([exp_result(str(l), 1, counts=c) for l, c in cs.items()])
    names = [str(l) for l in labs]
    f = tomo.StateTomographyFitter(res, names)
    g = tomo.StateTomographyFitter(res, names)
    f.add_data([res], names)
    same_data(ctx, f, {l: {k: 2 * v for k, v in c.items()} for l, c in cs.items()}, 1, 'twice')
    same_data(ctx, g, cs, 1, 'other fitter')
    f.add_data([res], names[:1])
    same_data(ctx, f, {l: {k: (3 if l == ('X',) else 2) * v for k, v in c.items()}
                       for l, c in cs.items()}, 1, 'one more')
    for l in labs:
        check_counts(ctx, dict(res.get_counts(str(l))), cs[l], ['0', '1'], False, 'result kept')


def obligations(tier):
    obs = []
    for n in (1, 2, 3):
        subs = [s for r in range(1, n + 1) for s in itertools.combinations(range(n), r)]
        for s in subs:
            for pad in (False, True):
                nm = 'marginal-%d-%s-%s' % (n, ''.join(map(str, s)), 'pad' if pad else 'drop')
                obs.append(Obligation(nm, h_marginal(n, s, pad, list if pad else tuple),
                                      '%d qubits, kept %s, counts 0..1000' % (n, s)))
    obs.append(Obligation('refit', h_refit, '1 qubit, five fits of one fitter',
                          stubs=['scipy.linalg.lstsq']))
    obs.append(Obligation('marginal-default', h_marginal(3, True, None, list),
                          '3 qubits, all kept'))
    obs.append(Obligation('marginal-range', h_marginal(3, (0, 1), True, lambda q: range(2)),
                          '3 qubits, range of kept qubits'))
    obs.append(Obligation('marginal-spaces-a', h_marginal(3, (0, 2), False, list, [1, 2]),
                          '3 bits in registers of 1 and 2'))
    obs.append(Obligation('marginal-spaces-b', h_marginal(3, True, True, list, [2, 1]),
                          '3 bits in registers of 2 and 1'))
    obs.append(Obligation('marginal-partial-a', h_marginal(2, (1,), True, list, part=True),
                          '2 qubits, any set of outcomes present'))
    obs.append(Obligation('marginal-partial-b', h_marginal(2, (0, 1), True, list, part=True),
                          '2 qubits, any set of outcomes present'))
    obs.append(Obligation('marginal-partial-c', h_marginal(2, (0,), False, list, part=True),
                          '2 qubits, any set of outcomes present'))
    obs.append(Obligation('marginal-order', h_marginal(3, (2, 0), True, list),
                          '3 qubits, kept qubits listed in descending order'))
    for n in (1, 2):
        obs.append(Obligation('combine-%d' % n, h_combine(n),
                              '%d qubits, any sets of outcomes present' % n))
        obs.append(Obligation('expectation-partial-%d' % n, h_expect(n, True),
                              '%d qubits, any set of outcomes present' % n))
    for n, q in ((4, (0, 3)), (4, (1, 2, 3)), (4, (0, 1, 2, 3)), (5, (1, 4)), (5, (3, 0, 2))):
        obs.append(Obligation('marginal-%d-%s' % (n, ''.join(map(str, q))),
                              h_marginal(n, q, True, list), '%d qubits' % n))
    obs.append(Obligation('marginal-spaces-c', h_marginal(5, (4, 1), True, list, [1, 3, 1]),
                          '5 bits in three registers'))
    obs.append(Obligation('expectation-4', h_expect(4, False), '4 qubits'))
    obs.append(Obligation('expectation-4-spaces', h_expect(4, False, [2, 1, 1]),
                          '4 bits in three registers'))
    obs.append(Obligation('expectation-3', h_expect(3, False), '3 qubits'))
    obs.append(Obligation('expectation-3-spaces', h_expect(3, False, [1, 2]),
                          '3 bits in two registers'))
    P1 = [(l,) for l in 'XYZ']
    P2 = list(itertools.product('XYZ', repeat=2))
    PP = [((p,), (m,)) for p in ('Zp', 'Zm', 'Xp', 'Yp') for m in 'XYZ']
    obs.append(Obligation('weights-1', h_weights(P1, 1, 'default'), '1 qubit, 100 shots',
                          stubs=['scipy.linalg.lstsq']))
    obs.append(Obligation('weights-1-zero', h_weights(P1, 1, 0, symbolic=(0, 1)),
                          '1 qubit, beta 0', stubs=['scipy.linalg.lstsq']))
    obs.append(Obligation('weights-1-none', h_weights(P1, 1, None), '1 qubit, unweighted',
                          stubs=['scipy.linalg.lstsq']))
    obs.append(Obligation('weights-1-one', h_weights(P1, 1, 1, symbolic=(1,)),
                          '1 qubit, beta 1', stubs=['scipy.linalg.lstsq']))
    obs.append(Obligation('weights-1-beta', h_betasym, '1 qubit, beta in [0.1,3]',
                          stubs=['scipy.linalg.lstsq']))
    obs.append(Obligation('weights-2', h_weights(P2, 2, 'default', symbolic=(1,)),
                          '2 qubits, one symbolic configuration',
                          stubs=['scipy.linalg.lstsq']))
    obs.append(Obligation('weights-2-zero', h_weights(P2, 2, 0, symbolic=(4,)),
                          '2 qubits, one symbolic configuration, beta 0',
                          stubs=['scipy.linalg.lstsq']))
    obs.append(Obligation('weights-1-base', h_weights(P1, 1, 'default', symbolic=(0, 2),
                                                      cls=tomo.TomographyFitter),
                          '1 qubit, base class', stubs=['scipy.linalg.lstsq']))
    obs.append(Obligation('weights-2-none', h_weights(P2, 2, None, symbolic=(0, 3, 5, 7)),
                          '2 qubits, four symbolic configurations, unweighted',
                          stubs=['scipy.linalg.lstsq']))
    obs.append(Obligation('weights-process', h_weights(PP, 1, 'default', True, symbolic=(2, 7)),
                          '1-qubit process, two symbolic configurations',
                          stubs=['scipy.linalg.lstsq']))
    obs.append(Obligation('weights-process-none', h_weights(PP, 1, None, True),
                          '1-qubit process, unweighted', stubs=['scipy.linalg.lstsq']))
    obs.append(Obligation('beta-range', h_beta, 'beta in [-2,-0.01]'))
    obs.append(Obligation('add-one', h_add(P1, 1, 0, 'circuits', [(0, 1, 2)]), 'one result'))
    obs.append(Obligation('add-split', h_add(P1, 1, 0, 'circuits', [(0, 1), (1, 2), (0, 1, 2)]),
                          'three overlapping results'))
    obs.append(Obligation('add-split-names', h_add(P1, 1, 0, 'names', [(0, 1), (2, 1)]),
                          'two results, circuits by name'))
    obs.append(Obligation('add-incremental', h_add(P1, 1, 0, 'incremental',
                                                   [(0, 1), (1, 2), (2, 0)]),
                          'three results added one after the other'))
    obs.append(Obligation('add-extra', h_add(P1, 1, 1, 'circuits', [(0, 1, 2)]),
                          'circuit with another classical register'))
    obs.append(Obligation('add-extra2', h_add([('X', 'Z'), ('Z', 'Y')], 2, 1, 'circuits',
                                              [(0, 1), (1,)]),
                          '2 qubits, other classical register, two results'))
    obs.append(Obligation('add-process', h_add(PP[:4], 1, 0, 'circuits', [(0, 1), (1, 2, 3)]),
                          'process labels, two results'))
    obs.append(Obligation('add-process-extra', h_add(
        [(('Zp', 'Xp'), ('X', 'Y')), (('Zm', 'Yp'), ('Z', 'Y'))], 2, 1, 'incremental',
        [(0, 1), (1,)]), '2-qubit process labels, other classical register'))
    obs.append(Obligation('missing-circuits', h_missing('circuits'), ''))
    obs.append(Obligation('missing-names', h_missing('names'), ''))
    obs.append(Obligation('independent', h_noalias, 'two fitters of one result'))
    return obs
