"""P03 randomized-benchmarking analysis: probabilities, statistics, error rates."""
import itertools

import numpy as np
import scipy.optimize
from qiskit.circuit import QuantumCircuit
from qiskit.exceptions import QiskitError
import qiskit.ignis.verification.randomized_benchmarking as rb
from qiskit.ignis.verification.randomized_benchmarking import rb_utils as ru

from checks.lib import *

EXPLANATION = (
    'The RB fitters run on real Result objects with symbolic counts, and curve_fit is replaced by '
    'its contract (parameters and covariance are symbolic). z3 shows that survival '
    'probabilities, purities, means, deviations, the problem handed to the curve fit and the '
    'error rates derived from the fitted parameters equal their definitions, for any split of the '
    'counts over results and any order of adding them; the error-rate conversions of rb_utils are '
    'compared with their formulas for symbolic rates.')
OUTSIDE = ('more than 3 measured qubits, 2 seeds, 2 lengths; convergence of the non-linear fit '
           '(scipy); plots')
ASSUMPTIONS = ['curve_fit returns parameters within the bounds it is given and a covariance with '
               'non-negative diagonal']

CF = scipy.optimize.curve_fit


class Fit:
    """contract stub of curve_fit; records its calls"""

    def __init__(self, ctx, lo=0.05, guess=True):
        self.ctx, self.calls, self.lo, self.guess = ctx, [], lo, guess

    def __call__(self, f, xdata, ydata, p0=None, sigma=None, bounds=None, **kw):
        k = len(self.calls)
        ctx = self.ctx
        par = [ctx.real('fit%d.p%d' % (k, i), self.lo, 1) for i in range(3)]
        err = [ctx.real('fit%d.e%d' % (k, i), 0, 1) for i in range(3)]
        cov = [[err[i] * err[i] if i == j else 0 for j in range(3)] for i in range(3)]
        self.calls.append(dict(f=f, x=list(xdata), y=list(ydata), p0=p0, sigma=sigma,
                               bounds=bounds, par=par, err=err))
        if self.guess and p0 is not None:
            for v in p0:
                ctx.check(And(v >= 0, v <= 1), 'initial guess is feasible')
        return arr(par), arr(cov)

    def last(self, n):
        return self.calls[-n:]


def mk_counts(ctx, tag, n, zeros, shots=300, keys=None):
    """symbolic counts with a fixed total; only the listed keys may be zero"""
    keys = keys or bitstrings(n)
    c = {k: ctx.int('%s[%s]' % (tag, k), 0 if k in zeros else 1, shots) for k in keys[:-1]}
    last = shots - ssum(c.values())
    ctx.assume(last >= (0 if keys[-1] in zeros else 1))
    c[keys[-1]] = last
    return c


def p0_of(counts_list, n, bits):
    """pooled probability that all the bits (clbit numbers) read 0"""
    num = den = 0
    for c in counts_list:
        for k, v in c.items():
            den = den + v
            if all(k[n - 1 - b] == '0' for b in bits):
                num = num + v
    return num / den


def patt_bits(pattern):
    out, i = [], 0
    for p in pattern:
        out.append(list(range(i, i + len(p))))
        i += len(p)
    return out


def check_stats(ctx, fitter_raw, ydata, probs, label):
    """probs[pattern][seed][length]"""
    for i, pp in enumerate(probs):
        for s, row in enumerate(pp):
            for k, v in enumerate(row):
                ctx.eq(fitter_raw[i][s][k], v, label + ': raw data')
        ns = len(pp)
        for k in range(len(pp[0])):
            mean = ssum([pp[s][k] for s in range(ns)]) / ns
            ctx.eq(ydata[i]['mean'][k], mean, label + ': mean')
            if ns == 1:
                ctx.check(ydata[i]['std'] is None, label + ': no deviation for one seed')
            else:
                var = ssum([(pp[s][k] - mean) * (pp[s][k] - mean) for s in range(ns)]) / ns
                sd = ydata[i]['std'][k]
                ctx.check(And(sd >= 0, close(sd * sd, var)), label + ': deviation')


def check_fit_call(ctx, call, lens, yd, label):
    ctx.check([int(x) for x in call['x']] == [int(x) for x in lens], label + ': lengths')
    ctx.eq(call['y'], list(yd['mean']), label + ': means are fitted')
    sg = call['sigma']
    if yd['std'] is None:
        ctx.check(sg is None, label + ': no weights for one seed')
    elif sg is None:
        ctx.check(Or(*[s <= 0 for s in yd['std']]), label + ': weights dropped only if one is zero')
    else:
        ctx.check(And(*[s > 0 for s in yd['std']]), label + ': weights positive')
        ctx.eq(list(sg), list(yd['std']), label + ': weights are the deviations')
    for m in (0, 1, 3):
        a, al, b = call['par']
        p = 1
        for _ in range(m):
            p = p * al
        ctx.eq(call['f'](m, a, al, b), a * p + b, label + ': model a*alpha^m+b')
    lo, hi = call['bounds']
    ctx.check(list(lo) == [0, 0, 0] and list(hi) == [1, 1, 1], label + ': parameter bounds')


def check_epc(ctx, fit, call, n, label):
    d = 2 ** n
    al, er = call['par'][1], call['err'][1]
    ctx.eq(list(fit['params']), call['par'], label + ': parameters')
    ctx.eq(list(fit['params_err']), call['err'], label + ': parameter errors')
    ctx.eq(fit['epc'], (d - 1) * (1 - al) / d, label + ': error per Clifford')
    ctx.eq(fit['epc_err'] * al, (d - 1) * er / d, label + ': relative error of it')


def seeds_results(ctx, name, n, seeds, nlen, split, zeros=(), positive=None):
    """{(seed, k): [counts...]} and results split as requested"""
    data, results = {}, []
    if split == 'one':              # all circuits in one result
        exps = []
        for s in seeds:
            for k in range(nlen):
                c = mk_counts(ctx, 's%d.l%d' % (s, k), n, zeros if (s, k) == (seeds[0], 0) else ())
                data[s, k] = [c]
                exps.append(exp_result('%s_length_%d_seed_%d' % (name, k, s), n, counts=c))
        results.append(result(exps))
    elif split == 'seed':           # one result per seed
        for s in seeds:
            exps = []
            for k in range(nlen):
                c = mk_counts(ctx, 's%d.l%d' % (s, k), n, zeros if (s, k) == (seeds[0], 0) else ())
                data[s, k] = [c]
                exps.append(exp_result('%s_length_%d_seed_%d' % (name, k, s), n, counts=c))
            results.append(result(exps))
    elif split == 'parts':          # the lengths of a seed in different results
        for k in range(nlen):
            exps = []
            for s in seeds:
                c = mk_counts(ctx, 's%d.l%d' % (s, k), n, ())
                data[s, k] = [c]
                exps.append(exp_result('%s_length_%d_seed_%d' % (name, k, s), n, counts=c))
            results.append(result(exps))
    elif split == 'sparse':         # every circuit measured twice, outcomes missing in places
        keys = bitstrings(n)
        sets = [keys, keys[:1], keys[1:]]
        for j in range(2):
            exps = []
            for s in seeds:
                for k in range(nlen):
                    sub = ctx.pick('keys%d.%d' % (j, k), sets) if s == seeds[0] and k < 2 else keys
                    c = mk_counts(ctx, 'j%d.s%d.l%d' % (j, s, k), n, (), 300 - 200 * j, sub)
                    data.setdefault((s, k), []).append(c)
                    exps.append(exp_result('%s_length_%d_seed_%d' % (name, k, s), n, counts=c))
            results.append(result(exps))
    else:                           # first seed measured twice
        for j, s in enumerate(list(seeds) + [seeds[0]]):
            exps = []
            for k in range(nlen):
                c = mk_counts(ctx, 'j%d.s%d.l%d' % (j, s, k), n, (), 300 if j < len(seeds) else 100)
                data.setdefault((s, k), []).append(c)
                exps.append(exp_result('%s_length_%d_seed_%d' % (name, k, s), n, counts=c))
            results.append(result(exps))
    return data, results


def probs_of(data, pattern, n, seeds, nlen):
    return [[[p0_of(data[s, k], n, bits) for k in range(nlen)] for s in seeds]
            for bits in patt_bits(pattern)]


def decaying(ctx, probs, pattern):
    """means above 1/2^n that decrease with the length"""
    for pp, p in zip(probs, pattern):
        y = [ssum([row[k] for row in pp]) / len(pp) for k in (0, 1)]
        ctx.assume(And(y[1] - 1 / 2 ** len(p) > 1e-3, y[0] - y[1] > 1e-3))


def tame(ctx, probs, pattern, gap=1):
    """stay off the singular points of the initial guess (a mean equal to 1/2^n)"""
    for pp, p in zip(probs, pattern):
        for k in (0, 1):
            y = ssum([row[k] for row in pp]) / len(pp)
            d = y - 1 / 2 ** len(p)
            ctx.assume(d > 1e-3 if gap != 1 else Or(d > 1e-3, d < -1e-3))


def standard(pattern, seeds, lens, split, order, zeros=()):
    def h(ctx):
        n = sum(len(p) for p in pattern)
        data, results = seeds_results(ctx, 'rb', n, seeds, len(lens[0]), split, zeros)
        probs = probs_of(data, pattern, n, seeds, len(lens[0]))
        fit = Fit(ctx)
        if order == 'inc':
            for j in range(1, len(results)):
                seen = seeds[:min(j, len(seeds))]
                part = {(s, k): v[:1] for (s, k), v in data.items() if s in seen}
                pp = probs_of(part, pattern, n, seen, len(lens[0]))
                for i, ln in enumerate(lens):
                    tame(ctx, pp[i:i + 1], pattern[i:i + 1], ln[1] - ln[0])
        for i, ln in enumerate(lens):
            tame(ctx, probs[i:i + 1], pattern[i:i + 1], ln[1] - ln[0])
        with replaced([(CF, fit)]):
            if order == 'list':
                f = rb.RBFitter(list(results), lens, pattern)
            elif order == 'inc':
                f = rb.RBFitter(results[0], lens, pattern)
                for r in results[1:]:
                    f.add_data(r)
            elif order == 'defer':
                f = rb.RBFitter(None, lens, pattern)
                for r in reversed(results):
                    f.add_data([r], rerun_fit=False)
                ctx.check(len(fit.calls) == 0, 'no fit before it is asked for')
                f.calc_data()
                f.calc_statistics()
                f.fit_data()
        order_seeds = list(f.seeds)
        ctx.check(sorted(order_seeds) == sorted(seeds), 'seeds found')
        pr = [[row[seeds.index(s)] for s in order_seeds] for row in probs]
        check_stats(ctx, f.raw_data, f.ydata, pr, 'standard')
        calls = fit.last(len(pattern))
        for i, p in enumerate(pattern):
            check_fit_call(ctx, calls[i], lens[i], f.ydata[i], 'fit')
            check_epc(ctx, f.fit[i], calls[i], len(p), 'rates')
    return h


def guess(dcliff):
    """the initial guess is feasible for any data"""
    def h(ctx):
        n = ctx.pick('n', [1, 2])
        exps = []
        for k in range(2):
            c = ctx.int('zero%d' % k, 0, 1000)
            exps.append(exp_result('rb_length_%d_seed_0' % k, n,
                                   counts={'0' * n: c, '1' * n: 1000 - c}))
            if k == 0:
                d0 = c - 1000 // 2 ** n
                ctx.assume(Or(d0 > 0, d0 < 0))
            else:
                d = c - 1000 // 2 ** n
                # off the points where numpy yields inf or nan instead of a number
                ctx.assume(Or(d > 0, d < 0) if dcliff == 1 else And(d0 > 0, d > 0))
        m0 = ctx.pick('m0', [1, 2, 3])
        fit = Fit(ctx)
        with replaced([(CF, fit)]):
            rb.RBFitter(result(exps), [[m0, m0 + dcliff]], [list(range(n))])
        ctx.check(len(fit.calls) == 1, 'fitted once')
    return h


def refit(ctx, f, fit, lens, pattern):
    """fit_data_pattern fits the data of the requested side and pattern"""
    for w in (0, 1):
        for i in range(len(lens)):
            k = len(fit.calls)
            with replaced([(CF, fit)]):
                if w:
                    f.fit_data_pattern(i, [0.5, 0.75, 0.25], 1)
                else:
                    f.fit_data_pattern(i, [0.5, 0.75, 0.25])
            ctx.check(len(fit.calls) == k + 1, 'one fit')
            check_fit_call(ctx, fit.calls[k], lens[i], f.ydata[w][i], 'refit')
            check_epc(ctx, f.fit[w][i], fit.calls[k], len(pattern[i]), 'refit')


def interleaved(pattern, default=False):
    def h(ctx):
        n = sum(len(p) for p in pattern)
        lens = [[1, 2]] * len(pattern)
        fit = Fit(ctx, guess=False)
        sides = []
        for w, name in enumerate(('rb', 'rb_interleaved')):
            per, jobs = {}, []
            for j in range(2):
                exps = []
                for k in range(2):
                    z = ctx.int('%d.j%d.l%d' % (w, j, k), 1, 399 - 100 * j)
                    c = {'0' * n: z, '1' * n: 400 - 100 * j - z}
                    per.setdefault((0, k), []).append(c)
                    exps.append(exp_result('%s_length_%d_seed_0' % (name, k), n, counts=c))
                jobs.append(result(exps))
            sides.append((per, jobs))
        for per, _ in sides:
            decaying(ctx, probs_of(per, pattern, n, [0], 2), pattern)
            # and for the intermediate fit
            decaying(ctx, probs_of({k: v[:1] for k, v in per.items()}, pattern, n, [0], 2), pattern)
        with replaced([(CF, fit)]):
            a, b = sides[0][1], sides[1][1]
            if default:
                f = rb.InterleavedRBFitter(a[0], b[0], lens)
            else:
                late = bool(ctx.boolean('late'))
                if late:
                    # an empty fitter, filled later
                    f = rb.InterleavedRBFitter(None, None, lens, pattern)
                    f.add_data([a[0]], [b[0]])
                else:
                    f = rb.InterleavedRBFitter([a[0]], [b[0]], lens, pattern)
            f.add_data([a[1]], [b[1]])
        for w in (0, 1):
            check_stats(ctx, f.raw_data[w], f.ydata[w],
                        probs_of(sides[w][0], pattern, n, [0], 2), 'interleaved %d' % w)
        calls = fit.last(2 * len(pattern))
        refit(ctx, f, fit, lens, pattern)
        ctx.check(len(f.fit_int) == len(pattern), 'one entry per pattern')
        for i, p in enumerate(pattern):
            d = 2 ** len(p)
            al, ale = calls[i]['par'][1], calls[i]['err'][1]
            ac, ace = calls[len(pattern) + i]['par'][1], calls[len(pattern) + i]['err'][1]
            r = f.fit_int[i]
            ctx.eq([r['alpha'], r['alpha_err'], r['alpha_c'], r['alpha_c_err']],
                   [al, ale, ac, ace], 'decay parameters')
            est = (d - 1) * (1 - ac / al) / d
            ctx.eq(r['epc_est'], est, 'estimated error of the element')
            dif = al - ac / al
            dif = ite(dif >= 0, dif, -dif)
            s1 = (d - 1) * (dif + (1 - al)) / d
            s2 = 2 * (d * d - 1) * (1 - al) / (al * d * d) + \
                4 * ssqrt(1 - al) * math.sqrt(d * d - 1) / al
            ctx.eq(r['systematic_err'], ite(s1 <= s2, s1, s2), 'systematic error bound')
            ctx.eq(r['systematic_err_L'], r['epc_est'] - r['systematic_err'], 'left bound')
            ctx.eq(r['systematic_err_R'], r['epc_est'] + r['systematic_err'], 'right bound')
            e = r['epc_est_err']
            sc = (d - 1) * ac / (d * al)
            ctx.check(And(e >= 0, close(e * e, sc * sc * (
                (ale / al) * (ale / al) + (ace / ac) * (ace / ac)))), 'propagated error')
    return h


def dihedral(pattern, default=False):
    def h(ctx):
        n = sum(len(p) for p in pattern)
        lens = [[1, 2]] * len(pattern)
        fit = Fit(ctx, guess=False)
        sides = []
        for w, name in enumerate(('rb_cnotdihedral_Z', 'rb_cnotdihedral_X')):
            per, jobs = {}, []
            for j in range(2):
                exps = []
                for k in range(2):
                    z = ctx.int('%d.j%d.l%d' % (w, j, k), 1, 399 - 100 * j)
                    c = {'0' * n: z, '1' * n: 400 - 100 * j - z}
                    per.setdefault((0, k), []).append(c)
                    exps.append(exp_result('%s_length_%d_seed_0' % (name, k), n, counts=c))
                jobs.append(result(exps))
            sides.append((per, jobs))
            decaying(ctx, probs_of(per, pattern, n, [0], 2), pattern)
            decaying(ctx, probs_of({k: v[:1] for k, v in per.items()}, pattern, n, [0], 2), pattern)
        with replaced([(CF, fit)]):
            a, b = sides[0][1], sides[1][1]
            if default:
                f = rb.CNOTDihedralRBFitter(a[0], b[0], lens)
            else:
                late = bool(ctx.boolean('late'))
                if late:
                    # an empty fitter, filled later
                    f = rb.CNOTDihedralRBFitter(None, None, lens, pattern)
                    f.add_data([a[0]], [b[0]])
                else:
                    f = rb.CNOTDihedralRBFitter([a[0]], [b[0]], lens, pattern)
            f.add_data([a[1]], [b[1]])
        for w in (0, 1):
            check_stats(ctx, f.raw_data[w], f.ydata[w],
                        probs_of(sides[w][0], pattern, n, [0], 2), 'dihedral %d' % w)
        calls = fit.last(2 * len(pattern))
        refit(ctx, f, fit, lens, pattern)
        for i, p in enumerate(pattern):
            d = 2 ** len(p)
            az, aze = calls[i]['par'][1], calls[i]['err'][1]
            ar, are = calls[len(pattern) + i]['par'][1], calls[len(pattern) + i]['err'][1]
            r = f.fit_cnotdihedral[i]
            al = (az + d * ar) / (d + 1)
            ctx.eq(r['alpha'], al, 'combined decay')
            ctx.eq(r['epg_est'], (d - 1) * (1 - al) / d, 'error per element')
            ae = r['alpha_err']
            u, v = aze / az / (d + 1), d * are / ar / (d + 1)
            ctx.check(And(ae >= 0, close(ae * ae, u * u + v * v)), 'error of the decay')
            ctx.eq(r['epg_est_err'] * al, (d - 1) * ae / d, 'error of the rate')
    return h


def pur_label(d, nq):
    return ''.join('ZXY'[(d // 3 ** i) % 3] for i in range(nq))


def purity(pattern, how, seeds=(0,), lengths=(1, 2), which='stats', full=True):
    """purity = 2^-n sum over Pauli operators of the squared mean correlator"""
    def h(ctx):
        nq = len(pattern[0])
        n = sum(len(p) for p in pattern)
        npur = 3 ** nq
        lens = [list(lengths)] * len(pattern)
        cnt = {}
        circuits = []
        for s in seeds:
            for d in range(npur):
                for k in range(len(lengths)):
                    if which == 'stats':
                        if full or d in (1, 5):
                            c = mk_counts(ctx, 's%d.d%d.l%d' % (s, d, k), n, (), 100 + 10 * d)
                        else:
                            z = ctx.int('s%d.d%d.l%d' % (s, d, k), 1, 99)
                            c = {'0' * n: z, '1' * n: 100 - z}
                    else:
                        c = {b: 10 + 3 * d + k + i for i, b in enumerate(bitstrings(n))}
                    cnt[s, d, k] = c
                    circuits.append((s, d, k, exp_result(
                        'rb_purity_%s_length_%d_seed_%d' % (pur_label(d, nq), k, s), n,
                        counts=c)))
        if how == 'listed':       # one result per seed and basis, in order
            results = [result([e for s2, d2, _, e in circuits if (s2, d2) == (s, d)])
                       for s in seeds for d in range(npur)]
        elif how == 'shuffled':   # the bases in another order
            results = [result([e for s2, d2, _, e in circuits if (s2, d2) == (s, d)])
                       for s in seeds for d in reversed(range(npur))]
        else:                     # everything in one result
            results = [result([e for _, _, _, e in circuits])]
        # purities of all circuits
        pur = []
        for bits in patt_bits(pattern):
            rows = []
            for s in seeds:
                row = []
                for k in range(len(lengths)):
                    acc = 0
                    for P in itertools.product('IXYZ', repeat=nq):
                        vals = []
                        for d in range(npur):
                            lab = pur_label(d, nq)
                            if all(x == 'I' or x == y for x, y in zip(P, lab)):
                                c = cnt[s, d, k]
                                tot = total(c)
                                num = 0
                                for b, v in c.items():
                                    sgn = 1
                                    for j, x in enumerate(P):
                                        if x != 'I' and b[n - 1 - bits[j]] == '1':
                                            sgn = -sgn
                                    num = num + sgn * v
                                vals.append(num / tot)
                        m = ssum(vals) / len(vals)
                        acc = acc + m * m
                    row.append(acc / 2 ** nq)
                rows.append(row)
            pur.append(rows)
        fit = Fit(ctx, guess=False)
        with replaced([(CF, fit)]):
            if which == 'stats':
                f = rb.PurityRBFitter(None, npur, lens, pattern)
                f.add_data(results, rerun_fit=False)
                f.calc_data()
                f.calc_statistics()
            else:
                f = rb.PurityRBFitter(results, npur, lens, pattern)
        ctx.check(list(map(list, f.cliff_lengths)) == lens, 'lengths reported')
        order = list(f.seeds)
        calls = fit.last(len(pattern))
        if which == 'stats':
            check_stats(ctx, f.raw_data, f.ydata,
                        [[row[list(seeds).index(s)] for s in order] for row in pur], 'purity')
            return
        check_stats(ctx, f.raw_data, f.ydata, pur, 'purity')
        for i in range(len(pattern)):
            check_fit_call(ctx, calls[i], lens[i], f.ydata[i], 'fit')
            al, er = calls[i]['par'][1], calls[i]['err'][1]
            r = f.fit[i]
            dd = 2 ** nq
            ap = r['params'][1]
            if which == 'alpha':
                ctx.check(And(ap >= 0, close(ap * ap, al)), 'decay is the root of the purity decay')
                ctx.eq(r['pepc'], (dd - 1) * (1 - ap) / dd, 'purity error per Clifford')
                ctx.eq(r['epc'], (dd - 1) * (1 - al) / dd, 'epc of the raw decay')
                ctx.eq(r['pepc_err'] * ap * dd, (dd - 1) * r['params_err'][1], 'its error')
            else:
                ae = r['params_err'][1]
                # KNOWN_FINDINGS lists the formula err / (2 sqrt(root)); anything else is new
                ctx.check(And(ae >= 0, Or(close(4 * ae * ae * al, er * er),
                                          close(16 * ae * ae * ae * ae * al,
                                                er * er * er * er))),
                          'error of the root: neither the right formula nor the listed one')
                ctx.check(And(ae >= 0, close(4 * ae * ae * al, er * er)),
                          'error of the root propagated')
    return h


def counts_sum(k):
    def h(ctx):
        from qiskit.ignis.utils import build_counts_dict_from_list
        lists = []
        for i in range(k):
            keys = [x for x in bitstrings(2) if ctx.boolean('has%d.%s' % (i, x))]
            lists.append({x: ctx.int('c%d.%s' % (i, x), 0, 1000) for x in keys})
        want = {}
        for c in lists:
            for x, v in c.items():
                want[x] = want.get(x, 0) + v
        before = [dict(c) for c in lists]
        got = build_counts_dict_from_list(lists)
        ctx.check(set(got) == set(want), 'keys')
        for x in want:
            ctx.check(got[x] == want[x], 'sum of counts')
        for a, b in zip(before, lists):
            ctx.check(set(a) == set(b) and And(*[a[x] == b[x] for x in a]), 'inputs unchanged')
    return h


def gpc():
    """gate counts per Clifford"""
    def h(ctx):
        names = ['u1', 'u2', 'u3', 'cx', 'h']
        circs = []
        lens = [1, 3]
        cnt = {q: {b: 0 for b in ('u1', 'u2', 'cx')} for q in (0, 2)}
        nseeds = ctx.pick('nseeds', [1, 2])
        for s in range(nseeds):
            row = []
            for k in range(len(lens)):
                qc = QuantumCircuit(3, 3)
                for g in range(1):
                    nm = ctx.pick('g%d.%d.%d' % (s, k, g), ['u1', 'u2', 'cx', 'h'])
                    q = ctx.pick('q%d.%d.%d' % (s, k, g), [0, 1, 2]) if s == 0 else 2 - k
                    if nm == 'u1':
                        qc.u1(0.3, q)
                        qs = [q]
                    elif nm == 'u2':
                        qc.u2(0.3, 0.2, q)
                        qs = [q]
                    elif nm == 'h':
                        qc.h(q)
                        qs = [q]
                    else:
                        qc.cx(q, (q + 1) % 3)
                        qs = [q, (q + 1) % 3]
                    for x in qs:
                        if x in cnt and nm in cnt[x]:
                            cnt[x][nm] += 1
                qc.barrier()
                qc.measure(0, 0)
                row.append(qc)
            circs.append(row)
        got = ru.gates_per_clifford(circs, lens, ['u1', 'u2', 'cx'], [0, 2])
        tot = nseeds * sum(x + 1 for x in lens)
        ctx.check(set(got) == {0, 2}, 'qubits')
        for q in (0, 2):
            for b in cnt[q]:
                ctx.eq(got[q][b], cnt[q][b] / tot, 'gates per Clifford')
    return h


def epgs():
    def h(ctx):
        epc = ctx.real('epc', 0, 1)
        n2 = ctx.real('n2', 0, 2)
        n3 = ctx.real('n3', 0, 2)
        ctx.assume(n2 + n3 >= 0.1)
        q = ctx.pick('q', [0, 3])
        gpc_ = {q: {'cx': 0, 'u1': 0.2, 'u2': n2, 'u3': n3}}
        e = ru.calculate_1q_epg(gpc_, epc, q)
        ctx.check(e['u1'] == 0, 'u1 is free')
        ctx.eq(e['u3'], 2 * e['u2'], 'u3 twice u2')
        ctx.eq(e['u2'] * n2 + e['u3'] * n3, epc, 'rates add up to the Clifford error')
        ctx.raises(QiskitError, lambda: ru.calculate_1q_epg(gpc_, epc, q + 1), 'unknown qubit')
        ctx.raises(QiskitError, lambda: ru.calculate_1q_epg(
            {q: {'cx': 1.5, 'u2': n2, 'u3': n3}}, epc, q), 'two-qubit gates')
        ctx.raises(QiskitError, lambda: ru.calculate_1q_epg({q: {'u1': 1, 'u2': n2}}, epc, q),
                   'basis')
    return h


def powi(x, k):
    p = 1
    for _ in range(k):
        p = p * x
    return p


def epc1():
    def h(ctx):
        n = {g: ctx.pick('n' + g, [0, 1, 2]) for g in ('u2', 'u3')}
        e = {'u1': 0, 'u2': ctx.real('e2', 0, 0.4), 'u3': ctx.real('e3', 0, 0.4)}
        got = ru.calculate_1q_epc({1: dict(n, u1=3)}, e, 1)
        ctx.eq(got, 1 - powi(1 - e['u2'], n['u2']) * powi(1 - e['u3'], n['u3']),
               'Clifford error from gate errors')
        ctx.raises(QiskitError, lambda: ru.calculate_1q_epc({1: n}, e, 0), 'unknown qubit')
    return h


def epc2(direction):
    def h(ctx):
        pair = ctx.pick('pair', [[0, 1], [2, 0]])
        n = [{g: ctx.pick('n%d%s' % (i, g), [0, 1, 2]) for g in ('u2', 'u3')} for i in range(2)]
        ncx = ctx.pick('ncx', [1, 2])
        g = {pair[i]: dict(n[i], cx=ncx) for i in range(2)}
        e1 = [{'u1': 0, 'u2': ctx.real('e%d' % i, 0, 0.1), 'u3': ctx.real('f%d' % i, 0, 0.1)}
              for i in range(2)]
        al = [powi(1 - 2 * e1[i]['u2'], n[i]['u2']) * powi(1 - 2 * e1[i]['u3'], n[i]['u3'])
              for i in range(2)]
        c1 = (al[0] + al[1] + 3 * al[0] * al[1]) / 5
        if direction == 'epc':
            e2 = ctx.real('e2q', 0, 0.3)
            got = ru.calculate_2q_epc(g, e2, pair, e1)
            ctx.eq(got, 3 * (1 - c1 * powi(1 - 4 * e2 / 3, ncx)) / 4, 'two-qubit Clifford error')
            ctx.raises(QiskitError, lambda: ru.calculate_2q_epc(g, e2, [0], e1), 'pair')
            ctx.raises(QiskitError, lambda: ru.calculate_2q_epc(g, e2, pair, e1, 'cz'), 'gate')
        else:
            epc = ctx.real('epc', 0, 0.3)
            got = ru.calculate_2q_epg(g, epc, pair, e1)
            # a Clifford error made of the single-qubit part and n two-qubit gates
            ctx.eq((1 - 4 * got * ncx / 3) * c1, 1 - 4 * epc / 3, 'two-qubit gate error')
            ctx.eq(ru.calculate_2q_epg(g, epc, pair) * ncx, epc, 'without single-qubit errors')
            ctx.raises(QiskitError, lambda: ru.calculate_2q_epg(g, epc, [0, 1, 2], e1), 'pair')
            ctx.raises(QiskitError, lambda: ru.calculate_2q_epg(g, epc, pair, e1, 'cz'), 'gate')
    return h


def twoq():
    def h(ctx):
        n = [{g: ctx.pick('n%d%s' % (i, g), [0, 1]) for g in ('u1', 'u2', 'u3')} for i in range(2)]
        ncx = ctx.pick('ncx', [0, 2])
        g = {3: dict(n[1], cx=ncx), 1: dict(n[0], cx=ncx)}
        if ctx.boolean('absent'):
            # a gate that does not occur may be missing
            g = {q: {k: v for k, v in d.items() if v} for q, d in g.items()}
        er = [ctx.real('e%d' % i, 0, 0.1) for i in range(7)]
        got = ru.twoQ_clifford_error(g, [0, 0, 0, 1, 1, 1, -1], er)
        al = [1, 1]
        for i in range(2):
            for j, x in enumerate(('u1', 'u2', 'u3')):
                al[i] = al[i] * powi(1 - 2 * er[3 * i + j], n[i][x])
        a2 = powi(1 - 4 * er[6] / 3, ncx)
        ctx.eq(got, 3 * (1 - (al[0] + al[1] + 3 * al[0] * al[1]) / 5 * a2) / 4,
               'two-qubit Clifford error')
    return h


def coherence(nq):
    def h(ctx):
        t1 = [ctx.real('t1%d' % i, 10, 100) for i in range(nq)]
        given = bool(ctx.boolean('t2given'))
        t2 = [ctx.real('t2%d' % i, 10, 100) for i in range(nq)] if given else None
        g = ctx.real('g', 0.01, 1)
        got = ru.coherence_limit(nq, t1, t2, g)
        u = t2 if given else [2 * x for x in t1]
        if nq == 1:
            want = (1 - 2 * sexp(-g / u[0]) / 3 - sexp(-g / t1[0]) / 3) / 2
        else:
            a = [sexp(-g / x) for x in t1]
            b = [sexp(-g / x) for x in u]
            f = sexp(-g * (1 / t1[0] + 1 / t1[1]))
            k = sexp(-g * (1 / u[0] + 1 / u[1]))
            x01 = sexp(-g * (1 / u[0] + 1 / t1[1]))
            x10 = sexp(-g * (1 / u[1] + 1 / t1[0]))
            want = 3 * (1 - (a[0] + a[1] + f) / 15 - 2 * (b[0] + b[1] + x01 + x10) / 15
                        - 4 * k / 15) / 4
        ctx.eq(got, want, 'coherence limit')
        ctx.raises(ValueError, lambda: ru.coherence_limit(nq, t1 + [50], t2, g), 'length')
    return h


def obligations(tier):
    th = tier == 'thorough'
    O = Obligation
    kw = dict(max_paths=20000, time_limit=2400 if th else 600)
    st = ['scipy.optimize.curve_fit']
    obs = []
    b = 'pattern %s, seeds %s, counts 0..500'

    def std(nm, pat, seeds, lens, split, order, zeros=()):
        obs.append(O('standard-' + nm, standard(pat, seeds, lens, split, order, zeros),
                     b % (pat, seeds) + ', %s, %s' % (split, order), stubs=st, **kw))
    std('1q', [[0]], [0, 1], [[1, 2]], 'seed', 'list', ('0', '1'))
    std('1q-default', [[3]], [4], [[2, 3]], 'one', 'list', ('0',))
    std('1q-inc', [[0]], [0, 1], [[1, 2]], 'again', 'inc')
    std('1q-defer', [[0]], [1, 0], [[1, 2]], 'again', 'defer')
    std('1q-sparse', [[0]], [0], [[1, 2]], 'sparse', 'defer')
    std('1q-parts', [[0]], [0, 1], [[1, 2]], 'parts', 'defer')
    std('2q', [[0, 1]], [0], [[1, 2]], 'one', 'list', ('00',))
    std('1+1', [[0], [1]], [0], [[1, 2], [2, 3]], 'one', 'list', ('01', '00'))
    std('1+1-seeds', [[1], [0]], [0, 2], [[1, 2], [1, 2]], 'seed', 'list')
    std('2+1', [[0, 2], [1]], [0], [[1, 2], [3, 6]], 'one', 'list', ('000',))
    std('1+2', [[0], [2, 1]], [0], [[1, 2], [3, 6]], 'again', 'inc')
    for d in (1, 2):
        obs.append(O('guess-%d' % d, guess(d), 'counts 0..1000, first length 1..3, gap %d' % d,
                     stubs=st, **kw))
    obs.append(O('interleaved-1q', interleaved([[0]], True), 'default pattern, results added twice',
                 stubs=st, **kw))
    obs.append(O('interleaved-2+1', interleaved([[0, 1], [2]]), '2+1 qubits', stubs=st, **kw))
    obs.append(O('dihedral-1q', dihedral([[0]], True), 'default pattern, results added twice',
                 stubs=st, **kw))
    obs.append(O('dihedral-2+1', dihedral([[2, 1], [0]]), '2+1 qubits', stubs=st, **kw))
    for how in ('listed', 'shuffled', 'one'):
        obs.append(O('purity-1q-' + how, purity([[0]], how), '1 qubit, counts 1..100', stubs=st, **kw))
    obs.append(O('purity-1q-seeds', purity([[0]], 'listed', (0, 1), (1, 2), 'stats', True),
                 '2 seeds', stubs=st, **kw))
    obs.append(O('purity-1+1', purity([[0], [1]], 'listed'), '1+1 qubits', stubs=st, **kw))
    obs.append(O('purity-2q', purity([[0, 1]], 'one', (0,), (1, 2), 'stats', False),
                 '2 qubits', stubs=st, **kw))
    obs.append(O('purity-rates', purity([[0]], 'listed', which='alpha'), '1 qubit, any fit',
                 stubs=st, **kw))
    obs.append(O('purity-rates-2q', purity([[0, 1]], 'listed', which='alpha'), '2 qubits, any fit',
                 stubs=st, **kw))
    obs.append(O('purity-root-error', purity([[0]], 'listed', which='err'), '1 qubit, any fit',
                 stubs=st, **kw))
    obs.append(O('counts-sum', counts_sum(2), '2 dictionaries over 4 keys', **kw))
    obs.append(O('gates-per-clifford', gpc(), 'circuits of 1-2 gates, 1-2 seeds', **kw))
    obs.append(O('epg-1q', epgs(), 'rates in [0,1], gates in [0,2]', **kw))
    obs.append(O('epc-1q', epc1(), 'integer gates 0..2', **kw))
    for d in ('epc', 'epg'):
        obs.append(O('2q-' + d, epc2(d), 'integer gates', **kw))
    obs.append(O('2q-clifford-error', twoq(), 'integer gates', **kw))
    for n in (1, 2):
        obs.append(O('coherence-%d' % n, coherence(n), 'T1,T2 in 10..100, gate 0.01..1', **kw))
    return obs
