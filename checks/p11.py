"""P11 quantum volume: heavy outputs, pooled statistics, success criterion."""
import warnings

from qiskit.circuit import QuantumCircuit, Gate
from qiskit.circuit.library import QuantumVolume

from checks.lib import *
from checks import circ as cc
from qiskit.ignis.verification.quantum_volume import QVFitter, qv_circuits

EXPLANATION = (
    'QVFitter is executed on real Result objects whose amplitudes and counts are symbolic; z3 '
    'shows that the reported heavy sets, heavy counts, ideal/experimental means, their errors '
    'and the success flag equal an independent definition for every value within the bounds.')
OUTSIDE = ('widths above 3, more than 3 trials, unitaries of the model circuits themselves '
           '(sampled by qiskit-terra), plotting')
ASSUMPTIONS = ['erf is represented by an uninterpreted, strictly increasing function']


def _sv_result(ctx, names, amps, n):
    return result([exp_result(nm, n, statevector=arr(a)) for nm, a in zip(names, amps)])


def _median(ps):
    s = sort_net(ps)
    n = len(s)
    return (s[n // 2 - 1] + s[n // 2]) / 2


def heavy_set(n, kmax):
    def h(ctx):
        dim = 2 ** n
        ks = [ctx.int('k%d' % i, 0, kmax) for i in range(dim)]
        phase = [1, 1j, -1, -1j]
        amps = [(k / 4) * phase[i % 4] for i, k in enumerate(ks)]
        ps = [k * k / 16 for k in ks]
        nm = 'qv_depth_%d_trial_0' % n
        fit = QVFitter(None, _sv_result(ctx, [nm], [amps], n), [list(range(n))])
        heavy = fit.heavy_outputs[nm]
        med = _median(ps)
        for i, s in enumerate(bitstrings(n)):
            ctx.check((ps[i] > med) if (s in heavy) else Not(ps[i] > med),
                      'outcome %s heavy iff above the median' % s)
        ctx.check(len(set(heavy)) == len(heavy), 'no outcome listed twice')
        ctx.eq(fit.heavy_output_prob_ideal[nm],
               ssum([p for s, p in zip(bitstrings(n), ps) if s in heavy]), 'ideal heavy prob')
    return h


AMPS = {1: [[0.6, 0.8], [0.8, 0.6j]],
        2: [[0.5, 0.1, 0.7, 0.5j], [0.2, 0.9, 0.1j, 0.3]]}


def _true_heavy(amp, n):
    ps = [abs(a) ** 2 for a in amp]
    s = sorted(ps)
    med = (s[len(s) // 2 - 1] + s[len(s) // 2]) / 2
    return [b for b, p in zip(bitstrings(n), ps) if p > med + 1e-9]


def pooled(ntrials, nres, order):
    """counts of every circuit spread over several results, added in any order"""
    def h(ctx):
        lists = [[0], [0, 1]]
        names, svs, counts = {}, [], {}
        for t in range(ntrials):
            for n in (1, 2):
                nm = 'qv_depth_%d_trial_%d' % (n, t)
                names[nm] = (n, t)
                svs.append(exp_result(nm, n, statevector=np.array(AMPS[n][t % 2])))
        fit = QVFitter(None, result(svs), lists)
        per = {nm: [] for nm in names}
        results = []
        for r in range(nres):
            exps = []
            for nm, (n, t) in names.items():
                if r > 0 and (t + r) % 2 == 0:
                    continue        # this circuit was not run again in that job
                c = sym_counts(ctx, 'c%d.%s' % (r, nm), n, 500)
                per[nm].append(c)
                exps.append(exp_result(nm, n, counts=c))
            results.append(result(exps))
        for nm in names:
            ctx.assume(total(per[nm][0]) >= 1)
        if order == 'list':
            fit.add_data(results)
        elif order == 'rev':
            for x in reversed(results):
                # the first loaded result may lack some circuits: defer the fit
                fit.add_data(x, rerun_fit=False)
            fit.calc_data()
            fit.calc_statistics()
        else:
            for x in results:
                fit.add_data(x)
        for d, n in enumerate((1, 2)):
            hs = ts = 0
            ideal = []
            for t in range(ntrials):
                nm = 'qv_depth_%d_trial_%d' % (n, t)
                heavy = _true_heavy(AMPS[n][t % 2], n)
                hc = ssum([c[s] for c in per[nm] for s in heavy])
                tc = ssum([total(c) for c in per[nm]])
                ctx.eq(fit.heavy_output_counts[nm], hc, 'heavy counts %s' % nm)
                hs, ts = hs + hc, ts + tc
                ideal.append(sum(abs(a) ** 2 for a, s in zip(AMPS[n][t % 2], bitstrings(n))
                                 if s in heavy))
            mean = hs / ts
            y = fit.ydata
            ctx.eq(y[0][d], mean, 'experimental mean depth %d' % n)
            ctx.check(close(y[1][d] * y[1][d] * ntrials, mean * (1 - mean)),
                      'experimental error depth %d' % n)
            ctx.check(y[1][d] >= 0, 'error nonnegative')
            im = sum(ideal) / ntrials
            ctx.eq(y[2][d], im, 'ideal mean')
            ctx.eq(y[3][d], math.sqrt(max(0.0, im * (1 - im)) / ntrials), 'ideal error')
    return h


def success(ntrials):
    def h(ctx):
        svs, exps = [], []
        per = []
        for t in range(ntrials):
            nm = 'qv_depth_2_trial_%d' % t
            svs.append(exp_result(nm, 2, statevector=np.array(AMPS[2][t % 2])))
            good = ctx.int('h%d' % t, 0, 1000)
            bad = ctx.int('l%d' % t, 0, 1000)
            heavy = _true_heavy(AMPS[2][t % 2], 2)
            light = [s for s in bitstrings(2) if s not in heavy]
            exps.append(exp_result(nm, 2, counts={heavy[0]: good, light[0]: bad}))
            per.append((good, bad))
            ctx.assume(good + bad >= 1)
        fit = QVFitter(result(exps), result(svs), [[0, 1]])
        hs = ssum([g for g, _ in per])
        ts = ssum([g + b for g, b in per])
        m = hs / ts
        # keep away from the rounding knife-edge of the criterion
        d = m - 2 / 3
        lhs, rhs = d * d * ntrials, 4 * m * (1 - m)
        ctx.assume(Or(lhs - rhs > 1e-4, rhs - lhs > 1e-4))
        ctx.assume(Or(d > 1e-6, d < -1e-6))
        ok = fit.qv_success()
        ctx.check(len(ok) == 1, 'one entry per depth')
        want = And(d > 0, lhs > rhs)
        got = ok[0][0]
        ctx.check(And(Implies(got, want), Implies(want, got)),
                  'success iff mean exceeds 2/3 by more than two standard deviations')
        ctx.check(And(ok[0][1] >= 0, ok[0][1] <= 1), 'confidence level in [0,1]')
    return h


def heavy_set3(which):
    """three qubits; two symbolic amplitudes among fixed ones"""
    def h(ctx):
        ks = [3, 1, 4, 1, 5, 2, 6, 2]
        for w in which:
            ks[w] = ctx.int('k%d' % w, 0, 7)
        phase = [1, 1j, -1, -1j]
        amps = [(k / 8) * phase[i % 4] for i, k in enumerate(ks)]
        ps = [k * k / 64 for k in ks]
        nm = 'qv_depth_3_trial_0'
        fit = QVFitter(None, _sv_result(ctx, [nm], [amps], 3), [[0, 1, 2]])
        heavy = fit.heavy_outputs[nm]
        med = _median(ps)
        for i, s in enumerate(bitstrings(3)):
            ctx.check((ps[i] > med) if (s in heavy) else Not(ps[i] > med),
                      'outcome %s heavy iff above the median' % s)
        ctx.eq(fit.heavy_output_prob_ideal[nm],
               ssum([p for s, p in zip(bitstrings(3), ps) if s in heavy]), 'ideal heavy prob')
    return h


AMP3 = [0.1, 0.2, 0.3j, 0.4, 0.5, 0.3, 0.5j, 0.35]


def success_depths(ctx):
    """three depths; the verdict of each depends on its own counts only"""
    amps = {1: AMPS[1][0], 2: AMPS[2][0], 3: AMP3}
    sym = ctx.pick('depth', [1, 2, 3])
    other = ctx.pick('others', ['good', 'bad'])
    svs, exps, par = [], [], {}
    for n in (1, 2, 3):
        nm = 'qv_depth_%d_trial_0' % n
        svs.append(exp_result(nm, n, statevector=np.array(amps[n])))
        heavy = _true_heavy(amps[n], n)
        light = [s for s in bitstrings(n) if s not in heavy]
        if n == sym:
            g = ctx.int('h', 0, 1000)
            b = 1000 - g
        else:
            g, b = (999, 1) if other == 'good' else (300, 700)
        exps.append(exp_result(nm, n, counts={light[-1]: b, heavy[-1]: g}))
        par[n] = g / (g + b)
    fit = QVFitter(result(exps), result(svs), [[0], [0, 1], [0, 1, 2]])
    ok = fit.qv_success()
    ctx.check(len(ok) == 3, 'one entry per depth')
    for i, n in enumerate((1, 2, 3)):
        m = par[n]
        d = m - 2 / 3
        lhs, rhs = d * d, 4 * m * (1 - m)
        if n == sym:
            ctx.assume(Or(lhs - rhs > 1e-4, rhs - lhs > 1e-4))
            ctx.assume(Or(d > 1e-6, d < -1e-6))
        want = And(d > 0, lhs > rhs)
        got = ok[i][0]
        ctx.check(And(Implies(got, want), Implies(want, got)), 'success of each depth')
        ctx.eq(fit.ydata[0][i], m, 'mean of each depth')
    ctx.eq(list(fit.quantum_volume()), [2, 4, 8], 'volume of each depth')


LISTS = [[[0, 1], [0, 1, 2]], [[1, 2], [1, 2, 3]], [[2, 0]], [[1, 3], [4, 0, 2]], [[0]],
         [[3, 1, 0]], [[2, 1, 0]]]


class ModelCircuits:
    """QuantumVolume by contract: some circuit of that width; here a freely chosen
    pattern of flips, opaque to the code"""
    def __init__(self):
        self.calls = []

    def __call__(self, num_qubits, depth=None, seed=None, *a, **k):
        i = len(self.calls)
        self.calls.append((int(num_qubits), depth, seed))
        c = QuantumCircuit(int(num_qubits), name='model%d' % i)
        c.append(Gate('model%d' % i, int(num_qubits), []), c.qubits)
        return c


def model_circuits(ctx):
    lists = [list(x) for x in ctx.pick('lists', LISTS)]
    ntr = ctx.pick('trials', [1, 2])
    seed = ctx.pick('seed', [None, 0, 7])

    def make():
        m = ModelCircuits()
        with replaced([(QuantumVolume, m)]), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = qv_circuits([list(x) for x in lists], ntr, seed=seed)
        if not m.calls:
            raise Unsupported('QuantumVolume was not used')
        return m, r
    m, (circs, nomeas) = make()
    ctx.check(len(circs) == ntr and len(nomeas) == ntr, 'one list per trial')
    ctx.check(all(len(x) == len(lists) for x in list(circs) + list(nomeas)), 'one circuit per list')
    seen = set()
    for t in range(ntr):
        for d, ql in enumerate(lists):
            n = len(ql)
            c, c0 = circs[t][d], nomeas[t][d]
            ctx.eq(c.name, 'qv_depth_%d_trial_%d' % (n, t), 'name')
            ctx.eq(c0.name, c.name, 'same name without measurement')
            b = [ctx.bit('b%d.%d.%d' % (t, d, i)) for i in range(n)]
            got = []
            for cir in (c, c0):
                state = [0] * len(cir.qubits)
                out = {}
                kind = None
                for name, params, qs, cs, cond, inst in cc.ops(cir):
                    if name == 'barrier':
                        continue
                    if name == 'measure':
                        out[cs[0]] = state[qs[0]]
                    elif name.startswith('model'):
                        kind = int(name[5:])
                        for q, v in zip(qs, b):
                            state[q] = v
                    else:
                        raise Unsupported('gate %s' % name)
                got.append((kind, state, out))
            (k1, s1, o1), (k2, s2, o2) = got
            ctx.check(k1 is not None and k1 == k2, 'both circuits contain the same model circuit')
            if k1 is None:
                return
            ctx.check(k1 not in seen, 'a new model circuit each time')
            seen.add(k1)
            ctx.eq(m.calls[k1][0], n, 'width')
            ctx.check(m.calls[k1][1] in (None, n), 'depth equals width')
            ctx.check(not o2 and not c0.clbits, 'no measurement in the ideal circuit')
            ctx.eq(s2, b, 'ideal circuit on its own qubits')
            ctx.check(sorted(o1) == list(range(n)) and len(c.clbits) == n, 'every qubit measured')
            ctx.eq([o1.get(i, -1) for i in range(n)], b, 'bit i is qubit i of the ideal circuit')
            want = [0] * len(c.qubits)
            for i, q in enumerate(ql):
                want[q] = b[i]
            ctx.eq(s1, want, 'model circuit on the requested qubits')
    if seed is not None:
        m2, _ = make()
        ctx.check([x[2] for x in m.calls] == [x[2] for x in m2.calls]
                  and None not in [x[2] for x in m.calls], 'reproducible with a seed')
        with_gen = [x[2] for x in m.calls]
        if len(with_gen) > 1:
            ctx.check(len(set(map(str, with_gen))) > 1, 'different circuits get different seeds')


def obligations(tier):
    obs = [
        Obligation('heavy-set-n1', heavy_set(1, 6), '1 qubit, amplitudes k/4, k in 0..6'),
        Obligation('heavy-set-n2', heavy_set(2, 4), '2 qubits, amplitudes k/4, k in 0..4'),
        Obligation('pooled-list', pooled(2, 2, 'list'), '2 trials, depths 1-2, 2 results, counts 0..500'),
        Obligation('pooled-incremental', pooled(2, 2, 'inc'), 'same, results added one at a time'),
        Obligation('pooled-reversed', pooled(2, 2, 'rev'), 'same, added in reverse with deferred fit'),
        Obligation('heavy-set-n3-02', heavy_set3([0, 2]), '3 qubits, 2 symbolic amplitudes'),
        Obligation('heavy-set-n3-57', heavy_set3([5, 7]), '3 qubits, 2 symbolic amplitudes'),
        Obligation('success-depths', success_depths, '3 depths, 1000 shots'),
        Obligation('model-circuits', model_circuits,
                   '1-2 lists of 1-3 of 5 qubits, 1-2 trials, free flip patterns'),
        Obligation('success-1', success(1), '1 trial, counts 0..1000'),
        Obligation('success-2', success(2), '2 trials, counts 0..1000'),
    ]
    if tier == 'thorough':
        obs += [Obligation('pooled-3x3', pooled(3, 3, 'list'), '3 trials, 3 results'),
                Obligation('success-3', success(3), '3 trials', query_ms=60000),
                Obligation('heavy-set-n2-wide', heavy_set(2, 8), 'k in 0..8')]
    return obs
