"""P04 accreditation: quantum one-time pad, trap circuits, acceptance and bound."""
import itertools

import numpy as np
import qiskit
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister, QiskitError
from qiskit.circuit.library import U3Gate, XGate, YGate, ZGate
from qiskit.ignis.verification.accreditation import (
    AccreditationCircuits, AccreditationFitter, QOTP, QOTPCorrectCounts)

from checks.lib import *
from checks import circ as C

EXPLANATION = (
    'Pads and traps are generated by the real code with the bits of the random generator as '
    'solver variables (a path per feasible choice); the resulting circuits are run on state '
    'vectors in which every single-qubit gate of the target is an arbitrary symbolic matrix, and '
    'after the returned correction their amplitudes must equal those of the target up to phases. '
    'Traps must return all zeros and detect every Pauli error after a two-qubit layer with '
    'probability at least 1/2 over their own choices. The fitter runs on symbolic single-shot '
    'outcomes, pads and statistics.')
OUTSIDE = ('more than 3 qubits or 2 two-qubit layers; pad bits beyond those listed in each '
           'obligation are fixed to an arbitrary pattern; correctness of the qiskit transpiler')
ASSUMPTIONS = ['transpile preserves the circuit (it is the identity in the symbolic runs and the '
               'real one in the replays and in the coupling-map obligations)']

FIXED = [1, 0, 1, 1, 0, 0, 1, 0, 1, 0, 0, 1, 1, 1, 0, 1, 0, 0, 0, 1, 1, 0, 1, 0, 1, 1, 0, 0] * 12


class Rng(np.random.RandomState):
    """random bits: the listed ones are solver variables, the others fixed"""
    ctx = None
    sym = ()

    def __init__(self, seed=None):
        super().__init__(1)
        self.n = 0
        self.wide = 0

    def _one(self, lo, hi):
        if hi - lo == 1:
            return lo
        if hi - lo != 2:
            self.wide += 1
            return int(self.ctx.int('pos%d' % self.wide, lo, hi - 1))
        i = self.n
        self.n += 1
        if i in self.sym:
            return lo + int(self.ctx.bit('r%d' % i))
        return lo + FIXED[i]

    def randint(self, low, high=None, size=None, dtype=int):
        lo, hi = (0, low) if high is None else (low, high)
        lo, hi = int(lo), int(hi)
        if size is None:
            return self._one(lo, hi)
        shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        return np.array([self._one(lo, hi) for _ in range(int(np.prod(shape)))],
                        dtype=int).reshape(shape)

    def _other(self, *a, **k):
        raise Unsupported('another kind of random draw')
    rand = random = random_sample = uniform = choice = permutation = shuffle = randn = _other
    random_integers = tomaxint = normal = binomial = bytes = _other


def rng(ctx, bits):
    cls = type('RandomState', (Rng,), {'ctx': ctx, 'sym': frozenset(bits)})
    return attr_replaced([(np.random, 'RandomState', cls)])


def same_circuit(circuits, *a, **k):
    return circuits.copy() if isinstance(circuits, QuantumCircuit) else [c.copy() for c in circuits]


class NoTranspile:
    """the transpiler returns an equivalent circuit: in symbolic runs, the same"""
    def __init__(self, ctx, on=True):
        self.cm = replaced([(qiskit.compiler.transpile, same_circuit)]) if ctx.sym and on else None

    def __enter__(self):
        return self.cm and self.cm.__enter__()

    def __exit__(self, *a):
        return self.cm and self.cm.__exit__(*a)


def label(k):
    """angles naming the k-th arbitrary gate"""
    return (0.3 + 0.07 * k, 0.2 + 0.11 * k, 0.9 - 0.05 * k)


def table(ctx, n):
    """arbitrary matrices for the labelled gates"""
    tab = {}
    for k in range(n):
        if ctx.sym:
            a, b, c, d = [ctx.real('u%d%s' % (k, x), -1, 1) for x in 'abcd']
            tab[label(k)] = [[a, 1j * b], [c, d]] if k % 2 else [[a, b], [1j * c, d]]
        else:
            tab[label(k)] = np.array(U3Gate(*label(k)).to_matrix())
    return tab


def mat(inst, tab):
    if inst.name in ('u3', 'u') and tuple(inst.params) in tab:
        return tab[tuple(inst.params)]
    m = np.array(inst.to_matrix())
    return [[C._snap(x) for x in row] for row in m]


def run_state(circ, tab, error=None):
    """amplitudes, {clbit: qubit}; error = (after how many two-qubit gates, {qubit: 'x'..})"""
    n = len(circ.qubits)
    st = [1] + [0] * (2 ** n - 1)
    meas = {}
    two = 0

    def ap(m, qs):
        new = [0] * 2 ** n
        for i in range(2 ** n):
            r = C._sub(i, qs)
            acc = 0
            for c in range(2 ** len(qs)):
                e, v = m[r][c], st[C._embed(i, qs, c)]
                if (is_sym(e) or e != 0) and (is_sym(v) or v != 0):
                    acc = acc + e * v
            new[i] = acc
        return new
    for name, params, qs, cs, cond, inst in C.flat(circ):
        if cond is not None:
            raise Unsupported('condition')
        if name in ('barrier', 'id'):
            continue
        if name == 'measure':
            meas[cs[0]] = qs[0]
            continue
        if set(qs) & set(meas.values()):
            raise Unsupported('gate after measurement')
        st = ap(mat(inst, tab), qs)
        if len(qs) == 2:
            two += 1
            if error and two == error[0]:
                for q, p in error[1].items():
                    st = ap(mat({'x': XGate(), 'y': YGate(), 'z': ZGate()}[p], tab), [q])
    return st, meas


def string(i, meas, m):
    return ''.join(str((i >> meas[c]) & 1) if c in meas else '0' for c in reversed(range(m)))


def by_string(circ, tab):
    """{clbit string: [amplitudes]}"""
    st, meas = run_state(circ, tab)
    out = {}
    for i, a in enumerate(st):
        out.setdefault(string(i, meas, len(circ.clbits)), []).append(a)
    return out


def target(kind):
    """(circuit, number of arbitrary gates)"""
    k = itertools.count()

    def U(qc, q):
        qc.append(U3Gate(*label(next(k))), [q])
    if kind in ('n1', 'n1b'):
        qc = QuantumCircuit(QuantumRegister(1, 'q'), ClassicalRegister(1, 's'))
        U(qc, 0)
        if kind == 'n1b':
            qc.barrier()
            U(qc, 0)
        qc.measure(0, 0)
    elif kind == 'n2':
        qc = QuantumCircuit(QuantumRegister(2, 'q'), ClassicalRegister(2, 's'))
        U(qc, 0), U(qc, 1)
        qc.cx(0, 1)
        U(qc, 0), U(qc, 1)
        qc.measure([0, 1], [0, 1])
    elif kind == 'n2swapped':
        qc = QuantumCircuit(QuantumRegister(2, 'q'), ClassicalRegister(3, 's'))
        U(qc, 0), U(qc, 1)
        qc.cx(1, 0)
        U(qc, 1)
        qc.measure([0, 1], [2, 0])
    elif kind == 'n2partial':
        qc = QuantumCircuit(QuantumRegister(2, 'q'), ClassicalRegister(1, 's'))
        U(qc, 0)
        qc.cx(0, 1)
        U(qc, 1)
        qc.measure([1], [0])
    elif kind == 'n2two':
        qc = QuantumCircuit(QuantumRegister(2, 'q'), ClassicalRegister(2, 's'))
        U(qc, 0), U(qc, 1)
        qc.cx(1, 0)
        U(qc, 0)
        qc.cx(0, 1)
        U(qc, 1)
        qc.measure([0, 1], [0, 1])
    elif kind == 'n2rep':        # consecutive two-qubit gates, no gate between, a barrier
        qc = QuantumCircuit(QuantumRegister(2, 'q'), ClassicalRegister(2, 's'))
        U(qc, 0)
        qc.cx(0, 1)
        qc.barrier()
        U(qc, 1)
        qc.cx(1, 0)
        qc.barrier()
        qc.measure([0, 1], [0, 1])
    elif kind == 'n3':
        qc = QuantumCircuit(QuantumRegister(3, 'q'), ClassicalRegister(3, 's'))
        U(qc, 0), U(qc, 1), U(qc, 2)
        qc.cx(2, 0)
        U(qc, 1), U(qc, 2)
        qc.cx(1, 2)
        U(qc, 2)
        qc.measure([0, 1, 2], [0, 1, 2])
    elif kind == 'n4':           # two gates in one layer
        qc = QuantumCircuit(QuantumRegister(4, 'q'), ClassicalRegister(4, 's'))
        U(qc, 0), U(qc, 3)
        qc.cx(0, 2)
        qc.cx(3, 1)
        U(qc, 1)
        qc.measure([0, 1, 2, 3], [3, 1, 0, 2])
    return qc, next(k)


PH = (1, -1, 1j, -1j)


def eqc(a, b):
    if is_sym(a) or is_sym(b):
        return close(a, b)
    return abs(a - b) < 1e-9


def norm2(xs):
    acc = 0
    for x in xs:
        r, i = core.re_im(x) if is_sym(x) else (complex(x).real, complex(x).imag)
        acc = acc + r * r + i * i
    return acc


def check_pad(ctx, ref, circ, postp, tab, what):
    got = by_string(circ, tab)
    strings = list(got)
    seen = set()
    for s in strings:
        cor = QOTPCorrectCounts({s: 7}, postp)
        ctx.check(list(cor.values()) == [7], what + ': counts kept by the correction')
        t = list(cor)[0]
        ctx.check(t not in seen and t in ref, what + ': correction permutes the outcomes')
        seen.add(t)
        if not ctx.sym:
            # transpiled circuits may carry any global phase
            ctx.check(abs(norm2(got[s]) - norm2(ref[t])) < 1e-9, what + ': same distribution')
        elif len(got[s]) == 1:
            ctx.check(Or(*[eqc(got[s][0] * p, ref[t][0]) for p in PH]),
                      what + ': same amplitude up to a phase')
        else:
            ctx.eq(norm2(got[s]), norm2(ref[t]), what + ': same distribution')


def two_qubit(circ):
    return [(name, tuple(qs)) for name, p, qs, cs, cond, i in C.flat(circ) if len(qs) == 2
            and name != 'barrier']


def h_pad(kind, gate, bits, num=1):
    def h(ctx):
        qc, ng = target(kind)
        tab = table(ctx, ng)
        ref = by_string(qc, tab)
        before = len(qc.data)
        with rng(ctx, bits), NoTranspile(ctx):
            circs, postps = QOTP(qc, num, two_qubit_gate=gate, seed=5)
        ctx.check(len(circs) == num and len(postps) == num, 'number of pads')
        ctx.check(len(qc.data) == before, 'target untouched')
        for c, p in zip(circs, postps):
            check_pad(ctx, ref, c, p, tab, kind)
            ctx.check(all(g == gate for g, _ in two_qubit(c)), 'requested two-qubit gate used')
    return h


def h_traps(kind, gate, bits, ntrap):
    def h(ctx):
        qc, ng = target(kind)
        tab = table(ctx, ng)
        ref = by_string(qc, tab)
        with rng(ctx, bits), NoTranspile(ctx):
            acc = AccreditationCircuits(qc, two_qubit_gate=gate, seed=3)
            circs, postps, v0 = acc.generate_circuits(ntrap)
        ctx.check(len(circs) == len(postps) == ntrap + 1 and 0 <= v0 <= ntrap, 'list sizes')
        for i, (c, p) in enumerate(zip(circs, postps)):
            ctx.check(two_qubit(c) == two_qubit(circs[v0]),
                      'every circuit has the two-qubit gates of the target')
            if i == v0:
                check_pad(ctx, ref, c, p, tab, 'target')
                continue
            for s, amps in by_string(c, tab).items():
                zero = set(list(QOTPCorrectCounts({s: 1}, p))[0]) == {'0'}
                nrm = norm2(amps)
                if is_sym(nrm):
                    ctx.check(close(nrm, 1 if zero else 0), 'trap returns zeros')
                else:
                    ctx.check(abs(nrm - (1 if zero else 0)) < 1e-9, 'trap returns zeros')
    return h


class _All:
    def __init__(self, bits):
        self.bits = bits
        self.used = 0

    def cls(self):
        me = self

        class R(np.random.RandomState):
            def __init__(self, seed=None):
                super().__init__(1)

            def randint(self, low, high=None, size=None, dtype=int):
                lo, hi = (0, low) if high is None else (low, high)
                if size is not None:
                    return np.zeros(size, dtype=int)      # no pad
                if hi - lo != 2:
                    return hi - 1                          # target last
                i = me.used
                me.used += 1
                return lo + (me.bits[i] if i < len(me.bits) else 0)
        return R


_TRAPS = {}


def all_traps(kind, gate, nbits):
    """the trap circuits for every choice of the trap's own random bits (2 traps asked for, so
    that the position draw is not taken for a bit; only the first is used)"""
    out = []
    used = 0
    for bits in itertools.product((0, 1), repeat=nbits):
        a = _All(bits)
        qc, _ = target(kind)
        with attr_replaced([(np.random, 'RandomState', a.cls())]), \
                replaced([(qiskit.compiler.transpile, same_circuit)]):
            circs, postps, v0 = AccreditationCircuits(
                qc, two_qubit_gate=gate, seed=3).generate_circuits(2)
        used = max(used, a.used)
        out.append((circs[0], postps[0]))
        if v0 != 2:
            raise Unsupported('another order of random draws')
    if used > 2 * nbits or used == 0:
        raise Unsupported('another number of random choices')
    return out


def h_detect(kind, gate, nbits, ntwo):
    """whatever Pauli error follows a two-qubit layer, at least half the traps detect it"""
    def h(ctx):
        traps = all_traps(kind, gate, nbits)
        n = len(traps[0][0].qubits)
        loc = int(ctx.int('loc', 1, ntwo))
        es = [int(ctx.int('p%d' % q, 0, 3)) for q in range(n)]
        if not any(es):
            return
        err = {q: ' xyz'[e] for q, e in enumerate(es) if e}
        hit = 0
        for c, p in traps:
            st, meas = run_state(c, {}, (loc, err))
            zero = [abs(a) ** 2 for i, a in enumerate(st)
                    if set(list(QOTPCorrectCounts({string(i, meas, len(c.clbits)): 1}, p))[0])
                    == {'0'}]
            hit += 1 - sum(zero)
        ctx.check(hit >= len(traps) / 2 - 1e-9, 'error %s detected by half the traps' % err)
    return h


def h_real(kind, coupling, gate, bits):
    """with the real transpiler, routing included"""
    def h(ctx):
        if kind == 'ghz':
            qc = QuantumCircuit(QuantumRegister(3, 'q'), ClassicalRegister(3, 's'))
            qc.u3(0.3, 0.1, 0.2, 0)
            qc.h(1)
            qc.cx(0, 2)
            qc.cx(1, 2)
            qc.u3(1.3, 0.4, 0.2, 2)
            qc.t(0)
            qc.cx(0, 1)
            qc.ry(0.7, 0)
            qc.measure([0, 1, 2], [0, 1, 2])
        else:
            qc = QuantumCircuit(QuantumRegister(2, 'q'), ClassicalRegister(2, 's'))
            qc.ry(0.4, 0)
            qc.cz(0, 1)
            qc.swap(0, 1)
            qc.rx(0.3, 1)
            qc.measure([0, 1], [1, 0])
        with rng(ctx, bits):
            circs, postps = QOTP(qc, 1, two_qubit_gate=gate, coupling_map=coupling, seed=5)
        ref = {s: norm2(a) for s, a in by_string(qc, {}).items()}
        got = {}
        for s, a in by_string(circs[0], {}).items():
            t = list(QOTPCorrectCounts({s: 1}, postps[0]))[0]
            got[t] = got.get(t, 0) + norm2(a)
        ctx.check(set(got) <= set(ref), 'outcomes of the right length')
        ctx.check(all(abs(got.get(s, 0) - ref[s]) < 1e-6 for s in ref),
                  'padded circuit has the distribution of the target')
        if coupling:
            pairs = {frozenset(p) for p in coupling}
            ctx.check(all(frozenset(q) in pairs for _, q in two_qubit(circs[0])),
                      'coupling map respected')
    return h


def h_reject(ctx):
    k = ctx.pick('k', ['gate', 'mid', 'cond', 'reset', 'accred'])
    qc = QuantumCircuit(QuantumRegister(2, 'q'), ClassicalRegister(2, 's'))
    qc.h(0)
    qc.cx(0, 1)
    kw = {}
    if k in ('gate', 'accred'):
        kw['two_qubit_gate'] = 'swap'
    if k == 'mid':
        qc.measure(0, 0)
        qc.h(0)
    if k == 'cond':
        qc.measure(0, 0)
        qc.x(1).c_if(qc.cregs[0], 1)
    if k == 'reset':
        qc.reset(0)
        qc.h(0)
    qc.measure([0, 1], [0, 1])
    if k == 'accred':
        ctx.raises(QiskitError, lambda: AccreditationCircuits(qc, **kw).generate_circuits(3), k)
    else:
        ctx.raises(QiskitError, lambda: QOTP(qc, 1, **kw), k)


# ------------------------------------------------------------------- fitter --
def h_correct(n):
    def h(ctx):
        post = [int(b) for b in ctx.bits('p', n)]
        counts = {k: ctx.int('c' + k, 0, 1000) for k in bitstrings(n)}
        if ctx.boolean('few'):
            counts.pop('0' * n)
        keep = dict(counts)
        form = ctx.pick('form', ['list', 'array'])
        got = QOTPCorrectCounts(counts, post if form == 'list' else np.array(post))
        want = {''.join(str(int(a) ^ b) for a, b in zip(k, post)): v for k, v in keep.items()}
        ctx.check(set(got) == set(want), 'keys shifted by the pad')
        for k in want:
            ctx.eq(got.get(k, -1), want[k], 'counts of %s' % k)
        ctx.check(set(counts) == set(keep), 'input untouched')
    return h


def one_shot(outs, n):
    return result([exp_result('c%d' % i, n, counts={o: 1}, shots=1) for i, o in enumerate(outs)])


def h_run(n, ntrap, runs):
    def h(ctx):
        f, g = AccreditationFitter(), AccreditationFitter()
        outputs, acc = [], 0
        for r in range(runs):
            v0 = int(ctx.int('v%d' % r, 0, ntrap))
            outs = [''.join(str(int(ctx.bit('o%d.%d.%d' % (r, i, j)))) for j in range(n))
                    for i in range(ntrap + 1)]
            post = [[FIXED[(5 * r + 3 * i + j) % 20] for j in range(n)] for i in range(ntrap + 1)]
            cor = [''.join(str(int(a) ^ b) for a, b in zip(o, p)) for o, p in zip(outs, post)]
            f.single_protocol_run(one_shot(outs, n), post, v0)
            ok = all(set(c) == {'0'} for i, c in enumerate(cor) if i != v0)
            ctx.check(f.flag == ('accepted' if ok else 'rejected'),
                      'accepted exactly when every trap gives zeros')
            if ok:
                acc += 1
                outputs.append(cor[v0])
            ctx.check(f.N_acc == acc and f.num_runs == r + 1, 'runs counted')
            ctx.check(list(f.outputs) == outputs, 'outputs of the accepted runs')
            ctx.check(f.num_traps == ntrap, 'traps')
        ctx.check(list(g.outputs) == [] and g.N_acc == 0 and g.num_runs == 0,
                  'other fitters unaffected')
    return h


def h_bound(ctx):
    f = AccreditationFitter()
    f.num_traps = int(ctx.int('v', 3, 12))
    f.num_runs = int(ctx.int('d', 1, 6))
    f.N_acc = int(ctx.int('n', 1, f.num_runs))
    g = ctx.pick('g', [1, 0.9])
    f.g_num = g
    acc = f.N_acc / f.num_runs
    for i in range(2):
        th = ctx.real('theta%d' % i, 0, 1)
        ctx.assume(Or(acc - th > 1e-3, acc - th < -1e-3))
        f.bound_variation_distance(th)
        if acc > th:
            raw = g * 1.7 / (f.num_traps + 1) / (acc - th) + 1 - g
            ctx.assume(Or(raw > 1 + 1e-6, raw < 1 - 1e-6))
            ctx.eq(f.bound, raw if raw < 1 else 1, 'bound')
            ctx.eq(f.confidence, 1 - 2 * sexp(-2 * f.num_runs * th * th), 'confidence')
        else:
            ctx.check(f.bound == 1, 'no bound unless the acceptance rate exceeds theta')


def h_fit_errors(ctx):
    k = ctx.pick('k', ['traps', 'fewer', 'shots', 'none', 'twokeys'])
    f = AccreditationFitter()
    v = int(ctx.int('v', 3, 5))
    ok = (one_shot(['00'] * (v + 1), 2), [[0, 0]] * (v + 1), 0)
    if k == 'traps':
        t = int(ctx.int('t', 0, 2))
        ctx.raises(QiskitError, lambda: f.single_protocol_run(
            one_shot(['00'] * (t + 1), 2), [[0, 0]] * (t + 1), 0), 'fewer than 3 traps')
    elif k == 'fewer':
        f.single_protocol_run(*ok)
        w = int(ctx.int('w', 3, 6))
        if w == v:
            return
        ctx.raises(QiskitError, lambda: f.single_protocol_run(
            one_shot(['00'] * (w + 1), 2), [[0, 0]] * (w + 1), 0), 'other number of traps')
        ctx.check(f.num_runs == 1 and len(f.outputs) == 1, 'failed run not counted')
    elif k in ('shots', 'twokeys'):
        i = int(ctx.int('i', 0, v))
        exps = [exp_result('c%d' % j, 2, shots=1, counts=(
            {'00': 1} if j != i else {'00': 2} if k == 'shots' else {'00': 1, '01': 1}))
            for j in range(v + 1)]
        ctx.raises(QiskitError, lambda: f.single_protocol_run(result(exps), ok[1], 0),
                   'more than one shot')
    else:
        bad = one_shot(['01'] * (v + 1), 2)
        f.single_protocol_run(bad, ok[1], 0)
        ctx.raises(QiskitError, lambda: f.bound_variation_distance(0.3), 'nothing accepted')


def obligations(tier):
    O = Obligation
    obs = []
    R = range
    for kind, gate, bits in (
            ('n1', 'cx', R(3)), ('n1b', 'cz', R(3)),
            ('n2', 'cx', R(10)), ('n2', 'cz', R(2, 10)), ('n2swapped', 'cx', R(2, 10)),
            ('n2partial', 'cz', R(2, 10)), ('n2partial', 'cx', R(2, 8)),
            ('n2two', 'cx', R(2, 10)), ('n2two', 'cx', R(6, 14)), ('n2two', 'cz', R(4, 12)),
            ('n2rep', 'cx', R(2, 10)), ('n2rep', 'cz', R(6, 14)),
            ('n3', 'cx', R(3, 9)), ('n3', 'cx', R(9, 15)), ('n3', 'cz', R(6, 12)),
            ('n3', 'cx', R(14, 21)), ('n4', 'cx', R(4, 12)), ('n4', 'cz', R(10, 20, 2))):
        bits = list(bits)
        obs.append(O('pad-%s-%s-%d' % (kind, gate, bits[0]), h_pad(kind, gate, bits),
                     'arbitrary single-qubit gates, random bits %d..%d' % (bits[0], bits[-1])))
    obs.append(O('pad-several', h_pad('n2', 'cx', R(12, 18), 3), 'three pads of one circuit'))
    for kind, gate, bits, nt in (
            ('n1', 'cx', R(8), 1), ('n2', 'cx', R(8), 2), ('n2', 'cz', R(8), 1),
            ('n2', 'cx', R(9, 16), 1), ('n2two', 'cx', R(7), 1), ('n2two', 'cz', R(7), 2),
            ('n3', 'cx', R(7), 1), ('n3', 'cz', R(5, 12), 1), ('n2swapped', 'cx', R(7), 1)):
        bits = list(bits)
        obs.append(O('traps-%s-%s-%d' % (kind, gate, bits[0]), h_traps(kind, gate, bits, nt),
                     '%d traps, any target position, random bits %d..%d' % (nt, bits[0], bits[-1])))
    for kind, gate, nb, two in (('n2', 'cx', 2, 1), ('n2', 'cz', 2, 1), ('n2two', 'cx', 3, 2),
                                ('n2two', 'cz', 3, 2), ('n3', 'cx', 5, 2), ('n3', 'cz', 5, 2)):
        obs.append(O('detect-%s-%s' % (kind, gate), h_detect(kind, gate, nb, two),
                     'every Pauli error after a two-qubit layer, all trap choices'))
    obs.append(O('real-line', h_real('ghz', [[0, 1], [1, 2], [1, 0], [2, 1]], 'cx', R(33, 36)),
                 'routed 3-qubit circuit, 3 pad bits'))
    obs.append(O('real-full', h_real('ghz', None, 'cz', R(3, 6)), '3-qubit circuit, 3 pad bits'))
    obs.append(O('real-swap', h_real('swap', None, 'cx', R(2, 6)), '2 qubits, 4 pad bits'))
    obs.append(O('reject', h_reject, 'unsupported targets'))
    for n in (1, 2, 3):
        obs.append(O('correct-n%d' % n, h_correct(n), 'any pad, counts 0..1000'))
    obs.append(O('run-n2', h_run(2, 3, 1), 'any outcomes of 3 traps and the target'))
    obs.append(O('run-n1', h_run(1, 3, 2), 'two runs, any outcomes'))
    obs.append(O('bound', h_bound, 'traps 3..12, runs 1..6, two thetas in 0..1'))
    obs.append(O('fit-errors', h_fit_errors, 'invalid data'))
    if tier == 'thorough':
        obs.append(O('pad-n2two-all', h_pad('n2two', 'cx', R(14)), 'all 14 pad bits',
                     time_limit=3600, max_paths=20000))
        obs.append(O('run-n1-3', h_run(1, 3, 3), 'three runs', time_limit=3600, max_paths=10 ** 6))
    return obs
