"""P02 randomized-benchmarking sequences."""
import itertools

import numpy as np
import qiskit
from qiskit.circuit import Gate, QuantumCircuit
from qiskit.exceptions import QiskitError
from qiskit.quantum_info.operators.symplectic import Clifford
from qiskit.circuit.library import (CXGate, CZGate, HGate, SGate, TGate, XGate)
from qiskit.quantum_info import Operator
from qiskit.quantum_info.random import random_clifford
import qiskit.ignis.verification.randomized_benchmarking as rb
from qiskit.ignis.verification.randomized_benchmarking import CNOTDihedral, random_cnotdihedral

from checks.lib import *
from checks import circ as C
from checks import p01

EXPLANATION = (
    'randomized_benchmarking_seq is executed with group elements drawn from an abstract '
    'non-commutative group whose elements are symbolic; z3 shows that in every generated circuit '
    'the elements on each pattern multiply to the identity, in the standard, interleaved, purity '
    'and CNOT-dihedral variants, and that lengths, names, qubit placement, measurement wiring '
    'and seeds are as documented.')
OUTSIDE = ('sequence lengths above 3, more than 2 seeds, patterns of more than 3 qubits; the '
           'Clifford arithmetic itself (qiskit-terra); dihedral arithmetic is P01')
ASSUMPTIONS = ['the sequence builder is parametric in the group: elements are opaque objects of a '
               'dihedral group of order 16 with symbolic members']
M = 8


class GGate(Gate):
    """opaque gate: x -> (1-2s) x + b mod M"""

    def __init__(self, n, s, b, tag):
        super().__init__('grp', n, [s, b])
        self.tag = tag

    def validate_parameter(self, p):
        return p

    def inverse(self):
        s, b = self.params
        return GGate(self.num_qubits, s, ((2 * s - 1) * b) % M, ('inv', self.tag))


def gmul(g, h):
    """g after h"""
    (s, b), (t, c) = g, h
    return (s + t - 2 * s * t, ((1 - 2 * s) * c + b) % M)


def stub_class(base):
    class Elem(base):
        """abstract group element with the interface of the real one"""

        def __init__(self, data=None, n=None, s=0, b=0, tag='id', validate=True):
            if isinstance(data, Elem):
                n, s, b, tag = data.n, data.s, data.b, data.tag
            elif isinstance(data, (int, np.integer)):
                n = int(data)
            elif data is not None:
                n = np.shape(data)[0] // 2
            self.n, self.s, self.b, self.tag = n, s, b, tag

        @property
        def num_qubits(self):
            return self.n

        def compose(self, other, qargs=None, front=False):
            a, c = (self.s, self.b), (other.s, other.b)
            s, b = gmul(a, c) if front else gmul(c, a)
            return Elem(n=self.n, s=s, b=b, tag=('prod', self.tag, other.tag))

        def dot(self, other, qargs=None):
            return self.compose(other, front=True)

        __matmul__ = compose

        def __mul__(self, other):
            return self.compose(other, front=True)

        def adjoint(self):
            return Elem(n=self.n, s=self.s, b=((2 * self.s - 1) * self.b) % M,
                        tag=('adj', self.tag))

        def to_circuit(self):
            qc = QuantumCircuit(self.n)
            qc.append(GGate(self.n, self.s, self.b, self.tag), list(range(self.n)))
            return qc

        def to_instruction(self):
            return GGate(self.n, self.s, self.b, self.tag)

        def from_circuit(self, circ):
            raise QiskitError('not used')

        def copy(self):
            return Elem(self)

        def __deepcopy__(self, memo):
            return Elem(self)
    return Elem


class World:
    """stubs for the two groups; every draw is a fresh symbolic element"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.draws = []
        self.cliff = stub_class(Clifford)
        self.dih = stub_class(CNOTDihedral)

    def draw(self, cls, n, seed):
        k = len(self.draws)
        e = cls(n=n, s=self.ctx.bit('e%d.s' % k), b=self.ctx.int('e%d.b' % k, 0, M - 1),
                tag=('draw', k))
        self.draws.append((n, seed))
        return e

    def __enter__(self):
        def rc(num_qubits, seed=None):
            return self.draw(self.cliff, num_qubits, seed)

        def rd(num_qubits, seed=None):
            return self.draw(self.dih, num_qubits, seed)
        self.cm = replaced([(Clifford, self.cliff), (CNOTDihedral, self.dih),
                            (random_clifford, rc), (random_cnotdihedral, rd)])
        self.cm.__enter__()
        return self

    def __exit__(self, *a):
        return self.cm.__exit__(*a)


def gops(circ):
    return C.flat(circ, C.BASE | {'grp'})


def sections(circ, pattern):
    """group gates per pattern entry, in order: [(s, b, tag)]; None if misplaced"""
    per = {tuple(p): [] for p in pattern}
    for name, params, qs, cs, cond, inst in gops(circ):
        if name == 'grp':
            if tuple(qs) not in per:
                return None
            per[tuple(qs)].append((params[0], params[1], inst.tag))
    return [per[tuple(p)] for p in pattern]


def check_identity(ctx, seqs, label):
    for seq in seqs:
        tot = (0, 0)
        for s, b, _ in seq:
            tot = gmul((s, b), tot)
        ctx.check(And(tot[0] == 0, tot[1] % M == 0), label + ': product of the sequence')


def check_measures(ctx, circ, pattern, label):
    flat = [q for p in pattern for q in p]
    ms = [(qs[0], cs[0]) for name, _, qs, cs, _, _ in gops(circ) if name == 'measure']
    ctx.check(ms == [(q, i) for i, q in enumerate(flat)],
              label + ': qubits measured in pattern order')
    names = [o[0] for o in gops(circ)]
    ctx.check('measure' not in names[:len(names) - len(flat)], label + ': measured last')


def check_barriers(ctx, circ, pattern, label):
    """a barrier on the pattern's qubits separates consecutive group elements"""
    last = {}
    for name, params, qs, cs, cond, inst in gops(circ):
        if name == 'grp':
            ctx.check(last.get(tuple(qs)) != 'grp', label + ': barrier between elements')
            last[tuple(qs)] = 'grp'
        elif name == 'barrier':
            for p in pattern:
                if set(p) <= set(qs):
                    last[tuple(p)] = 'barrier'


PATTERNS = [[[0]], [[2]], [[1, 0]], [[0], [1]], [[2, 0], [1]], [[1], [3, 0]], [[0, 2], [3, 1]]]
PUR_PATTERNS = [[[0]], [[1]], [[1, 0]], [[0], [2]], [[0, 2], [3, 1]], [[3, 0, 1]]]
LENGTHS = [[1], [2], [1, 3], [1, 2, 3]]


def mults(ctx, k):
    return ctx.pick('mult', [1, 2] + ([[1, 2], [2, 1]] if k == 2 else [[2]]))


def mult_list(m, k):
    return list(m) if isinstance(m, list) else [m] * k


def std(group, nseeds, lens, pats):
    def h(ctx):
        pat = ctx.pick('pattern', pats)
        lv = ctx.pick('lengths', lens)
        mult = mults(ctx, len(pat))
        align = bool(ctx.boolean('align'))
        off = ctx.pick('offset', [0, 3])
        with World(ctx) as w:
            out = rb.randomized_benchmarking_seq(
                nseeds=nseeds, length_vector=lv, rb_pattern=[list(p) for p in pat],
                length_multiplier=mult, seed_offset=off, align_cliffs=align, group_gates=group)
        ml = mult_list(mult, len(pat))
        xs = [[l * m for l in lv] for m in ml]
        ctx.check(np.array_equal(np.array(out[1]), np.array(xs)), 'sequence lengths reported')
        kinds = [('rb' if group is None else 'rb_cnotdihedral_Z', out[0], False)]
        if group is not None:
            kinds.append(('rb_cnotdihedral_X', out[2], True))
            ctx.check(len(out) == 3, 'three outputs')
        seen = set()
        for pre, circs, plus in kinds:
            ctx.check(len(circs) == nseeds, 'one list per seed')
            for s in range(nseeds):
                ctx.check(len(circs[s]) == len(lv), 'one circuit per length')
                prev = None
                for i, circ in enumerate(circs[s]):
                    nm = '%s_length_%d_seed_%d' % (pre, i, s + off)
                    ctx.check(circ.name == nm, 'name of circuit')
                    sec = sections(circ, pat)
                    ctx.check(sec is not None, 'elements act on the pattern qubits')
                    check_identity(ctx, sec, nm)
                    for p, (seq, m) in enumerate(zip(sec, ml)):
                        ctx.check(len(seq) == lv[i] * m + 1, 'number of elements')
                        tags = [t for _, _, t in seq[:-1]]
                        ctx.check(all(t[0] == 'draw' for t in tags), 'random elements')
                        ctx.check(len(set(tags)) == len(tags), 'elements drawn independently')
                        if prev is not None:
                            ctx.check(tags[:len(prev[p])] == prev[p],
                                      'longer sequences extend shorter ones')
                    prev = [[t for _, _, t in seq[:-1]] for seq in sec]
                    if not plus:
                        check_barriers(ctx, circ, pat, nm)
                        check_measures(ctx, circ, pat, nm)
                    else:
                        check_plus(ctx, circ, pat)
                tags = [t for seq in prev for t in seq]
                if not plus:
                    ctx.check(not (seen & set(tags)), 'seeds use different elements')
                    seen |= set(tags)
        if group is not None:
            for s in range(nseeds):
                for a, b in zip(out[0][s], out[2][s]):
                    ctx.check([[t for _, _, t in q] for q in sections(a, pat)] ==
                              [[t for _, _, t in q] for q in sections(b, pat)],
                              'same sequence in both bases')
    return h


def check_plus(ctx, circ, pat):
    """H on every pattern qubit before and after the sequence, then measurement"""
    flat = [q for p in pat for q in p]
    o = [x for x in gops(circ) if x[0] != 'barrier']
    k = len(flat)
    ctx.check(sorted(x[2][0] for x in o[:k] if x[0] == 'h') == sorted(flat), 'H first')
    ctx.check(sorted(x[2][0] for x in o[-2 * k:-k] if x[0] == 'h') == sorted(flat), 'H last')
    ctx.check(all(x[0] == 'grp' for x in o[k:-2 * k]), 'only the sequence in between')
    check_measures(ctx, circ, pat, 'plus basis')


def interleaved(group, lens, pats, nseeds):
    def h(ctx):
        pat = ctx.pick('pattern', pats)
        lv = ctx.pick('lengths', lens)
        mult = mults(ctx, len(pat))
        align = bool(ctx.boolean('align'))
        off = ctx.pick('offset', [0, 3])
        with World(ctx) as w:
            cls = w.cliff if group is None else w.dih
            inter = [cls(n=len(p), s=ctx.bit('i%d.s' % k), b=ctx.int('i%d.b' % k, 0, M - 1),
                         tag=('inter', k)) for k, p in enumerate(pat)]
            out = rb.randomized_benchmarking_seq(
                nseeds=nseeds, length_vector=lv, rb_pattern=[list(p) for p in pat],
                length_multiplier=mult, seed_offset=off, align_cliffs=align,
                interleaved_elem=inter,
                group_gates=group)
        ml = mult_list(mult, len(pat))
        if group is None:
            ctx.check(len(out) == 3, 'three outputs')
            pairs = [(out[0], out[2], 'rb_interleaved', 'rb', False)]
        else:
            ctx.check(len(out) == 5, 'five outputs')
            pairs = [(out[0], out[3], 'rb_cnotdihedral_interleaved_Z', 'rb_cnotdihedral_Z', False),
                     (out[2], out[4], 'rb_cnotdihedral_interleaved_X', 'rb_cnotdihedral_X', True)]
        for base, il, pre, pre0, plus in pairs:
            for s in range(nseeds):
                for i in range(len(lv)):
                    ctx.check(il[s][i].name == '%s_length_%d_seed_%d' % (pre, i, s + off),
                              'name')
                    ctx.check(base[s][i].name == '%s_length_%d_seed_%d' % (pre0, i, s + off),
                              'name')
                    a = sections(base[s][i], pat)
                    b = sections(il[s][i], pat)
                    ctx.check(a is not None and b is not None, 'placement')
                    check_identity(ctx, a, 'standard')
                    check_identity(ctx, b, 'interleaved')
                    for k, (x, y, m) in enumerate(zip(a, b, ml)):
                        want = []
                        for _, _, t in x[:-1]:
                            want += [t, ('inter', k)]
                        ctx.check([t for _, _, t in y[:-1]] == want,
                                  'the element follows every random element')
                        ctx.check(len(x) == lv[i] * m + 1, 'number of elements')
                    if plus:
                        check_plus(ctx, il[s][i], pat)
                        check_plus(ctx, base[s][i], pat)
                    else:
                        check_barriers(ctx, il[s][i], pat, 'interleaved')
                        check_measures(ctx, il[s][i], pat, 'interleaved')
                        check_measures(ctx, base[s][i], pat, 'standard')
    return h


def purity(lens, pats, nseeds):
    def h(ctx):
        pat = ctx.pick('pattern', pats)
        lv = ctx.pick('lengths', lens)
        off = ctx.pick('offset', [0, 3])
        with World(ctx) as w:
            circs, xdata, npur = rb.randomized_benchmarking_seq(
                nseeds=nseeds, length_vector=lv, rb_pattern=[list(p) for p in pat],
                seed_offset=off, is_purity=True)
        ml = [1] * len(pat)
        ctx.check(np.array_equal(np.array(xdata), np.array([[l * m for l in lv] for m in ml])),
                  'sequence lengths reported')
        dim = len(pat[0])
        ctx.check(npur == 3 ** dim, 'number of purity circuits')
        for s in range(nseeds):
            ctx.check(len(circs[s]) == npur, 'purity circuits per seed')
            bases = set()
            for d in range(npur):
                for i, circ in enumerate(circs[s][d]):
                    lab = circ.name.split('_')[2]
                    ctx.check(circ.name == 'rb_purity_%s_length_%d_seed_%d' % (lab, i, s + off),
                              'name of purity circuit')
                    ctx.check(len(lab) == dim and set(lab) <= set('XYZ'), 'basis label')
                    bases.add(lab)
                    sec = sections(circ, pat)
                    ctx.check(sec is not None, 'placement')
                    check_identity(ctx, sec, 'purity')
                    ctx.check([len(q) for q in sec] == [lv[i] * m + 1 for m in ml],
                              'number of elements')
                    ref = sections(circs[s][0][i], pat)
                    ctx.check([[t for _, _, t in q] for q in sec] ==
                              [[t for _, _, t in q] for q in ref], 'same sequence in all bases')
                    rots = {}
                    lastg = max(k for k, x in enumerate(gops(circ)) if x[0] == 'grp')
                    for k, x in enumerate(gops(circ)):
                        if x[0] in ('rx', 'ry'):
                            ctx.check(k > lastg, 'rotation after the sequence')
                            ctx.check(abs(x[1][0] - np.pi / 2) < 1e-9, 'rotation by pi/2')
                            ctx.check(x[2][0] not in rots, 'one rotation per qubit')
                            rots[x[2][0]] = x[0]
                    want = {}
                    for p in pat:
                        for q, c in zip(p, lab):
                            if c != 'Z':
                                want[q] = 'r' + c.lower()
                    ctx.check(rots == want, 'rotations spell the basis label')
                    check_measures(ctx, circ, pat, 'purity')
            ctx.check(len(bases) == npur, 'every basis once')
    return h


def seeds(lens, nseeds):
    """a given seed makes the draws reproducible and all of them different"""
    def h(ctx):
        rs = ctx.int('rand_seed', 0, 1000)
        lv = ctx.pick('lengths', lens)
        pat = ctx.pick('pattern', [[[0]], [[0, 1], [2]]])
        with World(ctx) as w:
            rb.randomized_benchmarking_seq(nseeds=nseeds, length_vector=lv, rb_pattern=pat,
                                           rand_seed=rs)
        sd = [s for _, s in w.draws]
        ctx.check(all(s is not None for s in sd), 'the seed reaches the generator')
        for a, b in itertools.combinations(sd, 2):
            ctx.check(a != b, 'every element has its own seed')
        ctx.check(And(*[And(s >= 0, s < 2 ** 32) for s in sd]), 'seeds in range')
        with World(_NoInput(ctx)) as w2:
            rb.randomized_benchmarking_seq(nseeds=nseeds, length_vector=lv, rb_pattern=pat,
                                           rand_seed=rs)
        ctx.check(And(*[x == y for (_, x), (_, y) in zip(w.draws, w2.draws)]),
                  'same seed, same draws')
    return h


class _NoInput:
    """context whose draws are constants (second run of the same sequence)"""

    def __init__(self, ctx):
        self.ctx = ctx

    def bit(self, n):
        return 0

    def int(self, n, lo, hi):
        return lo


def generator():
    """a RandomState given as rand_seed fixes the draws"""
    def h(ctx):
        pat = ctx.pick('pattern', [[[0]], [[0, 1], [2]]])
        grp = ctx.pick('group', [None, '1'])
        runs = []
        for c in (ctx, _NoInput(ctx)):
            with World(c) as w:
                rb.randomized_benchmarking_seq(nseeds=2, length_vector=[1, 2], rb_pattern=pat,
                                               group_gates=grp,
                                               rand_seed=np.random.RandomState(7))
            runs.append([s for _, s in w.draws])
        ctx.check(all(s is not None for s in runs[0]), 'every draw is seeded')
        shared = [isinstance(s, np.random.RandomState) for s in runs[0]]
        if not any(shared):
            ctx.check(runs[0] == runs[1], 'same generator state, same draws')
            ctx.check(len(set(runs[0])) == len(runs[0]), 'every element has its own seed')
    return h


def invalid(kind):
    def h(ctx):
        with World(ctx) as w:
            if kind == 'dup':
                q = [ctx.int('q%d' % i, 0, 3) for i in range(3)]
                dup = Or(q[0] == q[1], q[0] == q[2], q[1] == q[2])
                q = [int(x) for x in q]
                try:
                    rb.randomized_benchmarking_seq(length_vector=[1], rb_pattern=[q[:2], q[2:]])
                    ok = True
                except ValueError:
                    ok = False
                ctx.check(Not(dup) if ok else dup, 'duplicate qubits rejected, others accepted')
            elif kind == 'mult':
                m = [ctx.int('m%d' % i, -1, 3) for i in range(2)]
                m = [int(x) for x in m]
                bad = min(m) < 1
                try:
                    rb.randomized_benchmarking_seq(length_vector=[1], rb_pattern=[[0], [1]],
                                                   length_multiplier=m)
                    ok = True
                except ValueError:
                    ok = False
                ctx.check(ok != bad, 'multiplier rejected iff below one')
                ctx.raises(ValueError, lambda: rb.randomized_benchmarking_seq(
                    length_vector=[1], rb_pattern=[[0], [1]], length_multiplier=[1]),
                    'multiplier of the wrong length')
            elif kind == 'interleaved':
                a = ctx.pick('a', [1, 2])
                b = ctx.pick('b', [1, 2])
                inter = [w.cliff(n=a), w.cliff(n=b)]
                try:
                    rb.randomized_benchmarking_seq(length_vector=[1], rb_pattern=[[0, 2], [1]],
                                                   interleaved_elem=inter)
                    ok = True
                except ValueError:
                    ok = False
                ctx.check(ok == ((a, b) == (2, 1)), 'interleaved elements match the pattern')
                ctx.raises(ValueError, lambda: rb.randomized_benchmarking_seq(
                    length_vector=[1], rb_pattern=[[0]], group_gates='1',
                    interleaved_elem=[w.cliff(n=1)]), 'element of the other group')
            elif kind == 'purity':
                ctx.raises(ValueError, lambda: rb.randomized_benchmarking_seq(
                    length_vector=[1], rb_pattern=[[0, 1], [2]], is_purity=True),
                    'purity patterns of different size')
                ctx.raises(ValueError, lambda: rb.randomized_benchmarking_seq(
                    length_vector=[1], rb_pattern=[[0]], length_multiplier=[1], is_purity=True),
                    'purity with a multiplier list')
            else:
                for g in (None, '0', 'Clifford', 'clifford'):
                    o = rb.randomized_benchmarking_seq(length_vector=[1], group_gates=g)
                    ctx.check(len(o) == 2 and o[0][0][0].name == 'rb_length_0_seed_0', 'Clifford')
                for g in ('1', 'Non-Clifford', 'NonClifford', 'CNOTDihedral', 'CNOT-Dihedral'):
                    o = rb.randomized_benchmarking_seq(length_vector=[1], group_gates=g)
                    ctx.check(len(o) == 3 and o[0][0][0].name ==
                              'rb_cnotdihedral_Z_length_0_seed_0', 'group name ' + g)
                ctx.raises(Exception, lambda: rb.randomized_benchmarking_seq(
                    length_vector=[1], group_gates='2'), 'unknown group')
    return h


def real_dihedral(lv):
    """with real elements of the CNOT-dihedral group the circuit is the identity"""
    def h(ctx):
        k = [0]

        def rd(num_qubits, seed=None):
            k[0] += 1
            return p01.make(ctx, 'e%d' % k[0], num_qubits, [[1]])[0]
        with replaced([(random_cnotdihedral, rd)]), C.gate_params_symbolic():
            out = rb.randomized_benchmarking_seq(length_vector=lv, rb_pattern=[[1]],
                                                 group_gates='1')
        for circ in out[0][0]:
            qc = QuantumCircuit(2)
            for inst, q, c in circ.data:
                if inst.name not in ('measure', 'barrier'):
                    qc.append(inst, [x.index for x in q])
            p0, b0 = C.run_basis(qc, [0, 0])
            p1, b1 = C.run_basis(qc, [0, 1])
            ctx.check(And(b0[0] == 0, b0[1] == 0, b1[0] == 0, b1[1] == 1), 'bits restored')
            ctx.check((p1 - p0) % 8 == 0, 'phase restored')
    return h


def parts(circ, pat):
    """operations on the pattern's qubits between the barriers that cover all of them"""
    out = [[]]
    for inst, q, c in circ.data:
        idx = [x.index for x in q]
        if inst.name == 'barrier':
            if set(pat) <= set(idx):
                out.append([])
        elif inst.name != 'measure' and set(idx) & set(pat):
            out[-1].append((inst, idx))
    return [o for o in out if o]


def rebuild(ops, pat):
    qc = QuantumCircuit(len(pat))
    for inst, idx in ops:
        qc.append(inst, [list(pat).index(i) for i in idx])
    return qc


def _qc(n, *ops):
    qc = QuantumCircuit(n)
    for name, *q in ops:
        getattr(qc, name)(*q)
    return qc


def forms_dihedral(n):
    """interleaved elements given as gates, circuits or group elements; real arithmetic"""
    def h(ctx):
        if n == 1:
            cands = [(TGate(), ('t', 0)), (XGate(), ('x', 0)), (_qc(1, ('u1', np.pi / 4, 0), ('x', 0)), None),
                     (CNOTDihedral(_qc(1, ('u1', np.pi / 2, 0), ('x', 0))), None)]
            pat, lin = [[1]], [[1]]
        else:
            cands = [(CXGate(), ('cx', 0, 1)), (_qc(2, ('cx', 1, 0), ('u1', np.pi / 4, 0)), None),
                     (CNOTDihedral(_qc(2, ('x', 1), ('cx', 0, 1))), None)]
            pat, lin = [[2, 0]], [[1, 1], [0, 1]]
        elem, op = ctx.pick('element', cands)
        ref = _qc(n, op) if op else (elem if isinstance(elem, QuantumCircuit)
                                     else elem.to_circuit())
        k = [0]

        def rd(num_qubits, seed=None):
            k[0] += 1
            return p01.make(ctx, 'e%d' % k[0], num_qubits, lin)[0]
        with replaced([(random_cnotdihedral, rd)]), C.gate_params_symbolic():
            out = rb.randomized_benchmarking_seq(length_vector=[1], rb_pattern=pat,
                                                 group_gates='1', interleaved_elem=[elem])
        pp = parts(out[3][0][0], pat[0])
        whole = rebuild([x for p in pp for x in p], pat[0])
        mid = rebuild(pp[1], pat[0])
        base = [None, None, None]
        for x in itertools.product((0, 1), repeat=n):
            for j, (qc, want) in enumerate(((whole, None), (mid, ref))):
                p, b = C.run_basis(qc, list(x))
                w, y = (0, list(x)) if want is None else C.run_basis(want, list(x))
                d = p - w
                if base[j] is None:
                    base[j] = d
                ctx.check(And((d - base[j]) % 8 == 0, *[u == v for u, v in zip(b, y)]),
                          ('interleaved sequence is the identity',
                           'interleaved element as given')[j])
    return h


def forms_clifford():
    def h(ctx):
        one = ctx.pick('one', [HGate(), SGate(), XGate(), _qc(1, ('h', 0), ('s', 0)),
                               Clifford(_qc(1, ('s', 0), ('h', 0)))])
        two = ctx.pick('two', [CXGate(), CZGate(), _qc(2, ('cx', 1, 0), ('s', 0)),
                               Clifford(_qc(2, ('h', 1), ('cx', 1, 0)))])
        pat = [[1], [2, 0]]
        draws = {1: [_qc(1, ('h', 0)), _qc(1, ('s', 0), ('h', 0))],
                 2: [_qc(2, ('h', 0), ('cx', 0, 1)), _qc(2, ('cx', 1, 0), ('s', 1), ('h', 0))]}
        k = [0]

        def rc(num_qubits, seed=None):
            k[0] += 1
            return Clifford(ctx.pick('e%d' % k[0], draws[num_qubits]))
        with replaced([(random_clifford, rc)]):
            out = rb.randomized_benchmarking_seq(length_vector=[1], rb_pattern=pat,
                                                 interleaved_elem=[one, two])
        for p, elem in zip(pat, (one, two)):
            pp = parts(out[2][0][0], p)
            whole = Operator(rebuild([x for q in pp for x in q], p))
            ctx.check(whole.equiv(Operator(np.eye(2 ** len(p)))), 'sequence is the identity')
            want = elem.to_operator() if isinstance(elem, Clifford) else Operator(elem)
            ctx.check(Operator(rebuild(pp[1], p)).equiv(want), 'interleaved element as given')
    return h


def obligations(tier):
    th = tier == 'thorough'
    O = Obligation
    kw = dict(max_paths=20000, time_limit=2400 if th else 500, replay_models=2)
    lens = LENGTHS if th else [[2], [1, 3]]
    obs = []
    for i, p in enumerate(PATTERNS):
        b = 'pattern %s, lengths %s, multipliers, alignment, symbolic elements' % (p, lens)
        obs.append(O('standard-%d' % i, std(None, 2, lens, [p]), b, **kw))
        if th or i in (0, 2, 4):
            obs.append(O('dihedral-%d' % i, std('1', 1, lens, [p]), b, **kw))
        if th or i in (0, 2, 3, 5):
            obs.append(O('interleaved-%d' % i, interleaved(None, lens, [p], 2 if th else 1), b, **kw))
        if th or i in (1, 4):
            obs.append(O('interleaved-dihedral-%d' % i, interleaved('CNOT-Dihedral', lens, [p], 1),
                         b, **kw))
    for i, p in enumerate(PUR_PATTERNS):
        obs.append(O('purity-%d' % i, purity([[1], [1, 2]] if len(p[0]) < 3 else [[1]], [p],
                                               2 if th else 1),
                     'pattern %s, lengths [1],[1,2]' % (p,), **kw))
    obs.append(O('seeds', seeds([[2], [1, 3]], 2), 'rand_seed 0..1000, 2 seeds, lengths to 3', **kw))
    obs.append(O('generator', generator(), 'two patterns', **kw))
    for k in ('dup', 'mult', 'interleaved', 'purity', 'group'):
        obs.append(O('invalid-' + k, invalid(k), 'inputs within small ranges', **kw))
    obs.append(O('real-dihedral', real_dihedral([1, 2]), '1-qubit elements, lengths 1 and 2', **kw))
    for n in (1, 2):
        obs.append(O('forms-dihedral-%d' % n, forms_dihedral(n),
                     '%d qubit(s), symbolic elements, gate/circuit/element' % n, **kw))
    obs.append(O('forms-clifford', forms_clifford(),
                 'real Clifford elements chosen from a table by forks', **kw))
    return obs
