"""P14: GHZ circuits (linear and parallelised), multiple-quantum-coherence and
parity-oscillation experiments, and the fidelities derived from them"""
import contextlib
import io
import math

import numpy as np
import qiskit.compiler
from qiskit.circuit import QuantumCircuit, QuantumRegister, Parameter, ParameterExpression

import qiskit.ignis.verification.entanglement as ent
import qiskit.ignis.verification.entanglement.linear as lin
import qiskit.ignis.verification.entanglement.parallelize as par
import qiskit.ignis.verification.entanglement.analysis as ana

from checks.lib import *
from checks import circ as cc
from checks.p12 import Angle, angle, trig, params_ok

EXPLANATION = (
    'The circuit builders run with a symbolic rotation angle, and BConfig with symbolic CX errors '
    'on several coupling maps (its sorting then forks over the orders); transpile is replaced by '
    'its contract (the circuit placed by the layout it is given). The circuits are run through an '
    'independent state-vector interpreter with exact cos/sin polynomials: the prepared state is '
    'GHZ, MQC and parity oscillations follow (1+cos n d)/2 and (-1)^n cos n d for every angle, '
    'CNOTs run along the coupling map, in parallel only on disjoint qubits. The analysis '
    'functions run on symbolic counts, spectra and density matrices.')
OUTSIDE = ('more than 6 device qubits or 4 entangled ones, the transpiler itself, plots, spectra '
           'of other than 4 or 8 phases')
ASSUMPTIONS = ['transpile keeps the meaning of a circuit and honours initial_layout']


# ------------------------------------------- state vectors, exact in cos/sin --
class Run:
    """amplitudes (re, im), scaled by 2^(k/2)"""
    def __init__(self, n):
        self.n, self.k = n, 0
        self.a = {0: (1, 0)}
        self.meas = {}          # qubit -> clbit

    def one(self, m, q):
        """m: 2x2 of (re, im)"""
        out = {}
        for i, (re, im) in self.a.items():
            b = (i >> q) & 1
            for r in (0, 1):
                c, d = m[r][b]
                if not is_sym(c) and not is_sym(d) and c == 0 and d == 0:
                    continue
                j = (i & ~(1 << q)) | (r << q)
                o = out.get(j, (0, 0))
                out[j] = (o[0] + re * c - im * d, o[1] + re * d + im * c)
        self.a = out

    def many(self, u, qs):
        out = {}
        for i, (re, im) in self.a.items():
            b = cc._sub(i, qs)
            for r in range(len(u)):
                z = complex(cc._snap(u[r, b]))
                if z == 0:
                    continue
                j = cc._embed(i, qs, r)
                o = out.get(j, (0, 0))
                out[j] = (o[0] + re * z.real - im * z.imag, o[1] + re * z.imag + im * z.real)
        self.a = out

    def prob(self, i):
        re, im = self.a.get(i, (0, 0))
        return (re * re + im * im) / 2 ** self.k


def value(p, binds):
    """the angle a gate parameter stands for"""
    if isinstance(p, ParameterExpression):
        if p in binds:
            return binds[p]
        if isinstance(p, Parameter):
            raise AssertionError('a free parameter that was not returned: %s' % p)
        free = list(p.parameters)
        if not free:
            return float(p)
        if len(free) == 1:      # linear in its parameter
            x = free[0]
            at = [float(p.bind({x: v})) for v in (0.0, 1.0, 2.0)]
            if abs(at[2] - 2 * at[1] + at[0]) < 1e-12:
                return binds[x] * (at[1] - at[0]) + at[0]
        raise Unsupported('parameter expression %s' % p)
    return p


def run(circ, binds=None):
    """state before the final measurements"""
    s = Run(len(circ.qubits))
    for name, params, qs, cs, cond, inst in cc.flat(circ):
        if name in ('barrier', 'id', 'delay'):
            continue
        if cond is not None:
            raise Unsupported('conditions')
        if name == 'measure':
            s.meas[qs[0]] = cs[0]
            continue
        if any(q in s.meas for q in qs):
            raise Unsupported('gates after a measurement')
        P = [value(p, binds or {}) for p in params]
        if any(isinstance(p, Angle) or is_sym(p) for p in P) or (
                P and name in ('u1', 'p', 'u2', 'rz')):
            cs_ = [trig(p) for p in P]
            if name in ('u1', 'p', 'rz'):
                s.one([[(1, 0), (0, 0)], [(0, 0), cs_[0]]], qs[0])
            elif name == 'u2':
                (cp, sp), (cl, sl) = cs_
                s.k += 1
                s.one([[(1, 0), (-cl, -sl)], [(cp, sp), (cp * cl - sp * sl, sp * cl + cp * sl)]],
                      qs[0])
            else:
                raise Unsupported('%s with a symbolic angle' % name)
            continue
        if any(isinstance(p, ParameterExpression) for p in params):
            raise Unsupported('%s with a parameter' % name)
        u = cc.gate_matrix(inst)
        if np.allclose(abs(u[abs(u) > 1e-9]), math.sqrt(0.5)):
            u = u * math.sqrt(2)
            s.k += 1
        s.many(u, qs)
    return s


def dist(s, nclbits):
    """{clbit value: probability} of the measured clbits"""
    out = {}
    for i in s.a:
        c = sum(((i >> q) & 1) << b for q, b in s.meas.items())
        out[c] = out.get(c, 0) + s.prob(i)
    return out


def is_ghz(ctx, s, qubits, what):
    """(|0..0> + |1..1>)/sqrt 2 on qubits, |0> elsewhere"""
    full = sum(1 << q for q in qubits)
    for i in set(s.a) | {0, full}:
        w = 0.5 if i in (0, full) else 0
        ctx.eq(s.prob(i), w, what + ': GHZ populations')
    (a, b), (c, d) = s.a.get(0, (0, 0)), s.a.get(full, (0, 0))
    ctx.eq(a * d - b * c, 0, what + ': no relative phase')
    ctx.check(a * c + b * d > 0, what + ': no relative sign')


def meas_ok(ctx, s, order, nclbits, fullm, what):
    """order[i] is the qubit that carries GHZ qubit i"""
    n = len(order)
    want = {order[i]: i for i in range(n)} if fullm else {order[0]: 0}
    ctx.check(s.meas == want, what + ': qubit i measured into clbit i')
    ctx.eq(nclbits, n if fullm else 1, what + ': size of the classical register')


def mqc_ok(ctx, s, order, nclbits, fullm, d, what):
    n = len(order)
    meas_ok(ctx, s, order, nclbits, fullm, what)
    c = trig(d * n)[0]
    p = dist(s, nclbits)
    ctx.eq(p.get(0, 0), (1 + c) / 2, what + ': return probability (1 + cos n d)/2')
    ctx.eq(p.get(1, 0), (1 - c) / 2, what + ': the rest flips the first qubit only')
    for k, v in p.items():
        if k not in (0, 1):
            ctx.eq(v, 0, what + ': no other outcome')


def po_ok(ctx, s, order, nclbits, d, what):
    n = len(order)
    meas_ok(ctx, s, order, nclbits, True, what)
    par_ = 0
    tot = 0
    for k, v in dist(s, nclbits).items():
        par_ = par_ + (-v if bin(k).count('1') % 2 else v)
        tot = tot + v
    ctx.eq(tot, 1, what + ': normalised')
    ctx.eq(par_, (-1) ** n * trig(d * n)[0], what + ': parity (-1)^n cos n d')


def linear(n):
    def h(ctx):
        fm = bool(ctx.bit('full'))
        d = angle(ctx, 'd')
        order = list(range(n))
        with params_ok():
            g0 = ent.get_ghz_simple(n, measure=False)
            s = run(g0)
            ctx.check(not s.meas and not g0.clbits, 'no measurement asked for')
            ctx.eq(len(g0.qubits), n, 'qubits')
            is_ghz(ctx, s, order, 'linear')
            g = ent.get_ghz_simple(n, full_measurement=fm)
            s = run(g)
            is_ghz(ctx, s, order, 'linear measured')
            meas_ok(ctx, s, order, len(g.clbits), fm, 'linear measured')
            m = ent.get_ghz_mqc(n, d, full_measurement=fm)
            mqc_ok(ctx, run(m), order, len(m.clbits), fm, d, 'MQC')
            mp, t = ent.get_ghz_mqc_para(n, full_measurement=fm)
            ctx.check(set(mp.parameters) == {t}, 'MQC parametrised: its parameter is returned')
            mqc_ok(ctx, run(mp, {t: d}), order, len(mp.clbits), fm, d, 'MQC parametrised')
            if fm:
                p = ent.get_ghz_po(n, d)
                po_ok(ctx, run(p), order, len(p.clbits), d, 'PO')
                pp, (t1, t2) = ent.get_ghz_po_para(n)
                ctx.check(set(pp.parameters) == {t1, t2}, 'PO parametrised: parameters returned')
                po_ok(ctx, run(pp, {t1: d, t2: -d}), order, len(pp.clbits), d, 'PO parametrised')
    return h


# ------------------------------------------------------ parallelised circuits --
class Backend:
    """configuration and properties as BConfig reads them"""
    def __init__(self, cmap, err, n):
        self.cmap, self.err, self.n = cmap, err, n

    def name(self):
        return 'device'

    def configuration(self):
        class C:
            pass
        c = C()
        c.coupling_map = [list(e) for e in self.cmap]
        c.n_qubits = self.n
        c.num_qubits = self.n
        return c

    def properties(self):
        gates = [{'gate': 'sx', 'name': 'sx_%d' % q, 'qubits': [q],
                  'parameters': [{'name': 'gate_error', 'value': 0.001},
                                 {'name': 'gate_length', 'value': 35.0}]} for q in range(self.n)]
        for (a, b), e in self.err.items():
            gates.append({'gate': 'cx', 'name': 'cx%d_%d' % (a, b), 'qubits': [a, b],
                          'parameters': [{'name': 'gate_error', 'value': e},
                                         {'name': 'gate_length', 'value': 300.0 + a}]})

        class P:
            def to_dict(self):
                return {'gates': gates, 'qubits': [], 'backend_name': 'device'}
        return P()


MAPS = {
    'T': (5, [[0, 1], [1, 0], [1, 2], [2, 1], [1, 3], [3, 1], [3, 4], [4, 3]]),
    'bowtie': (5, [[1, 0], [2, 0], [2, 1], [3, 2], [3, 4], [4, 2]]),
    'line': (4, [[0, 1], [1, 2], [2, 3]]),
    'star': (4, [[0, 1], [0, 2], [0, 3]]),
    'H': (7, [[0, 1], [1, 2], [1, 3], [3, 5], [5, 4], [5, 6]]),
    'loop': (4, [[0, 1], [1, 2], [2, 3], [3, 0], [0, 2]]),
    'ring': (6, [[0, 1], [1, 2], [2, 3], [3, 4], [4, 5], [5, 0]]),
}


def device(ctx, name):
    n, cmap = MAPS[name]
    err = {}
    for a, b in cmap:
        if (b, a) in err:
            err[a, b] = err[b, a]
        else:
            err[a, b] = ctx.real('e%d.%d' % (a, b), 0.001, 0.9)
    return Backend(cmap, err, n), n, cmap


def place(calls, n):
    """transpile by contract: the circuit on the device qubits its layout names"""
    def stub(circuits, backend=None, *a, **k):
        many = isinstance(circuits, (list, tuple))
        out = []
        for c in circuits if many else [circuits]:
            lay = k.get('initial_layout')
            if lay is None:
                raise Unsupported('transpile without a layout')
            if not isinstance(lay, dict):
                if hasattr(lay, 'get_virtual_bits'):
                    lay = lay.get_virtual_bits()
                else:
                    lay = dict(zip(c.qubits, lay))
            calls.append(lay)
            dev = QuantumRegister(n, 'dev')
            new = QuantumCircuit(dev, *c.cregs)
            where = {}
            for q in c.qubits:
                if q not in lay:
                    raise AssertionError('qubit %r is not placed' % (q,))
                where[q] = dev[lay[q]]
            assert len(set(where.values())) == len(where), 'two qubits on one place'
            for inst, qa, ca in c.data:
                new.append(inst, [where[q] for q in qa], ca)
            out.append(new)
        return out if many else out[0]
    return stub


def tiers(name):
    def h(ctx):
        be, n, cmap = device(ctx, name)
        ind = ctx.pick('indicator', [None, True, False])
        conf = ent.BConfig(be) if ind is None else ent.BConfig(be, indicator=ind)
        ind = ind is not False
        t = conf.get_tier_dict()
        edges = {tuple(e) for e in cmap} | {(b, a) for a, b in cmap}
        inn = None
        keys = list(t)
        ctx.check(keys == sorted(keys), 'steps in order')
        for k in keys:
            busy = set()
            for a, b in t[k]:
                if inn is None:
                    inn = {a}
                ctx.check((a, b) in edges, 'CNOTs along the coupling map')
                ctx.check(a in inn and b not in inn, 'from an entangled qubit to a fresh one')
                ctx.check(a not in busy and b not in busy, 'a step uses each qubit at most once')
                busy |= {a, b}
            inn |= {b for _, b in t[k]}
        ctx.check(inn == set(range(n)), 'every qubit of the device is reached')
        deg = {q: len({b for a, b in edges if a == q}) for q in range(n)}
        first = t[keys[0]][0][0]
        ctx.check(deg[first] == max(deg.values()), 'starts at a best connected qubit')
        # siblings of one control come in the order of their CNOT errors
        if ind:
            def e(a, b):
                return be.err[a, b] if (a, b) in be.err else be.err[b, a]
            when = {b: (k, a) for k in keys for a, b in t[k]}
            for b1, (k1, a1) in when.items():
                for b2, (k2, a2) in when.items():
                    if a1 == a2 and k1 < k2:
                        ctx.check(e(a1, b1) <= e(a2, b2), 'better CNOTs first')
    return h


def parallel(name, n):
    def h(ctx):
        be, nd, cmap = device(ctx, name)
        edges = {tuple(e) for e in cmap} | {(b, a) for a, b in cmap}
        what = ctx.pick('what', ['layout', 'plain', 'simple', 'mqc', 'mqc_para', 'po', 'po_para'])
        fm = bool(ctx.bit('full')) if what in ('simple', 'mqc', 'mqc_para') else True
        calls = []
        conf = ent.BConfig(be)
        with params_ok(), replaced([(qiskit.compiler.transpile, place(calls, nd))]):
            binds = {}
            d = angle(ctx, 'd') if what[:2] in ('mq', 'po') else None
            if what in ('layout', 'plain'):
                c, lay = conf.get_ghz_layout(n, transpiled=what == 'layout',
                                             barriered=bool(ctx.bit('barrier')))
            elif what == 'simple':
                c, q, lay = conf.get_ghz_simple(n, full_measurement=fm)
                ctx.eq(len(q), n, 'register')
            elif what == 'mqc':
                c, lay = conf.get_ghz_mqc(n, d, full_measurement=fm)
            elif what == 'mqc_para':
                c, t, lay = conf.get_ghz_mqc_para(n, full_measurement=fm)
                binds = {t: d}
            elif what == 'po':
                c, lay = conf.get_ghz_po(n, d)
            else:
                c, (t1, t2), lay = conf.get_ghz_po_para(n)
                binds = {t1: d, t2: -d}
        if what != 'plain' and not calls:
            raise Unsupported('transpile was not called')
        place_ = {q.index: v for q, v in lay.items()}
        ctx.check(sorted(place_) == list(range(n)), what + ': every qubit has a place')
        ctx.check(len(set(place_.values())) == n, what + ': places differ')
        for l in calls:
            ctx.check(l == lay, what + ': every part uses the returned layout')
        order = [place_[i] for i in range(n)]
        if what == 'plain':
            dev = order
            order = list(range(n))
        else:
            dev = list(range(nd))
        s = run(c, binds)
        for nm, _, qs, *_r in cc.flat(c):
            if nm != 'barrier' and len(qs) == 2:
                ctx.check((dev[qs[0]], dev[qs[1]]) in edges, what + ': CNOTs along the coupling map')
        if binds:
            ctx.check(set(c.parameters) == set(binds), what + ': parameters returned')
        if what in ('layout', 'plain'):
            is_ghz(ctx, s, order, what)
            ctx.check(not s.meas, what + ': no measurement')
        elif what == 'simple':
            is_ghz(ctx, s, order, what)
            meas_ok(ctx, s, order, len(c.clbits), fm, what)
        elif what.startswith('mqc'):
            mqc_ok(ctx, s, order, len(c.clbits), fm, d, what)
        else:
            po_ok(ctx, s, order, len(c.clbits), d, what)
    return h


# -------------------------------------------------------------------- analysis --
def counts_fns(n):
    def h(ctx):
        counts = {k: ctx.int('n' + k, 0, 1000) for k in bitstrings(n)}
        gone = ctx.pick('missing', ['', '0' * n, '1' * n, '0' * (n - 1) + '1'])
        given = {k: v for k, v in reversed(list(counts.items())) if k != gone}
        want = [given.get(k, 0) for k in bitstrings(n)]
        ctx.eq(list(ent.ordered_list_generator(given, n)), want, 'counts in binary order')
        z = np.asarray(ent.composite_pauli_z(n))
        ctx.eq(z.shape, (2 ** n, 2 ** n), 'size of Z..Z')
        for i in range(2 ** n):
            for j in range(2 ** n):
                ctx.eq(z[i, j], ((-1) ** bin(i).count('1')) if i == j else 0, 'Z..Z')
        ctx.eq(ent.composite_pauli_z_expvalue(given, n),
               ssum([v if k.count('1') % 2 == 0 else -v for k, v in given.items()]),
               'expectation value of Z..Z')
    return h


def rho_fidelity(n):
    def h(ctx):
        N = 2 ** n
        re, im = ctx.int('re', -50, 50), ctx.int('im', -50, 50)
        a, b = ctx.int('a', 0, 100), ctx.int('b', 0, 100)
        rho = np.zeros((N, N), dtype=object if ctx.sym else complex)
        rho[0, 0], rho[-1, -1] = a, b
        for i in range(1, N - 1):
            rho[i, i] = ctx.int('o%d' % i, 0, 100)
        I = core.SymC(core.lift(0), core.lift(1)) if ctx.sym else 1j
        rho[0, -1], rho[-1, 0] = re + im * I, re - im * I
        f = ent.rho_to_fidelity(nparr.to_obj(rho).view(nparr.SymArr) if ctx.sym and hasattr(
            nparr, 'SymArr') else rho)
        # F = (a + b)/2 + |c|
        x = f - (a + b) / 2
        ctx.check(And(x >= -1e-9, close(x * x, re * re + im * im, 1e-6)),
                  'fidelity with GHZ up to its phase')
    return h


class NoPlot:
    def __getattr__(self, name):
        return lambda *a, **k: None


def fourier(label, n, npts):
    def h(ctx):
        y = [ctx.int('y%d' % i, 0, 16) for i in range(npts)]
        ym = [ctx.int('m%d' % i, 0, 16) for i in range(npts)]
        P = {k: ctx.real(k, 0, 1) for k in ('P0', 'P1', 'P0_m', 'P1_m')}
        x = np.array([2 * math.pi * i / npts for i in range(npts)])
        with attr_replaced([(ana, 'plt', NoPlot())]), contextlib.redirect_stdout(io.StringIO()):
            r = ent.Plotter(label).get_fourier_info(n, x, arr(y), arr(ym), P)

        def comp(v, k):
            cs = [(cc._snap(math.cos(2 * math.pi * k * i / npts)),
                   cc._snap(math.sin(2 * math.pi * k * i / npts))) for i in range(npts)]
            return (ssum([a * c for a, (c, s) in zip(v, cs)]) / npts,
                    -ssum([a * s for a, (c, s) in zip(v, cs)]) / npts)

        def sq(z):
            return z[0] * z[0] + z[1] * z[1]
        for v, t, p0, p1 in ((y, '', 'P0', 'P1'), (ym, '_m', 'P0_m', 'P1_m')):
            In = comp(v, n)
            for part, w in ((np.real, In[0]), (np.imag, In[1])):
                ctx.check(close(part(r['In' + t]), w, 1e-9), 'n-th spectral component' + t)
            if label == 'po':
                q = r['F' + t] - (P[p0] + P[p1]) / 2
                ctx.check(And(q >= -1e-9, close(q * q, sq(In), 1e-6)),
                          'fidelity: populations and coherence of the same data' + t)
            else:
                I0 = comp(v, 0)
                ctx.check(close(np.real(r['I0' + t]), I0[0], 1e-9), 'zeroth component' + t)
                q = r['F' + t] - (P[p0] + P[p1]) / 2
                ctx.check(And(q >= -1e-9, close((q * q) * (q * q), sq(In), 1e-6)),
                          'fidelity: populations and coherence of the same data' + t)
                lb = r['LB' + t]
                ctx.check(And(lb >= -1e-9, close((lb * lb) * (lb * lb), 16 * sq(In), 1e-5)),
                          'lower bound 2 sqrt(In)' + t)
                ub = r['UB' + t] - lb / 2
                ctx.check(And(ub >= -1e-9, close(ub * ub * 2, I0[0], 1e-6)),
                          'upper bound sqrt(In) + sqrt(I0/2)' + t)
    return h


def obligations(tier):
    obs = [Obligation('linear GHZ experiments, %d qubits' % n, linear(n),
                      '%d qubits, every angle' % n) for n in (2, 3, 4, 5) + ((6, 7) if tier == 'thorough' else ())]
    for m in MAPS:
        obs.append(Obligation('tiers ' + m, tiers(m), '%d qubits, every CX error' % MAPS[m][0]))
    cases = [('T', 2), ('T', 3), ('T', 4), ('T', 5), ('bowtie', 3), ('line', 3), ('star', 4),
             ('H', 4), ('H', 5), ('loop', 4), ('ring', 4)]
    if tier == 'thorough':
        cases += [('bowtie', 5), ('H', 6), ('H', 7), ('ring', 6), ('line', 4)]
    for m, n in cases:
        obs.append(Obligation('parallel GHZ experiments %s %d' % (m, n), parallel(m, n),
                              '%d of %d qubits, every CX error and angle' % (n, MAPS[m][0])))
    for n in (1, 2, 3):
        obs.append(Obligation('counts to parity %d' % n, counts_fns(n), 'counts 0..1000'))
    for n in (1, 2):
        obs.append(Obligation('fidelity of a density matrix %d' % n, rho_fidelity(n),
                              'integer entries'))
    for lab in ('mqc', 'po'):
        obs.append(Obligation('fourier %s' % lab, fourier(lab, 1, 4), '4 phases, integer signals'))
        obs.append(Obligation('fourier %s, 8 phases' % lab, fourier(lab, 2, 8),
                              '8 phases, 2 qubits, integer signals'))
    return obs
