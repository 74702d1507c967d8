"""P05 repetition code: syndrome circuits, processing of results, decoding."""
import copy
import itertools

import networkx as nx
from qiskit.circuit import Gate
from qiskit.ignis.verification.topological_codes import (
    RepetitionCode, GraphDecoder, lookuptable_decoding, postselection_decoding)

from checks.lib import *
from checks import circ as C

EXPLANATION = (
    'The circuits of the code are interpreted on bits with symbolic bit flips before every round '
    'and every readout, and z3 shows that the recorded bits are the parities of neighbouring '
    'code qubits; processing and decoding run on the strings of such histories (one path per '
    'history the solver finds feasible), and the decoders on symbolic counts and symbolic edge '
    'weights, against the definition of the syndrome changes, of a minimum-weight correction '
    'and of the logical error probability.')
OUTSIDE = ('distance above 5, more than 3 rounds; optimality of networkx matching is itself '
           'part of the check only up to 4 syndrome changes')
ASSUMPTIONS = []


def xor(a, b):
    if is_sym(a) or is_sym(b):
        return a + b - 2 * a * b
    return (a + b) % 2


def run_bits(circ, flips, before=None):
    """classical run; flips: {label: bit} for gates named 'flip'; before: extra X as
    (instruction number, qubit, kind). Returns clbit values by index."""
    q = [0] * len(circ.qubits)
    c = [0] * len(circ.clbits)
    for k, (name, params, qs, cs, cond, inst) in enumerate(C.ops(circ)):
        if before is not None and before[0] == k and before[2] in 'xy':
            q[before[1]] = xor(q[before[1]], 1)
        if name == 'x':
            q[qs[0]] = xor(q[qs[0]], 1)
        elif name == 'flip':
            q[qs[0]] = xor(q[qs[0]], flips[inst.label])
        elif name == 'cx':
            q[qs[1]] = xor(q[qs[1]], q[qs[0]])
        elif name == 'swap':
            q[qs[0]], q[qs[1]] = q[qs[1]], q[qs[0]]
        elif name == 'cz' or name in ('z', 'id', 'barrier'):
            pass
        elif name == 'reset':
            q[qs[0]] = 0
        elif name == 'measure':
            c[cs[0]] = q[qs[0]]
        else:
            raise Unsupported('gate %s in the code circuit' % name)
    return c


def flip(circ, label, qubit):
    circ.append(Gate('flip', 1, [], label=label), [qubit])


def raw_string(circ, c):
    """as Result.get_counts prints it: last register first, bit 0 rightmost"""
    i, parts = 0, []
    for r in circ.cregs:
        parts.append(''.join(str(int(b)) for b in reversed(c[i:i + r.size])))
        i += r.size
    return ' '.join(reversed(parts))


def reg_bits(circ, c):
    out, i = {}, 0
    for r in circ.cregs:
        out[r.name] = c[i:i + r.size]
        i += r.size
    return out


def noisy_code(d, T, style):
    """code with labelled flips on every code qubit before each round and the readout, and on
    every ancilla before its round"""
    code = RepetitionCode(d, 0)
    for t in range(T):
        for log in '01':
            for j in range(d):
                flip(code.circuit[log], 'e%d.%d' % (t, j), code.code_qubit[j])
        if style == 'x' and t == 0:
            code.x()
        if style == 'x1' and t == 0:
            code.x(['1'], barrier=True)
        for log in '01':
            for j in range(d - 1):
                flip(code.circuit[log], 'm%d.%d' % (t, j), code.link_qubit[j])
        code.syndrome_measurement(reset=(t < T - 1), barrier=(style == 'barrier'))
    for log in '01':
        for j in range(d):
            flip(code.circuit[log], 'e%d.%d' % (T, j), code.code_qubit[j])
    code.readout()
    return code


def history(ctx, d, T):
    f = {}
    for t in range(T + 1):
        for j in range(d):
            f['e%d.%d' % (t, j)] = ctx.bit('e%d.%d' % (t, j))
        if t < T:
            for j in range(d - 1):
                f['m%d.%d' % (t, j)] = ctx.bit('m%d.%d' % (t, j))
    return f


def h_circuit(d, T, style):
    def h(ctx):
        code = noisy_code(d, T, style)
        f = history(ctx, d, T)
        lst = code.get_circuit_list()
        ctx.check(len(lst) == 2 and lst[0] is code.circuit['0'] and lst[1] is code.circuit['1'],
                  'circuit list')
        ctx.check(code.T == T and code.d == d, 'rounds counted')
        for log in '01':
            qc = code.circuit[log]
            ctx.check(qc.name == log, 'circuit named by its logical value')
            bits = reg_bits(qc, run_bits(qc, f))
            cur = [int(log)] * d
            for t in range(T):
                cur = [xor(cur[j], f['e%d.%d' % (t, j)]) for j in range(d)]
                if t == 0 and (style == 'x' or (style == 'x1' and log == '1')):
                    cur = [xor(b, 1) for b in cur]
                for j in range(d - 1):
                    want = xor(xor(cur[j], cur[j + 1]), f['m%d.%d' % (t, j)])
                    ctx.eq(bits['round_%d_link_bit' % t][j], want,
                           'round %d ancilla %d reads the parity of its neighbours' % (t, j))
            cur = [xor(cur[j], f['e%d.%d' % (T, j)]) for j in range(d)]
            for j in range(d):
                ctx.eq(bits['code_bit'][j], cur[j], 'code qubit %d read out' % j)
    return h


def h_constructor(ctx):
    d = int(ctx.int('d', 2, 5))
    T = int(ctx.int('T', 0, 3))
    code = RepetitionCode(d, T)
    ctx.check(code.d == d and code.T == T, 'size')
    for log in '01':
        qc = code.circuit[log]
        c = run_bits(qc, {})
        bits = reg_bits(qc, c)
        if T == 0:
            ctx.check(bits == {}, 'no measurement without rounds')
            continue
        want = {'round_%d_link_bit' % t: [0] * (d - 1) for t in range(T)}
        want['code_bit'] = [int(log)] * d
        ctx.check(bits == want, 'noiseless outcome is the logical value with trivial syndrome')
        ctx.check([r.name for r in qc.cregs] ==
                  ['round_%d_link_bit' % t for t in range(T)] + ['code_bit'],
                  'registers in round order')
        s = raw_string(qc, c)
        out = code.process_results({log: {s: 17}})
        ctx.check(out == {log: {log + ' ' + log + '  ' + ' '.join(['0' * (d - 1)] * (T + 1)): 17}},
                  'noiseless result processed')


def want_string(raw, d, T):
    """definition: outer code bits, then the change of every syndrome round (bits as printed)"""
    parts = raw.split(' ')
    codeb, rounds = parts[0], list(reversed(parts[1:]))
    final = ''.join(str(int(codeb[j] != codeb[j + 1])) for j in range(d - 1))
    prev = '0' * (d - 1)
    changes = []
    for s in rounds + [final]:
        changes.append(''.join(str(int(a != b)) for a, b in zip(s, prev)))
        prev = s
    return codeb[0] + ' ' + codeb[-1] + '  ' + ' '.join(changes)


def h_process(d, T):
    def h(ctx):
        code = RepetitionCode(d, T)
        bits = ctx.bits('b', d + T * (d - 1))
        s = [str(int(b)) for b in bits]
        s = ''.join(s[:d]) + ''.join(' ' + ''.join(s[d + i * (d - 1):d + (i + 1) * (d - 1)])
                                     for i in range(T))
        n, m = ctx.int('n', 0, 1000), ctx.int('m', 0, 1000)
        other = '0' * d + (' ' + '0' * (d - 1)) * T
        raw = {'0': {s: n}, '1': {s: m}}
        if other != s:
            raw['0'][other] = m
        keep = copy.deepcopy(raw)
        out = code.process_results(raw)
        ctx.check({k: list(v) for k, v in raw.items()} == {k: list(v) for k, v in keep.items()},
                  'raw results untouched')
        ctx.check(set(out) == {'0', '1'}, 'both logical values processed')
        w = want_string(s, d, T)
        wo = want_string(other, d, T)
        ctx.check(set(out['0']) == {w} | ({wo} if other != s else set()), 'strings of 0')
        ctx.check(set(out['1']) == {w}, 'strings of 1')
        ctx.eq(out['0'].get(w, -1), n, 'counts kept')
        ctx.eq(out['1'].get(w, -1), m, 'counts kept')
        if other != s:
            ctx.eq(out['0'].get(wo, -1), m, 'counts kept')
    return h


# ---------------------------------------------------------------- decoding --
_GRAPH = {}


def decoder(d, T):
    """code and decoder with its own fresh copy of the syndrome graph"""
    if (d, T) not in _GRAPH:
        code = RepetitionCode(d, T)
        _GRAPH[d, T] = GraphDecoder(code).S
    code = RepetitionCode(d, T)
    return code, GraphDecoder(code, S=copy.deepcopy(_GRAPH[d, T]))


def nodes_of(string):
    out = []
    for ty, part in enumerate(string.split('  ')):
        for rd, el in enumerate(part.split(' ')):
            out += [(ty, rd, i) for i, b in enumerate(el) if b == '1']
    return out


def true_edges(d, T):
    """pairs of string elements flipped by one Pauli error before one gate"""
    code = RepetitionCode(d, T)
    qc = code.circuit['0']
    out = set()
    for k, (name, params, qs, cs, cond, inst) in enumerate(C.ops(qc)):
        for q in qs:
            s = want_string(raw_string(qc, run_bits(qc, {}, (k, q, 'x'))), d, T)
            ns = nodes_of(s)
            if ns:
                out.add(frozenset(ns))
    return out


def h_graph(ctx):
    d = int(ctx.int('d', 2, 4))
    T = int(ctx.int('T', 1, 2))
    want = true_edges(d, T)
    S = GraphDecoder(RepetitionCode(d, T)).S
    ctx.check({frozenset(e) for e in S.edges} == want,
              'edges are the pairs of elements one error can flip')
    ctx.check(set(S.nodes) == {n for e in want for n in e}, 'nodes')
    ctx.check(all(S.edges[e]['distance'] == 1 for e in S.edges), 'unit distances')


def h_corrects(d, T, log):
    """fewer than d/2 faults anywhere: decoded exactly"""
    def h(ctx):
        code = noisy_code(d, T, '')
        _, dec = decoder(d, T)
        f = history(ctx, d, T)
        ctx.assume(ssum(list(f.values())) <= (d - 1) // 2)
        f = {k: int(v) for k, v in f.items()}
        qc = code.circuit[log]
        s = raw_string(qc, run_bits(qc, f))
        out = list(code.process_results({log: {s: 1}})[log])
        ctx.check(len(out) == 1, 'one string')
        got = dec.matching(out[0])
        ctx.check(got == log + ' ' + log, 'logical value recovered')
        n = ctx.int('n', 1, 1000)
        ctx.eq(dec.get_logical_prob({log: {out[0]: n}})[log], 0, 'no logical error counted')
    return h


def pairings(xs):
    """all perfect matchings of xs and boundary 0/1 assignments: lists of (a, b|('L', k))"""
    if not xs:
        yield []
        return
    a, rest = xs[0], xs[1:]
    for k in (0, 1):
        for p in pairings(rest):
            yield [(a, ('L', k))] + p
    for i in range(len(rest)):
        for p in pairings(rest[:i] + rest[i + 1:]):
            yield [(a, rest[i])] + p


def class_weights(dist, syn):
    """{(flip0, flip1): [total distance of each correction]}"""
    out = {}
    for p in pairings(syn):
        w, fl = 0, [0, 0]
        for a, b in p:
            if b[0] == 'L':
                fl[b[1]] ^= 1
                w = w + dist[a, (0, b[1], 0)]
            else:
                w = w + dist[a, b]
        out.setdefault(tuple(fl), []).append(w)
    return out


def string_from(ctx, d, T, maxw=None):
    """any decoder input: outer bits and syndrome changes of even total parity"""
    b = ctx.bits('s', 2 + (T + 1) * (d - 1))
    if maxw is not None:
        ctx.assume(ssum(b[2:]) <= maxw)
    # the two outer code bits differ exactly if the final syndrome has odd parity
    acc = b[0]
    for x in b[1:]:
        acc = xor(acc, x)
    ctx.assume(acc == 0)
    s = ''.join(str(int(x)) for x in b)
    ch = [s[2 + t * (d - 1):2 + (t + 1) * (d - 1)] for t in range(T + 1)]
    return s[0] + ' ' + s[1] + '  ' + ' '.join(ch)


def check_min(ctx, dist, s, got):
    syn = [n for n in nodes_of(s) if n[0] == 1]
    g = got.split(' ')
    ctx.check(len(g) == 2 and set(g) <= {'0', '1'} and len(got) == 3, 'two logical bits')
    fl = (int(g[0] != s[0]), int(g[1] != s[2]))
    cw = class_weights(dist, syn)
    ctx.check(fl in cw, 'correction consistent with the syndrome')
    for k, ws in cw.items():
        if k == fl:
            continue
        for w in ws:
            ctx.check(Or(*[m <= w for m in cw[fl]]), 'correction has minimal total distance')


def h_minimal(d, T, maxw):
    def h(ctx):
        _, dec = decoder(d, T)
        s = string_from(ctx, d, T, maxw)
        dist = {(a, b): nx.shortest_path_length(_GRAPH[d, T], a, b)
                for a in _GRAPH[d, T] for b in _GRAPH[d, T]}
        check_min(ctx, dist, s, dec.matching(s))
    return h


def floyd(G, w):
    ns = list(G.nodes)
    dist = {(a, b): (0 if a == b else None) for a in ns for b in ns}
    for a, b in G.edges:
        dist[a, b] = dist[b, a] = w[frozenset((a, b))]
    for k in ns:
        for a in ns:
            for b in ns:
                if a == b or dist[a, k] is None or dist[k, b] is None or k in (a, b):
                    continue
                v = dist[a, k] + dist[k, b]
                dist[a, b] = v if dist[a, b] is None else smin([dist[a, b], v])
    return dist


def h_weighted(d, T, strings, sym_edges):
    """arbitrary positive distances on some edges (unit on the others)"""
    def h(ctx):
        _, dec = decoder(d, T)
        s = ctx.pick('s', strings)
        if ctx.boolean('used'):
            dec.matching(s)             # the decoder was used before it was reweighted
        es = sorted(tuple(sorted(e)) for e in dec.S.edges)
        w = {}
        for i, e in enumerate(es):
            v = ctx.real('w%d' % i, 0.25, 4) if i in sym_edges(d, T, es) else 1
            w[frozenset(e)] = v
            dec.S.edges[e]['distance'] = v
        dist = floyd(dec.S, w)
        check_min(ctx, dist, s, dec.matching(s))
    return h


def h_weights(keys, sym, lo=1):
    """edge weights from counts"""
    def h(ctx):
        d, T = 2, 1
        code, dec = decoder(d, T)
        res = {k: ctx.int('c[%s]' % k, lo, 1000) if i in sym else 10 + 7 * i
               for i, k in enumerate(keys)}
        keep = dict(res)
        dec.weight_syndrome_graph({'0': res, '1': {keys[0]: 5}})
        ctx.check(list(res) == list(keep) and all(res[k] is keep[k] for k in keep) or not ctx.sym,
                  'results untouched')
        for a, b in dec.S.edges:
            n = {'00': 0, '01': 0, '10': 0, '11': 0}
            for k, v in res.items():
                ns = nodes_of(k)
                e = str(int(a in ns)) + str(int(b in ns))
                n[e] = n[e] + v
            dist = dec.S.edges[a, b]['distance']
            rs = [n[x] / n[y] for x, y in (('00', '11'), ('11', '00'), ('01', '10'), ('10', '01'))
                  if not isinstance(n[y], int) or n[y] > 0]
            if not ctx.sym and any(r == 0 for r in rs):
                ctx.check(dist == float('inf'), 'no finite distance where a ratio is zero')
                continue
            ctx.eq(dist, -slog(smin(rs)),
                   'distance is minus the log of the smallest ratio of flipped to unflipped')
    return h


def h_unseen(ks):
    """weights from results in which some error never occurs, then decoding"""
    def h(ctx):
        code, dec = decoder(len(ks[0].split(' ')[-1]) + 1, 1)
        n = int(ctx.int('n', 1, 3))
        seen = ctx.pick('seen', ks)
        s = ctx.pick('s', ks)
        dec.matching(s)
        dec.weight_syndrome_graph({'0': {'0 0  ' + ' '.join(['0' * (dec.code.d - 1)] * 2): n, seen: 1}})
        try:
            got = dec.matching(s)
        except (OverflowError, ValueError, ZeroDivisionError, AssertionError) as e:
            ctx.check(False, 'decoding with an error never seen in the calibration: ' +
                      type(e).__name__)
        ctx.check(len(got) == 3, 'decoded')
    return h


S3 = ['0 0  00 00', '1 0  10 00', '0 1  01 00', '1 1  00 00', '1 0  00 10', '0 0  11 00',
      '1 1  10 10', '0 0  10 01', '0 1  11 10']


def h_prob(d, T):
    def h(ctx):
        _, dec = decoder(d, T)
        res = {log: {s: ctx.int('n%s[%s]' % (log, s), 0 if i else 1, 500)
                     for i, s in enumerate(S3)} for log in '01'}
        res['1'].pop(S3[3])
        out = dec.get_logical_prob(res)
        ctx.check(set(out) == {'0', '1'}, 'both logical values')
        for log in '01':
            bad = ssum([v for s, v in res[log].items() if dec.matching(s)[0] != log])
            ctx.eq(out[log] * total(res[log]), bad, 'fraction of shots decoded to the other value')
        one = dec.get_logical_prob({'1': res['1']})
        ctx.check(set(one) == {'1'}, 'only the values given')
    return h


def h_postselect(ctx):
    res = {log: {s: ctx.int('n%s[%s]' % (log, s), 0, 500) for s in S3} for log in '01'}
    if ctx.boolean('drop'):
        res['0'].pop(S3[3])
    ctx.assume(res['0'][S3[0]] >= 1)
    ctx.assume(res['1'][S3[0]] >= 1)
    out = postselection_decoding(res)
    ctx.check(set(out) == {'0', '1'}, 'both logical values')
    for log in '01':
        good = {s: v for s, v in res[log].items() if not [n for n in nodes_of(s) if n[0] == 1]}
        ctx.eq(out[log] * total(good), ssum([v for s, v in good.items() if s[0] != log]),
               'fraction of trivial-syndrome shots with the other value')


def h_lookup(missing):
    def h(ctx):
        ks = S3[:4]
        tr = {log: {s: ctx.int('t%s[%s]' % (log, s), 0, 300) for s in ks} for log in '01'}
        if missing:
            tr['0'].pop(ks[1])
            tr['1'].pop(ks[0])
            tr['1'].pop(ks[2])
        ctx.assume(total(tr['0']) == total(tr['1']))
        re = {log: {s: ctx.int('r%s[%s]' % (log, s), 1 if s == ks[0] else 0, 300) for s in ks}
              for log in '01'}
        unseen = '0 0  01 10'
        re['0'][unseen] = ctx.int('u', 0, 300)
        out = lookuptable_decoding(tr, re)
        ctx.check(set(out) == {'0', '1'}, 'both logical values')
        for log, oth in (('0', '1'), ('1', '0')):
            bad = ssum([ite(tr[oth].get(s, 0) > tr[log].get(s, 0), v, 0) if
                        is_sym(tr[oth].get(s, 0) > tr[log].get(s, 0)) else
                        (v if tr[oth].get(s, 0) > tr[log].get(s, 0) else 0)
                        for s, v in re[log].items()])
            ctx.eq(out[log] * total(re[log]), bad,
                   'fraction of shots likelier under the other value')
    return h


def obligations(tier):
    obs = []
    for d, T, st in ((2, 1, ''), (3, 1, 'barrier'), (3, 2, ''), (3, 3, 'x'), (4, 2, 'x1'),
                     (5, 3, '')):
        obs.append(Obligation('circuit-d%d-T%d%s' % (d, T, st), h_circuit(d, T, st),
                              'distance %d, %d rounds, any flips' % (d, T)))
    obs.append(Obligation('constructor', h_constructor, 'distance 2..5, rounds 0..3'))
    for d, T in ((2, 1), (2, 3), (3, 1), (3, 2), (4, 1)):
        obs.append(Obligation('process-d%d-T%d' % (d, T), h_process(d, T),
                              'every raw string, counts 0..1000'))
    obs.append(Obligation('graph', h_graph, 'distance 2..4, rounds 1..2'))
    for d, T, log in ((3, 1, '0'), (3, 2, '1'), (4, 1, '1'), (5, 1, '0'), (5, 2, '1')):
        obs.append(Obligation('corrects-d%d-T%d-%s' % (d, T, log), h_corrects(d, T, log),
                              'every history of at most (d-1)/2 flips'))
    for d, T, m in ((2, 1, None), (3, 1, None), (3, 2, 4), (4, 1, 4), (5, 1, 2)):
        obs.append(Obligation('minimal-d%d-T%d' % (d, T), h_minimal(d, T, m),
                              'every syndrome%s' % ('' if m is None else ' of at most %d changes' % m)))
    for ed in ((0, 2), (1, 3), (2, 4), (0, 4)):
        obs.append(Obligation('weighted-d2-%d%d' % ed, h_weighted(
            2, 1, ['1 0  1 0', '0 0  1 1', '0 1  0 1'], lambda d, T, es, ed=ed: ed),
            'distances 1/4..4 on two of five edges, distance 2, 1 round'))
    for ed in ((0, 5), (2, 7), (4, 1)):
        obs.append(Obligation('weighted-d3-%d%d' % ed, h_weighted(
            3, 1, ['1 0  10 00', '0 1  00 01', '0 0  11 00', '0 0  10 10', '1 0  11 10'],
            lambda d, T, es, ed=ed: ed),
            'distances 1/4..4 on two edges, distance 3, 1 round'))
    K = ['0 0  0 0', '1 0  1 0', '1 0  0 1', '0 1  1 0', '0 1  0 1', '0 0  1 1', '1 1  0 0',
         '1 1  1 1']
    for sym in ((0,), (1, 4), (2,), (3, 5), (6, 7)):
        obs.append(Obligation('weights-%s' % '-'.join(map(str, sym)), h_weights(K, sym),
                              'one or two outcomes seen 1..1000 times, the others fixed'))
    for drop in ((1,), (2, 5), (3, 4), (1, 2, 3)):
        keys = [k for i, k in enumerate(K) if i not in drop]
        obs.append(Obligation('weights-missing-%s' % '-'.join(map(str, drop)),
                              h_weights(keys, (1, 2)), 'two outcomes seen 1..1000 times, the '
                              'others fixed, some absent'))
    obs.append(Obligation('unseen-d2', h_unseen(K[1:6] + K[7:]), 'errors that never occurred'))
    obs.append(Obligation('unseen-d3', h_unseen(S3[1:]), 'errors that never occurred'))
    obs.append(Obligation('logical-prob', h_prob(3, 1), 'counts 0..500'))
    obs.append(Obligation('postselection', h_postselect, 'counts 0..500'))
    obs.append(Obligation('lookup', h_lookup(False), 'counts 0..300'))
    obs.append(Obligation('lookup-missing', h_lookup(True), 'counts 0..300, strings not trained'))
    if tier == 'thorough':
        obs.append(Obligation('weighted-d2-all', h_weighted(
            2, 1, ['1 0  1 0', '0 0  1 1', '0 1  0 1'], lambda d, T, es: range(len(es))),
            'distances 1/4..4 on every edge', time_limit=3600, max_paths=10 ** 6))
        obs.append(Obligation('minimal-d5-T1-3', h_minimal(5, 1, 3), 'at most 3 changes'))
        obs.append(Obligation('minimal-d4-T2', h_minimal(4, 2, 4), 'at most 4 changes',
                              time_limit=3600))
        obs.append(Obligation('process-d4-T2', h_process(4, 2), 'every raw string'))
    return obs
