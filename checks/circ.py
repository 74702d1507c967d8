"""independent circuit semantics used as oracles (concrete or symbolic parameters)"""
import contextlib
import math
from fractions import Fraction

import numpy as np
from qiskit.circuit import Gate, Instruction, QuantumCircuit

from pysym import core
from pysym.core import is_sym, SymNum, SymC, And, Or, Not, ite, Unsupported
from pysym.runtime import attr_replaced


def gate_params_symbolic():
    """let qiskit-terra gates carry symbolic numbers as parameters"""
    real = Gate.__dict__['validate_parameter']

    def validate_parameter(self, p):
        if is_sym(p):
            return p
        return real(self, p)
    return attr_replaced([(Gate, 'validate_parameter', validate_parameter)])


def ops(circ):
    """[(name, params, qubit indices, clbit indices, condition, instruction)]"""
    qi = {q: i for i, q in enumerate(circ.qubits)}
    ci = {c: i for i, c in enumerate(circ.clbits)}
    return [(inst.name, list(inst.params), [qi[q] for q in qa], [ci[c] for c in ca],
             inst.condition, inst) for inst, qa, ca in circ.data]


BASE = {'x', 'y', 'z', 'h', 's', 'sdg', 't', 'tdg', 'id', 'u1', 'p', 'rz', 'u2', 'u3', 'u', 'rx',
        'ry', 'cx', 'cz', 'cy', 'swap', 'barrier', 'measure', 'reset', 'unitary', 'sx', 'sxdg',
        'delay', 'cu1', 'ccx', 'r'}


def flat(circ, base=BASE):
    """ops with composite instructions expanded"""
    out = []

    def rec(inst, qs, cs):
        if inst.name in base:
            out.append((inst.name, list(inst.params), qs, cs, inst.condition, inst))
            return
        d = inst.definition
        if d is None:
            raise Unsupported('no definition for %s' % inst.name)
        for name, params, q2, c2, cond, i2 in ops(d):
            rec(i2, [qs[i] for i in q2], [cs[i] for i in c2])
    for name, params, qs, cs, cond, inst in ops(circ):
        rec(inst, qs, cs)
    return out


PI8 = Fraction(math.pi)


def eighths(theta):
    """angle as a multiple of pi/4, reduced modulo 8"""
    k = theta * 4 / math.pi
    if is_sym(k):
        return k
    r = round(k)
    if abs(k - r) > 1e-9:
        raise ValueError('angle is not a multiple of pi/4')
    return r % 8


def mod8(v):
    return v % 8


def run_basis(circ, bits):
    """circuit of x,y,z,s,t,u1,cx,cz,swap,id on |bits>: (phase in Z_8, output bits)

    the phase is exact, including the global phase contributed by y"""
    b = list(bits)
    ph = 0
    for name, params, qs, cs, cond, inst in flat(circ):
        if name == 'x':
            b[qs[0]] = 1 - b[qs[0]]
        elif name == 'y':       # i * (-1)**x |1-x>
            ph = ph + 2 + 4 * b[qs[0]]
            b[qs[0]] = 1 - b[qs[0]]
        elif name in ('z', 's', 't', 'sdg', 'tdg'):
            ph = ph + {'z': 4, 's': 2, 't': 1, 'sdg': 6, 'tdg': 7}[name] * b[qs[0]]
        elif name in ('u1', 'p'):
            ph = ph + eighths(params[0]) * b[qs[0]]
        elif name == 'cx':
            x, y = b[qs[0]], b[qs[1]]
            b[qs[1]] = x + y - 2 * x * y
        elif name == 'cz':
            ph = ph + 4 * b[qs[0]] * b[qs[1]]
        elif name == 'swap':
            b[qs[0]], b[qs[1]] = b[qs[1]], b[qs[0]]
        elif name in ('id', 'barrier'):
            pass
        else:
            raise ValueError('gate %s is outside the group' % name)
    return ph, b


# ------------------------------------------------ density-matrix semantics --
def _snap(z):
    z = complex(z)

    def f(x):
        for d in (1, 2, 3, 4, 6, 8, 16):
            r = round(x * d)
            if abs(x * d - r) < 1e-12:
                return r / d
        return x
    r, i = f(z.real), f(z.imag)
    return r if i == 0 else complex(r, i)


_SUP = {}


def gate_matrix(inst):
    return np.asarray(inst.to_matrix(), dtype=complex)


def superop(u):
    """{(a, b): [(i, j, coefficient)]} with out[a,b] = sum c * rho[i,j]"""
    d = len(u)
    out = {}
    for a in range(d):
        for b in range(d):
            out[a, b] = [(i, j, c) for i in range(d) for j in range(d)
                         for c in [_snap(u[a, i] * np.conj(u[b, j]))] if abs(c) > 1e-14]
    return out


def choi_superop(J, d):
    """of the channel with Choi matrix J = sum |i><j| (x) E(|i><j|)"""
    return {(a, b): [(i, j, J[i * d + a][j * d + b]) for i in range(d) for j in range(d)]
            for a in range(d) for b in range(d)}


def _embed(i, qs, sub):
    for k, q in enumerate(qs):
        i = (i & ~(1 << q)) | (((sub >> k) & 1) << q)
    return i


def _sub(i, qs):
    return sum(((i >> q) & 1) << k for k, q in enumerate(qs))


def apply_superop(rho, n, qs, sup):
    N = 2 ** n
    out = [[0] * N for _ in range(N)]
    for a in range(N):
        for b in range(N):
            acc = 0
            for i, j, c in sup[_sub(a, qs), _sub(b, qs)]:
                v = rho[_embed(a, qs, i)][_embed(b, qs, j)]
                if is_sym(v) or is_sym(c) or (v != 0 and c != 0):
                    acc = acc + (v if not is_sym(c) and c == 1 else c * v)
            out[a][b] = acc
    return out


def density_run(circ, special=None, init=None):
    """run a circuit on density matrices. special: {gate name: superop or
    (kind, data)}; returns {clbit tuple (index order): unnormalised density matrix}"""
    special = special or {}
    n, m = len(circ.qubits), len(circ.clbits)
    N = 2 ** n
    if init is None:
        init = [[1 if i == j == 0 else 0 for j in range(N)] for i in range(N)]
    branches = {(0,) * m: init}
    for name, params, qs, cs, cond, inst in flat(circ, BASE | set(special)):
        if name == 'barrier' or name == 'id':
            continue
        new = {}

        def put(k, r):
            if k in new:
                o = new[k]
                new[k] = [[o[i][j] + r[i][j] for j in range(N)] for i in range(N)]
            else:
                new[k] = r
        for k, rho in branches.items():
            if cond is not None:
                reg, val = cond
                idx = [circ.clbits.index(b) for b in reg]
                if sum(k[i] << t for t, i in enumerate(idx)) != val:
                    put(k, rho)
                    continue
            if name in special:
                put(k, apply_superop(rho, n, qs, special[name]))
            elif name == 'measure':
                for o in (0, 1):
                    r = [[rho[i][j] if (i >> qs[0]) & 1 == o == (j >> qs[0]) & 1 else 0
                          for j in range(N)] for i in range(N)]
                    kk = list(k)
                    kk[cs[0]] = o
                    put(tuple(kk), r)
            elif name == 'reset':
                put(k, apply_superop(rho, n, qs, {(0, 0): [(0, 0, 1), (1, 1, 1)], (0, 1): [],
                                                  (1, 0): [], (1, 1): []}))
            else:
                key = (name, tuple(params)) if not any(
                    isinstance(p, np.ndarray) or is_sym(p) for p in params) else None
                sup = _SUP.get(key) if key else None
                if sup is None:
                    sup = superop(gate_matrix(inst))
                    if key:
                        _SUP[key] = sup
                put(k, apply_superop(rho, n, qs, sup))
        branches = new
    return branches


def trace(rho):
    acc = 0
    for i in range(len(rho)):
        v = rho[i][i]
        acc = acc + (v.real if isinstance(v, (complex, SymC)) else v)
    return acc


def outcome_probs(circ, special=None):
    """{'bitstring': probability}, clbit 0 rightmost, no spaces"""
    out = {}
    for k, r in density_run(circ, special).items():
        out[''.join(str(b) for b in reversed(k))] = trace(r)
    return out


def opaque(name, n):
    """a gate whose meaning only the oracle knows"""
    return Gate(name, n, [])
