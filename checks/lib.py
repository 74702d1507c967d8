"""helpers shared by the harnesses (work in symbolic and in concrete mode)"""
import itertools
import math

import numpy as np
from qiskit.result import Result
import qiskit.result.postprocess as postprocess
from qiskit.result.models import ExperimentResult, ExperimentResultData
from qiskit.qobj import QobjExperimentHeader

from pysym import core, nparr
from pysym.core import is_sym, SymNum, SymBool, And, Or, Not, Implies, ite, Unsupported
from pysym.runtime import Obligation, replaced, attr_replaced, close


def ssqrt(x):
    return core.sym_sqrt(x) if isinstance(x, SymNum) else math.sqrt(x)


def sexp(x):
    return core.sym_fun('exp', x) if isinstance(x, SymNum) else math.exp(x)


def slog(x):
    return core.sym_fun('log', x) if isinstance(x, SymNum) else math.log(x)


def b2i(c):
    return core.bool_to_int(c) if isinstance(c, SymBool) else int(bool(c))


def arr(x):
    """array from nested lists, symbolic or not"""
    if nparr.has_sym(x):
        return nparr.to_obj(x)
    return np.array(x)


def sabs(x):
    return abs(x)


def smax(xs):
    acc = xs[0]
    for v in xs[1:]:
        acc = ite(acc >= v, acc, v)
    return acc


def smin(xs):
    acc = xs[0]
    for v in xs[1:]:
        acc = ite(acc <= v, acc, v)
    return acc


def ssum(xs):
    acc = 0
    for v in xs:
        acc = acc + v
    return acc


def sort_net(xs):
    row = list(xs)
    for i in range(len(row)):
        for j in range(len(row) - 1 - i):
            a, b = row[j], row[j + 1]
            c = a <= b
            row[j], row[j + 1] = ite(c, a, b), ite(c, b, a)
    return row


def bitstrings(n):
    return [format(i, '0%db' % n) for i in range(2 ** n)]


def exp_result(name, n, counts=None, statevector=None, memory=None, shots=None,
               creg_sizes=None, meas_level=2, meas_return=None, memory_slots=None, **hdr):
    """one experiment of a real qiskit Result; counts keyed by bitstrings"""
    creg_sizes = creg_sizes or [['c', n]]
    header = QobjExperimentHeader(name=name, memory_slots=memory_slots or n,
                                  creg_sizes=creg_sizes, qreg_sizes=[['q', n]],
                                  n_qubits=n, **hdr)
    d = {}
    if counts is not None:
        d['counts'] = {hex(int(k.replace(' ', ''), 2)): v for k, v in counts.items()}
    if statevector is not None:
        d['statevector'] = statevector
    if memory is not None:
        d['memory'] = memory
    if shots is None:
        shots = 1024
    kw = {}
    if meas_return is not None:
        kw['meas_return'] = meas_return
    return ExperimentResult(shots=shots, success=True, data=ExperimentResultData(**d),
                            header=header, meas_level=meas_level, **kw)


def result(exps):
    return Result('b', '1', 'q', 'j', True, list(exps))


def sym_counts(ctx, tag, n, hi=1000, keys=None):
    """bitstring -> symbolic count in 0..hi"""
    return {k: ctx.int('%s[%s]' % (tag, k), 0, hi) for k in (keys or bitstrings(n))}


def total(counts):
    return ssum(counts.values())


def _complex_list(lst):
    if not nparr.has_sym(lst):
        a = np.asarray(lst, dtype=complex)
        return a[..., 0] + 1j * a[..., 1]
    a = nparr.to_obj(lst)
    return nparr.wrap(a[..., 0] + 1j * a[..., 1])


def iq_env(ctx):
    return replaced([(postprocess._list_to_complex_array, _complex_list)] if ctx.sym else [])
