"""P13 readout discriminators: training pairs, scaling, filtered counts."""
import contextlib
from fractions import Fraction

import numpy as np
import sklearn.preprocessing
from sklearn.discriminant_analysis import LinearDiscriminantAnalysis, QuadraticDiscriminantAnalysis
from qiskit.exceptions import QiskitError
from qiskit.pulse import Schedule
from qiskit.ignis.measurement.discriminator.iq_discriminators import (
    LinearIQDiscriminator, QuadraticIQDiscriminator, SklearnIQDiscriminator)
from qiskit.ignis.measurement.discriminator.filters import DiscriminationFilter

from checks.lib import *

EXPLANATION = (
    'The discriminators run on real Result objects with symbolic IQ values; the sklearn '
    'classifiers and the scaler are replaced by their contracts (fit records its data, predict '
    'returns a freely chosen label per row, the scaler is an arbitrary affine map per feature). z3 '
    'shows that the training rows are exactly the I and Q values of the masked qubits of each shot '
    'of the chosen schedules, paired with the expected state of that schedule, that '
    'discriminated rows are scaled as the training rows were, and that the counts of every '
    'filtered experiment are those of its own shots.')
OUTSIDE = ('more than 2 qubits, 3 experiments per result, 2 shots per experiment; the '
           'classification quality of sklearn; plots')
ASSUMPTIONS = ['predict returns one of the trained labels per row',
               'StandardScaler is an affine map per feature determined by the data it was fitted on']


class Clf:
    """a classifier by contract"""

    def __init__(self, *a, **k):
        self.fits = []
        self.rows = []
        self.label_of = None

    def fit(self, x, y):
        self.fits.append(([list(r) for r in x], list(y)))
        return self

    def predict(self, x):
        out = []
        for r in x:
            r = list(r)
            self.rows.append(r)
            out.append(self.label_of(r))
        return np.array(out)


LAST = []


def _clf(*a, **k):
    c = Clf()
    LAST.append(c)
    return c


class Scaler:
    """affine map per feature; parameters are symbolic per fit"""
    ctx = None
    made = None

    def __init__(self, *a, **k):
        self.m = self.s = None
        Scaler.made.append(self)
        self.nfit = 0
        self.data = None

    def fit(self, x):
        k = len(Scaler.made)
        x = [list(r) for r in x]
        self.data = x
        self.nfit += 1
        n = len(x[0])
        self.m = [Scaler.ctx.real('sc%d.%d.m%d' % (k, self.nfit, j), -1, 1) for j in range(n)]
        self.s = [Scaler.ctx.real('sc%d.%d.s%d' % (k, self.nfit, j), Fraction(1, 2), 2)
                  for j in range(n)]
        return self

    def transform(self, x):
        return arr([[(v - m) * s for v, m, s in zip(r, self.m, self.s)] for r in x])

    def fit_transform(self, x):
        return self.fit(x).transform(x)


@contextlib.contextmanager
def env(ctx):
    Scaler.ctx, Scaler.made = ctx, []
    del LAST[:]
    with iq_env(ctx), replaced([(LinearDiscriminantAnalysis, _clf),
                                (QuadraticDiscriminantAnalysis, _clf)]), \
            attr_replaced([(sklearn.preprocessing, 'StandardScaler', Scaler)]):
        yield


def make(kind, res, mask, states, std, scheds):
    kw = {}
    if states is not None:
        kw['expected_states'] = states
    if scheds is not None:
        kw['schedules'] = scheds
    if std:
        kw['standardize'] = True
    if kind == 'sklearn':
        c = _clf()
        return SklearnIQDiscriminator(c, res, mask, **kw), c
    d = {'linear': LinearIQDiscriminator, 'quadratic': QuadraticIQDiscriminator}[kind](
        res, mask, **kw)
    if not LAST:
        raise Unsupported('the sklearn classifier was not used')
    return d, LAST[-1]


def mem(ctx, tag, shots, nq=2):
    return [[[ctx.real('%s.%d.%d%s' % (tag, k, q, c), -4, 4) for c in 'iq'] for q in range(nq)]
            for k in range(shots)]


def row(shot, mask):
    return [shot[q][0] for q in mask] + [shot[q][1] for q in mask]


def iq_exp(name, shots, avg=False, n=2):
    return exp_result(name, n, memory=shots[0] if avg else shots, shots=100 if avg else len(shots),
                      meas_level=1, meas_return='avg' if avg else 'single')


MASKS = [[0], [1], [0, 1], [1, 0]]


def same_rows(ctx, got, want, label):
    ctx.check(len(got) == len(want), label + ': number of rows')
    for g, w in zip(got, want):
        ctx.eq(g, w, label)


def _pick_scheds(ctx, names, how):
    if how == 'all':
        return None
    if how == 'names':
        return list(names)
    return [Schedule(name=n) for n in names]


def training(kind, how, avg, std=False):
    """one result with two calibration schedules and another experiment"""
    def h(ctx):
        mask = ctx.pick('mask', MASKS)
        n = len(mask)
        cals = ['cal_' + '0' * n, 'cal_' + '1' * n]
        if how == 'perm':
            cals = cals[::-1]
        exps, data = [], {}
        for nm, sh in ((cals[0], 2), ('other', 1), (cals[1], 1)):
            data[nm] = mem(ctx, nm, 1 if avg else sh)
            exps.append(iq_exp(nm, data[nm], avg))
        given = int(ctx.bit('states'))
        states = ['0' * n, '1' * n] if given else None
        sched = {'perm': 'all'}.get(how, how)
        use = cals
        if sched in ('names', 'objects'):
            use = ctx.pick('use', [[cals[0], cals[1]], [cals[1], cals[0]], [cals[1]]])
            if states is not None:
                states = states[:len(use)]
        if given:
            want_state = dict(zip(use, states))
        else:
            want_state = {nm: nm[4:] for nm in use}
        with env(ctx):
            d, c = make(kind, result(exps), list(mask), states, std,
                        _pick_scheds(ctx, use, sched))
            want = [row(s, mask) for nm in use for s in data[nm]]
            lab = [want_state[nm] for nm in use for s in data[nm]]
            ctx.check(bool(c.fits), 'classifier is trained')
            if not c.fits:
                return
            x, y = c.fits[-1]
            if std:
                sc = Scaler.made
                if not sc:
                    raw = all(a is b for g, w in zip(x, want) for a, b in zip(g, w))
                    ctx.check(not raw, 'training data is standardised')
                    raise Unsupported('the scaler was not used')
                ctx.check(len(sc) == 1, 'one scaler')
                same_rows(ctx, sc[0].data, want, 'scaler is fitted on the training data')
                want = [[(v - m) * s for v, m, s in zip(r, sc[0].m, sc[0].s)] for r in want]
            ctx.check([str(v) for v in y] == lab, 'row labels are the expected states')
            same_rows(ctx, x, want, 'training rows are the shots of the masked qubits')
            ctx.check(d.fitted, 'marked as fitted')
            ctx.check(dict(d.expected_states) == want_state, 'expected states per schedule')
            # other data later, scaled like the training data
            got = [list(r) for r in d.get_xdata(result(exps), 1)]
            w2 = [row(s, mask) for s in data['other']]
            if std:
                sc = Scaler.made[0]
                ctx.check(len(Scaler.made) == 1 and sc.nfit == 1, 'scaler is not refitted')
                w2 = [[(v - m) * s for v, m, s in zip(r, sc.m, sc.s)] for r in w2]
            same_rows(ctx, got, w2, 'rows of the other experiments')
            if len(want_state) == 2:
                yy = d.get_ydata(result(exps), 0)
                ctx.check([str(v) for v in yy] == [want_state[nm] for nm in cals for s in data[nm]],
                          'labels of all calibration shots')
    return h


def several(overlap):
    """calibration schedules spread over several results"""
    def h(ctx):
        mask = ctx.pick('mask', [[0], [1, 0]])
        n = len(mask)
        c0, c1 = 'cal_' + '0' * n, 'cal_' + '1' * n
        d0, d1, d2 = mem(ctx, 'a', 1), mem(ctx, 'b', 2), mem(ctx, 'c', 2)
        res = [result([iq_exp(c0, d0)]), result([iq_exp(c1, d1)])]
        if overlap:
            res.append(result([iq_exp(c0, d2)]))
        with env(ctx):
            kw = [c1, c0]
            d, c = make('sklearn', res, list(mask), None, False, kw)
            ctx.check(bool(c.fits), 'classifier is trained')
            if not c.fits:
                return
            x, y = c.fits[-1]
            ctx.check(len(x) == len(y), 'as many labels as rows')
            ctx.check([str(v) for v in y] == ['1' * n] * 2 + ['0' * n],
                      'row labels are the expected states')
            same_rows(ctx, x, [row(s, mask) for s in d1 + d0],
                      'each schedule is read from the first result that has it')
    return h


def adding(same):
    """add_data extends the training set"""
    def h(ctx):
        mask = ctx.pick('mask', [[0], [1, 0]])
        n = len(mask)
        c0, c1 = 'cal_' + '0' * n, 'cal_' + '1' * n
        d0, d1 = mem(ctx, 'a', 1), mem(ctx, 'b', 1)
        d2, d3 = mem(ctx, 'c', 2), mem(ctx, 'd', 1)
        r1 = result([iq_exp(c0, d0), iq_exp(c1, d1)])
        names = [c0, c1] if same else ['cal_' + '2' * n, 'cal_' + '3' * n]
        states = ['0' * n, '1' * n] if same else ['2' * n, '1' * n]
        r2 = result([iq_exp(names[0], d2), iq_exp(names[1], d3)])
        how = int(ctx.bit('how'))
        with env(ctx):
            d, c = make('sklearn', r1, list(mask), None, False, None)
            nf = len(c.fits)
            if how:
                d.add_data(r2, states)
            else:
                d.add_data(r2, states, refit=False, schedules=list(names))
                ctx.check(len(c.fits) == nf, 'no refit unless asked')
                d.fit()
            ctx.check(bool(c.fits), 'classifier is trained')
            if not c.fits:
                return
            x, y = c.fits[-1]
            rows = [(d0[0], '0' * n), (d1[0], '1' * n), (d2[0], states[0]), (d2[1], states[0]),
                    (d3[0], states[1])]
            ctx.check([str(v) for v in y] == [s for _, s in rows],
                      'training set keeps the old shots and gains the new ones')
            same_rows(ctx, x, [row(s, mask) for s, _ in rows], 'training rows after add_data')
    return h


def _find(ctx, table, r):
    """which shot is this row?"""
    for key, w in table.items():
        if ctx.sym:
            if len(r) == len(w) and all(
                    isinstance(a, SymNum) and isinstance(b, SymNum)
                    and (a - b == 0) is True for a, b in zip(r, w)):
                return key
        elif len(r) == len(w) and all(abs(a - b) < 1e-9 for a, b in zip(r, w)):
            return key
    raise Unsupported('row handed to the classifier is not one of the shots')


def filtered(kind, avg, std, listed=False):
    def h(ctx):
        mask = ctx.pick('mask', [[0], [1, 0]])
        n = len(mask)
        base3 = int(ctx.bit('base3'))
        st = ['0' * n, '12'[base3] * n] if n == 1 else ['0' + '1', '12'[base3] + '0']
        tr = {'cal_' + st[0]: mem(ctx, 'tr0', 1), 'cal_' + st[1]: mem(ctx, 'tr1', 1)}
        names = ['exp0', 'cal_' + st[0], 'exp2']
        shots = {names[0]: mem(ctx, 'x0', 1 if avg else 2), names[1]: mem(ctx, 'x1', 1),
                 names[2]: mem(ctx, 'x2', 1)}
        raw = result([iq_exp(nm, shots[nm], avg) for nm in names])
        pick = {}
        with env(ctx):
            d, c = make(kind, result([iq_exp(nm, v) for nm, v in tr.items()]), list(mask), None,
                        std, None)
            f = DiscriminationFilter(d)
            ctx.check(f.base == (3 if base3 else 2), 'base inferred from the expected states')
            table = {}
            for nm in names:
                for k, s in enumerate(shots[nm]):
                    w = row(s, mask)
                    if std:
                        sc = Scaler.made[-1]
                        w = [(v - m) * q for v, m, q in zip(w, sc.m, sc.s)]
                    table[nm, k] = w
            ws = [shots[nm][k][mask[0]][0] for nm, k in table]
            for i in range(len(ws)):      # rows must be distinguishable
                for j in range(i):
                    ctx.assume(Or(ws[i] - ws[j] >= Fraction(1, 64), ws[j] - ws[i] >= Fraction(1, 64))
                               if ctx.sym else abs(ws[i] - ws[j]) > 1e-3)

            def label_of(r):
                key = _find(ctx, table, r)
                if key not in pick:
                    pick[key] = st[int(ctx.bit('label.%s.%d' % key))]
                return pick[key]
            c.label_of = label_of
            out = f.apply([raw, raw])[1] if listed else f.apply(raw)
        ctx.check([e.header.name for e in out.results] == names, 'experiments kept in order')
        ctx.check([e.meas_level for e in raw.results] == [1, 1, 1], 'the given result is untouched')
        for e in out.results:
            nm = e.header.name
            want = {}
            for k in range(len(shots[nm])):
                if (nm, k) not in pick:
                    ctx.check(False, 'every shot is discriminated')
                    return
                key = hex(int(pick[nm, k], 3 if base3 else 2))
                want[key] = want.get(key, 0) + 1
            got = e.data.counts
            got = dict(got) if isinstance(got, dict) else got.to_dict()
            ctx.check(got == want, 'counts of an experiment are those of its shots')
            ctx.check([str(v) for v in e.data.memory] == [pick[nm, k]
                                                          for k in range(len(shots[nm]))],
                      'memory lists the labels shot by shot')
            ctx.check(e.meas_level == 2, 'level 2 data')
    return h


def bases(ctx):
    s = {}
    top = 0
    for i in range(2):
        a, b = int(ctx.int('a%d' % i, 0, 4)), int(ctx.int('b%d' % i, 0, 4))
        s['k%d' % i] = '%d%d' % (a, b)
        top = max(top, a, b)
    ctx.check(DiscriminationFilter.get_base(s) == top + 1, 'base is the largest level plus one')
    ctx.raises(QiskitError, lambda: DiscriminationFilter.get_base({'a': '0x'}), 'not a state label')


def refused(ctx):
    n = int(ctx.int('n', 0, 3))
    with env(ctx):
        r = result([iq_exp('cal_0', mem(ctx, 'a', 1)), iq_exp('cal_1', mem(ctx, 'b', 1))])
        if n != 2:
            ctx.raises(QiskitError, lambda: make('sklearn', r, [0], ['0'] * n, False, None),
                       'as many expected states as schedules')

    class NoFit:
        def predict(self, x):
            return x
    ctx.raises(QiskitError, lambda: SklearnIQDiscriminator(NoFit(), [], []), 'classifier without fit')


def obligations(tier):
    obs = []
    for kind in ('linear', 'quadratic', 'sklearn'):
        obs.append(Obligation('%s training, all schedules' % kind, training(kind, 'all', False),
                              '2 qubits, masks of 1-2 in both orders, 1-2 shots'))
        obs.append(Obligation('%s training, standardized' % kind,
                              training(kind, 'all', False, True), 'same'))
    obs += [
        Obligation('training, reversed schedules', training('sklearn', 'perm', False), 'same'),
        Obligation('training, schedule names', training('sklearn', 'names', False), 'same'),
        Obligation('training, schedule objects', training('sklearn', 'objects', False), 'same'),
        Obligation('training, averaged data', training('sklearn', 'all', True), 'same, averaged'),
        Obligation('several results', several(False), '2 results'),
        Obligation('several results, overlapping', several(True), '3 results'),
        Obligation('add data, new schedules', adding(False), '1-2 shots'),
        Obligation('add data, same schedules', adding(True), '1-2 shots'),
        Obligation('filter single shots', filtered('sklearn', False, False),
                   '3 experiments, 1-2 shots, base 2 and 3'),
        Obligation('filter linear', filtered('linear', False, False), 'same'),
        Obligation('filter quadratic', filtered('quadratic', False, False), 'same'),
        Obligation('filter standardized', filtered('linear', False, True), 'same'),
        Obligation('filter averaged', filtered('sklearn', True, False), 'same, averaged data'),
        Obligation('filter list of results', filtered('sklearn', False, False, True), 'same'),
        Obligation('base of the states', bases, 'two labels of two digits 0..4'),
        Obligation('invalid input refused', refused, '0..3 expected states'),
    ]
    return obs
