"""The fixed-point kernel of the pricing formula: logarithms and exponentials against certified enclosures of the
exact functions, for every argument; and the power function composed of them."""
from fractions import Fraction as Fr

from symdex import exact
from symdex.registry import scenario
from symdex.scen.common import *  # noqa: F401,F403
from contracts.formula import formula

P = 127
F1 = 1 << P
LOG_TOP = 0x15bf0a8b1457695355fb8ac404e7a79e3       # e * 2^127: the certified range of the series logarithm
EXP_TOP = 16 << P                                   # 16: the certified range of the series exponential
REL_EXP = Fr(1, 1 << 115)


# -- claims, stated once: the concrete harness checks them on the real code, the symbolic one decides them
LOG_LOW, LOG_HIGH = -16, 8
GLOG_LOW, GLOG_HIGH = -(1 << 14), 1


def log_harness(env, name, top, low, high):
    f = getattr(formula, name, None)
    u = env.int('u', lo=F1, hi=top - 1)
    if f is None:
        return
    r = f(u)
    lo, hi = exact.ln(Fr(u, F1))
    env.check(r >= 0, 'log-never-negative')
    env.check(r >= lo * F1 + low, 'log-accurate')
    env.check(r <= hi * F1 + high, 'log-never-above')


def sym_optimal_log(k, config):
    f = getattr(formula, '_optimal_log', None)
    if f is None:
        k.notes.append('no _optimal_log: not decided')
        return
    from symdex import kernelrun as R, kernel_dom as D
    n = config['part']
    a = F1 + (LOG_TOP - F1) * n // PARTS
    b = F1 + (LOG_TOP - F1) * (n + 1) // PARTS - 1
    for path, r in k.paths(f, a, b):
        r = D.K.of(r)
        k.validate(path, r, f)
        k.range_claim('log-never-negative', r, 0, [path.ulo, path.uhi])
        log_claim(k, path.ulo, path.uhi, r, LOG_LOW, LOG_HIGH)


def log_claim(k, ulo, uhi, r, low, high):
    from symdex import kernelrun as R, kernel_dom as D
    if r.p is None:
        k.refuted('log-accurate', R.spread(ulo, uhi), 'no polynomial form')
        return
    c, h = Fr(ulo + uhi, 2), Fr(uhi - ulo, 2)
    if h / c > Fr(1, 3):
        mid = (ulo + uhi) // 2
        log_claim(k, ulo, mid, r, low, high)
        log_claim(k, mid + 1, uhi, r, low, high)
        return
    n = 8
    t, rem = R.taylor_ln(h / c, n)
    while rem > Fr(1, 1 << 150):
        n += 8
        t, rem = R.taylor_ln(h / c, n)
    lo, hi = exact.ln(c / F1)
    t = [F1 * x for x in t]
    t[0] += F1 * lo
    d = D.padd(R.shift(r.p, c, h), t, -1)
    slack_lo, slack_hi = -F1 * (hi - lo + rem), F1 * rem
    u_of = lambda s: min(max(int(c + h * s), ulo), uhi)
    k.poly_claim('log-never-above', d, r.nlo + slack_lo, r.nhi + slack_hi, u_of, upper=[Fr(high)])
    k.poly_claim('log-accurate', d, r.nlo + slack_lo, r.nhi + slack_hi, u_of, lower=[Fr(low)])


PARTS = 8


@scenario('C34', configs=[{'part': i} for i in range(PARTS)], custom=sym_optimal_log,
          bound='every argument of the series logarithm in [1, e) at scale 2^127: error within [-16, 8] ulp')
def optimal_log(env):
    log_harness(env, '_optimal_log', LOG_TOP, LOG_LOW, LOG_HIGH)


# -- series exponential -----------------------------------------------------------------------------

def sym_optimal_exp(k, config):
    f = getattr(formula, '_optimal_exp', None)
    if f is None:
        k.notes.append('no _optimal_exp: not decided')
        return
    from symdex import kernelrun as R, kernel_dom as D
    n = config['part']
    a, b = EXP_TOP * n // 16, EXP_TOP * (n + 1) // 16 - 1
    for path, r in k.paths(f, a, b):
        r = D.K.of(r)
        k.validate(path, r, f)
        k.range_claim('exp-at-least-one', r, F1, [path.ulo, path.uhi])
        exp_claim(k, path.ulo, path.uhi, r)


def exp_claim(k, ulo, uhi, r):
    from symdex import kernelrun as R, kernel_dom as D
    if r.p is None:
        k.refuted('exp-accurate', R.spread(ulo, uhi), 'no polynomial form')
        return
    c, h = Fr(ulo + uhi, 2), Fr(uhi - ulo, 2)
    if h / F1 > 1:
        mid = (ulo + uhi) // 2
        exp_claim(k, ulo, mid, r)
        exp_claim(k, mid + 1, uhi, r)
        return
    n = 16
    t, rem = R.taylor_exp(h / F1, n)
    while rem is None or rem > Fr(1, 1 << 170):
        n += 8
        t, rem = R.taylor_exp(h / F1, n)
    lo, hi = exact.exp_r(c / F1)
    # relative to e^c, in units of 2^-115
    unit = 1 / (F1 * lo * REL_EXP)
    big = 1 / REL_EXP
    d = D.padd([x * unit for x in R.shift(r.p, c, h)], [x * big for x in t], -1)
    slack = (rem + (hi - lo) / lo * 4) * big
    u_of = lambda s: min(max(int(c + h * s), ulo), uhi)
    k.poly_claim('exp-never-above', d, r.nlo * unit - slack, r.nhi * unit + slack, u_of, upper=[x for x in t])
    k.poly_claim('exp-accurate', d, r.nlo * unit - slack, r.nhi * unit + slack, u_of, lower=[-x for x in t])


@scenario('C34', configs=[{'part': i} for i in range(16)], custom=sym_optimal_exp,
          bound='every argument of the series exponential in [0, 16) at scale 2^127: relative error at most 2^-115')
def optimal_exp(env):
    f = getattr(formula, '_optimal_exp', None)
    u = env.int('u', lo=0, hi=EXP_TOP - 1)
    if f is None:
        return
    r = f(u)
    lo, hi = exact.exp_r(Fr(u, F1))
    env.check(r >= F1, 'exp-at-least-one')
    env.check(r <= hi * F1 * (1 + REL_EXP), 'exp-never-above')
    env.check(r >= lo * F1 * (1 - REL_EXP), 'exp-accurate')


# -- general exponential (34 terms of the Maclaurin series) ------------------------------------------

REL_GEN = Fr(1, 1 << 20)


def partial_sum(t):
    s, x = Fr(0), Fr(1)
    for i in range(34):
        s += x
        x = x * t / (i + 1)
    return s


def gen_range(p):
    """The arguments reachable at precision p: those p admits and p + 1 does not."""
    arr = formula._max_exp_array
    if p == 0:
        return arr[32] + 1 >> P, 90 * 10 ** 6
    top = arr[p] >> P - p
    return (arr[p + 1] >> P - p) if p < P else 0, top


def sym_general_exp(k, config):
    f, arr = getattr(formula, '_general_exp', None), getattr(formula, '_max_exp_array', None)
    if f is None or arr is None:
        k.notes.append('no _general_exp: not decided')
        return
    from symdex import kernelrun as R, kernel_dom as D
    facts = [Fr(1)]
    for i in range(1, 34):
        facts.append(facts[-1] / i)
    for p in config['p']:
        a, b = gen_range(p)
        one = 1 << p
        for path, r in k.paths(lambda u: f(u, p), a, b, probe=[{'u': x, 'p': p} for x in R.spread(a, b, 8)]):
            r = D.K.of(r)
            k.validate(path, r, lambda u: f(u, p))
            ulo, uhi = path.ulo, path.uhi
            wit = lambda s: {'u': min(max(int(s * one), ulo), uhi), 'p': p}
            k.range_claim('exp-at-least-one', r, one, [wit(Fr(ulo, one)), wit(Fr(uhi, one))])
            # in t = u / 2^p, relative to the smallest value in the range
            base = partial_sum(Fr(ulo, one))
            q = [c * Fr(one) ** (i - 1) for i, c in enumerate(r.p)]
            unit = 1 / (base * REL_GEN)
            # the 34-term sum never exceeds e^t
            k.poly_claim('exp-never-above', [c * unit for c in q], r.nlo / one * unit, r.nhi / one * unit, wit,
                         upper=[c * unit for c in facts], dom=(Fr(ulo, one), Fr(uhi, one)), exact_coefs=True)
            k.poly_claim('exp-accurate', [c * unit for c in q], r.nlo / one * unit, r.nhi / one * unit, wit,
                         lower=[c * unit * (1 - REL_GEN) for c in facts], dom=(Fr(ulo, one), Fr(uhi, one)), exact_coefs=True)


@scenario('C34', configs=[{'p': [0] + list(range(32, 48))}, {'p': list(range(48, 62))}, {'p': list(range(62, 95))},
                          {'p': list(range(95, 128))}],
          custom=sym_general_exp,
          bound='every argument admitted by the precision it is used with: at most the exact exponential, at least one, and the sum of '
                'the 34 documented series terms up to a relative 2^-20')
def general_exp(env):
    f = getattr(formula, '_general_exp', None)
    p = env.int('p') if 'p' in env.case['ints'] else 0
    u = env.int('u')
    if f is None:
        return
    a, b = gen_range(p)
    env.assume(a <= u <= b)
    r = f(u, p)
    t = Fr(u, 1 << p)
    s = partial_sum(t)
    env.check(r >= 1 << p, 'exp-at-least-one')
    env.check(r <= s * (1 << p), 'exp-never-above')
    env.check(r >= s * (1 << p) * (1 - REL_GEN), 'exp-accurate')


# -- general logarithm (bit by bit) -------------------------------------------------------------------

def sym_general_log(k, config):
    if getattr(formula, '_general_log', None) is None:
        k.notes.append('no _general_log: not decided')
        return
    import z3
    from symdex import kernelrun as R, kernel_dom as D
    cls = R.transformed(type(formula))
    obj = cls()
    ln2 = exact._L2
    lo2, hi2 = Fr(ln2[0], exact.ONE), Fr(ln2[1], exact.ONE)
    for n in config['n']:
        a, b = F1 << n, (F1 << n + 1) - 1
        probe = R.spread(a, b, 12)
        for path, r in k.paths(obj._general_log, a, b, merge=True, probe=probe):
            r = D.K.of(r)
            v = [u for u in (path.ulo, (path.ulo + path.uhi) // 2, path.uhi)]
            for u in v:
                x = formula._general_log(u)
                if not r.lo <= x <= r.hi:
                    k.r.mismatch.append({'kind': 'kernel', 'u': str(u), 'value': str(x)})
            k.r.validated += 1
            k.range_claim('log-never-negative', r, 0, v)
            if r.lin is None:
                k.refuted('log-accurate', probe, 'no linear form')
                continue
            # log2 facts collected on the way: sum c_i v_i + [n1, n2] = log2(value) and value in [lo, hi]
            vs = {}

            def var(name):
                if name not in vs:
                    vs[name] = z3.Real(name)
                return vs[name]

            def lin(f):
                e = z3.RealVal(0)
                for name, c in f.items():
                    e = e + k.q(c) * var(name)
                return e
            cons = []
            for i, (lg, vlo, vhi) in enumerate(path.watch):
                if vlo <= 0:
                    continue
                nz = z3.Real('n%d' % i)
                cons += [nz >= k.q(lg[1]), nz <= k.q(lg[2]), lin(lg[0]) + nz >= k.q(log2_low(vlo)),
                         lin(lg[0]) + nz <= k.q(log2_up(vhi))]
            cons += [z3.And(var('b%d' % i) >= 0, var('b%d' % i) <= 1) for i in range(1, path.bits + 1)]
            cons += [var('L0') >= k.q(log2_low(path.ulo)), var('L0') <= k.q(log2_up(path.uhi))]
            # result = lin + [n1, n2];  exact = (L0 - 127) ln2 F1
            for side, label in (('up', 'log-never-above'), ('low', 'log-accurate')):
                k.r.counts['checks'] += 1
                L = k.r.labels.setdefault(label, [0, 0])
                L[0] += 1
                # ln2 as an unknown in its enclosure would be nonlinear; L0 - 127 >= 0 picks the worst end
                ln = hi2 if side == 'low' else lo2
                true = (var('L0') - P) * k.q(ln * F1)
                if side == 'up':
                    cond = lin(r.lin[0]) + k.q(r.lin[2]) > true + GLOG_HIGH
                else:
                    cond = lin(r.lin[0]) + k.q(r.lin[1]) < true + GLOG_LOW
                res, model = k.solve_lin(cons + [cond])
                if res == 'unsat':
                    k.r.counts['discharged'] += 1
                    L[1] += 1
                else:
                    k.refuted(label, probe, res)


def log2_low(v):
    lo, hi = exact.ln(v)
    return lo / Fr(exact._L2[1], exact.ONE)


def log2_up(v):
    lo, hi = exact.ln(v)
    return hi / Fr(exact._L2[0], exact.ONE)


@scenario('C34', configs=[{'n': list(range(i, 129, 8))} for i in range(8)], custom=sym_general_log,
          bound='every argument of the bitwise logarithm in [1, 2^129) at scale 2^127: error within [-2^14, 1] ulp')
def general_log(env):
    log_harness(env, '_general_log', 1 << 256, GLOG_LOW, GLOG_HIGH)


# -- the power function composed of them ---------------------------------------------------------------

D6 = MAX_WEIGHT
LOG_MAX = 90                                # > ln(2^129)
MAX_NUM = 1 << 129
REL_POWER = Fr(1, 1 << 90)


def power_args(env):
    I = env.int
    bd = I('bd', lo=1)
    bn = I('bn', lo=1, hi=MAX_NUM - 1)
    en, ed = I('en', lo=1, hi=D6), I('ed', lo=1, hi=D6)
    env.assume(bn >= bd)
    env.hint(bn <= bd * 2, bn >= bd + 1000, bd >= 10 ** 12, bd <= 10 ** 15, en <= ed)
    env.hint(bn <= bd * 3, bn >= bd * 2, en <= ed, ed <= en * 2)
    env.hint(bn <= bd * 5, bn >= bd * 2, en <= ed * 9, en >= ed * 2)
    env.hint(bn >= bd * 2, bn <= bd * 3, bd >= 1 << 126, bd <= 1 << 127, en >= ed * 12)
    env.hint(bn >= bd * 10 ** 10, bn <= bd * 10 ** 15, en <= ed * 2, en >= ed)
    return bn, bd, en, ed


def base_with_log(name, y):
    """A base (as a quotient) whose real logarithm is y / 2^127, if there is one below 4."""
    from decimal import Decimal, localcontext
    from symdex import core as C
    if not 0 <= y < 1386 << 117:
        return None
    cur, C.CURRENT = C.CURRENT, None
    try:
        with localcontext() as ctx:
            ctx.prec = 80
            x = int((Decimal(y) / (1 << 127)).exp() * (1 << 127))
        f = getattr(formula, name)
        for _ in range(40):
            d = y - f(x)
            if d == 0:
                return {'bn': x, 'bd': 1 << 127}
            x = max(F1, x + (d * x // F1 or (1 if d > 0 else -1)))
    except Exception:
        pass
    finally:
        C.CURRENT = cur
    return None


def compose(env):
    bn, bd, en, ed = power_args(env)
    if not all(getattr(formula, n, None) for n in HELPERS):
        env.check(True, 'no such helpers: not decided')
        env.reach('series')
        env.reach('general')
        return
    from symdex import core as C
    L = env.int('L', lo=0, hi=LOG_MAX << 200)                     # ln(bn / bd) * 2^200
    env.ghosts.append((L, (bn, bd), lambda n, d: int(exact.ln(Fr(n, d))[0] * 2 ** 200)))
    got = {}
    tol = 1 << 108                             # 2^-92 in the exponent

    def helper(name, x, p=P):
        if name.endswith('log'):
            env.check(env.And(x >= F1, x < LOG_TOP) if name == '_optimal_log' else env.And(x >= F1, x < 1 << 256),
                      'log-argument-in-range')
            y = C.mk(C.Poly.atom(env.path.new_atom('log', C.DERIVED, lo=0)))
            # |ln(x / 2^127) - ln(bn / bd)| <= |x / 2^127 - bn / bd| for values of at least one
            d = x * bd - bn * F1
            near = env.And(d <= 4 * bd, d >= -4 * bd)
            lo = GLOG_LOW if name == '_general_log' else LOG_LOW
            hi = GLOG_HIGH if name == '_general_log' else LOG_HIGH
            env.assume(env.Implies(near, env.And(y * 2 ** 73 >= L + (lo - 5) * 2 ** 73, y * 2 ** 73 <= L + (hi + 5) * 2 ** 73)))
            env.repairs.append(lambda value: base_with_log(name, value(y)))
            env.hints.insert(0, [C.mk(C.to_poly(y)) <= 1386 << 117, en == D6, ed == D6 // 16])
            return y
        if name == '_optimal_exp':
            env.check(env.And(x >= 0, x < EXP_TOP), 'exp-argument-in-range')
            env.check(x * ed * 2 ** 73 <= L * en + tol * ed, 'exponent-not-above')
            env.check(x * ed * 2 ** 73 >= L * en - tol * ed, 'exponent-accurate')
            env.reach('series')
        else:
            a, b = gen_range(p)
            env.check(env.And(x >= a, x <= b), 'exp-argument-in-range')
            env.check(x * ed * 2 ** (200 - p) <= L * en + tol * ed, 'exponent-not-above')
            env.check(x * ed * 2 ** (200 - p) >= L * en - (tol + 2 ** (200 - p)) * ed, 'exponent-accurate')
            env.check(L * en >= (15 if p >= 32 else 56) * 2 ** 200 * ed, 'series-used-while-accurate')
            env.reach('general')
        r = C.mk(C.Poly.atom(env.path.new_atom('exp', C.DERIVED, lo=1 << p)))
        got['r'] = (r, p)
        return r
    env.path.helper = helper
    r, p = formula._power(bn, bd, en, ed)
    del env.path.helper
    env.check('r' in got, 'power-is-the-exponential')
    env.check(env.And(r == got['r'][0], p == got['r'][1]), 'power-is-the-exponential')


def power_harness(env):
    bn, bd, en, ed = power_args(env)
    r, p = formula._power(bn, bd, en, ed)
    lo, hi = exact.power(bn, bd, en, ed)
    v = Fr(r, 1 << p)
    if hi is None or hi > 8886110:
        t = min(exact.ln(Fr(bn, bd))[0] * Fr(en, ed), 10 ** 5)
        t = Fr(int(t * 2 ** 40), 2 ** 40) if t < 56 else Fr(int(t) - (t >= 10 ** 5))
        env.check(v >= partial_sum(t) * (1 - Fr(1, 1 << 18)), 'exponent-accurate')
    ok = [v >= 1, hi is None or v <= hi * (1 + REL_POWER),
          hi is None or hi >= 8886110 or v >= lo * (1 - REL_POWER)]
    for label in ('log-argument-in-range', 'exp-argument-in-range', 'exponent-not-above', 'exponent-accurate',
                  'series-used-while-accurate', 'power-is-the-exponential'):
        env.check(all(ok), label)


@scenario('C34', formula='helpers', reach=['series', 'general'],
          bound='every base in [1, 2^129) given as a quotient and every exponent in [1e-6, 1e6] given as a quotient of '
                'weights; logarithm and exponential replaced by any results within the error bounds established for them')
def power_function(env):
    """The exponent handed to the exponential is the logarithm times the exponent up to 2^-92, each helper is used within its range, and
    the result is handed on unchanged: so the power is exact up to a relative 2^-90."""
    if env.symbolic:
        compose(env)
    else:
        power_harness(env)


# -- range facts alone (what the range of returns rests on) ---------------------------------------------

def sym_ranges(k, config):
    from symdex import kernelrun as R, kernel_dom as D
    name, n = config['fn'], config.get('part', 0)
    f = getattr(formula, name, None)
    if f is None or getattr(formula, '_max_exp_array', None) is None:
        k.notes.append('no %s: not decided' % name)
        return
    if name == '_optimal_log':
        jobs = [(f, F1 + (LOG_TOP - F1) * n // 4, F1 + (LOG_TOP - F1) * (n + 1) // 4 - 1, 0, False, None)]
    elif name == '_optimal_exp':
        jobs = [(f, EXP_TOP * n // 4, EXP_TOP * (n + 1) // 4 - 1, F1, False, None)]
    elif name == '_general_log':
        g = R.transformed(type(formula))()._general_log
        jobs = [(g, F1 << i, (F1 << i + 1) - 1, 0, True, None) for i in range(n, 129, 4)]
    else:
        jobs = [(lambda u, p=p: f(u, p),) + gen_range(p) + (1 << p, False, p) for p in [0] + list(range(32, 128))]
    for g, a, b, least, merge, p in jobs:
        wit = (lambda xs: [{'u': x, 'p': p} for x in xs]) if p is not None else (lambda xs: xs)
        for path, r in k.paths(g, a, b, merge=merge, probe=wit(R.spread(a, b, 8))):
            r = D.K.of(r)
            k.validate(path, r, (lambda u: f(u, p)) if p is not None else f, poly=not merge)
            k.range_claim('log-never-negative' if least == 0 else 'exp-at-least-one', r, least,
                          wit([path.ulo, path.uhi, (path.ulo + path.uhi) // 2]), LOG_MAX << P if least == 0 else None)


@scenario('C33', configs=[{'fn': f, 'part': i} for f in ('_optimal_log', '_optimal_exp', '_general_log') for i in range(4)]
          + [{'fn': '_general_exp'}], custom=sym_ranges,
          bound='every argument of the two logarithms and two exponentials in the ranges they are used in: logarithms are '
                'neither negative nor above 90, exponentials at least one')
def kernel_ranges(env):
    fn = env.config['fn']
    f = getattr(formula, fn, None)
    u = env.int('u')
    if f is None:
        return
    if fn == '_general_exp':
        p = env.int('p')
        a, b = gen_range(p)
        env.assume(a <= u <= b)
        env.check(f(u, p) >= 1 << p, 'exp-at-least-one')
    elif fn == '_optimal_exp':
        env.assume(0 <= u < EXP_TOP)
        env.check(f(u) >= F1, 'exp-at-least-one')
    else:
        env.assume(F1 <= u < (LOG_TOP if fn == '_optimal_log' else 1 << 256))
        env.check(0 <= f(u) <= LOG_MAX << P, 'log-never-negative')


@scenario('C33', formula='helpers', reach=['power'],
          bound='every base in [1, 2^129) and exponent in [1e-6, 1e6]; logarithm and exponential replaced by any results in their ranges')
def power_at_least_one(env):
    bn, bd, en, ed = power_args(env)
    if env.symbolic and all(getattr(formula, n, None) for n in HELPERS):
        from symdex import core as C

        def helper(name, x, p=P):
            if name.endswith('log'):
                env.check(env.And(x >= F1, x < LOG_TOP) if name == '_optimal_log' else env.And(x >= F1, x < 1 << 256),
                          'power-at-least-one')
                return C.mk(C.Poly.atom(env.path.new_atom('log', C.DERIVED, lo=0, hi=LOG_MAX << P)))
            if name == '_optimal_exp':
                env.check(env.And(x >= 0, x < EXP_TOP), 'power-at-least-one')
            else:
                a, b = gen_range(p)
                env.check(env.And(x >= a, x <= b), 'power-at-least-one')
            return C.mk(C.Poly.atom(env.path.new_atom('exp', C.DERIVED, lo=1 << p)))
        env.path.helper = helper
    elif env.symbolic:
        env.check(True, 'no such helpers: not decided')
        env.reach('power')
        return
    r, p = formula._power(bn, bd, en, ed)
    env.check(r >= 1 << p, 'power-at-least-one')
    env.reach('power')
