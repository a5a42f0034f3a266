"""Runs a scenario over the fixed-point kernel: the real logarithm / exponential is executed on symbolic integers
(kernel_dom), each path yields enclosures of its result, and z3 decides whether a claimed bound can be missed."""
import sys
import time
import traceback
from fractions import Fraction as Fr

import z3

from . import core as C, exact, kernel_dom as D

COEF = (3, 10, 24)  # polynomial coefficients are rounded to 2^-COEF (coarse first), the error goes into the noise


sys.set_int_max_str_digits(0)


class Done(Exception):
    pass


def taylor_exp(h, n):
    """coefficients of e^(h s) in s up to degree n, and a bound on the remainder for |s| <= 1"""
    out, t = [], Fr(1)
    for k in range(n + 1):
        out.append(t)
        t = t * h / (k + 1)
    h = abs(h)
    rem = abs(t) * 2 if h < Fr(n) / 2 else None
    return out, rem


def taylor_ln(r, n):
    """coefficients of ln(1 + r s) up to degree n and the remainder bound"""
    out, t = [Fr(0)], Fr(1)
    for k in range(1, n + 1):
        t = t * r
        out.append(t / k if k % 2 else -t / k)
    r = abs(r)
    rem = r ** (n + 1) / (n + 1) / (1 - r)
    return out, rem


def shift(p, c, h):
    """P(c + h s) as a polynomial in s"""
    out = [Fr(0)]
    for a in reversed(p):
        out = D.pmul(out, [c, h])
        out[0] += a
    return out


class Kernel:
    def __init__(self, runner):
        self.r = runner
        self.notes = []
        self.bad = 0

    # -- obligations
    def range_claim(self, label, r, least, replay=(), most=None):
        self.r.counts['checks'] += 1
        L = self.r.labels.setdefault(label, [0, 0])
        L[0] += 1
        v = z3.Int('v')
        got = self.solve_lin([v >= r.lo, v <= r.hi, v < least if most is None else z3.Or(v < least, v > most)], 'QF_LIA')[0]
        if got == 'unsat':
            self.r.counts['discharged'] += 1
            L[1] += 1
        else:
            self.refuted(label, replay, got)

    def poly_claim(self, label, p, lo, hi, u_of, upper=None, lower=None, dom=(-1, 1), exact_coefs=False):
        """For all s in dom and n in [lo, hi]:  p(s) + n <= upper(s)  and  >= lower(s)   (upper / lower: polynomials)"""
        self.r.counts['checks'] += 1
        L = self.r.labels.setdefault(label, [0, 0])
        L[0] += 1
        s = z3.Real('s')
        m = max(abs(dom[0]), abs(dom[1]))

        def expr(q, extra, coef):
            if exact_coefs:
                e = None
                for c in reversed(q):
                    e = self.q(c) if e is None else e * s + self.q(c)
                return e + self.q(extra), Fr(0)
            err, e = Fr(0), None
            scale = 1 << coef
            for k in reversed(range(len(q))):
                c = q[k] * scale
                ci = int(c) if c.denominator == 1 else round(c)
                err += abs(c - ci) * m ** k
                t = z3.RealVal(ci)
                e = t if e is None else e * s + t
            ex = extra * scale
            return e + z3.RealVal(str(ex.numerator)) / z3.RealVal(str(ex.denominator)) if ex else e, err

        for side in ('up', 'low'):
            if (upper if side == 'up' else lower) is None:
                continue
            q = D.padd(p, upper, -1) if side == 'up' else D.padd(lower, p, -1)
            for coef in COEF:
                e, err = expr(q, Fr(hi) if side == 'up' else -Fr(lo), coef)
                r, model = self.solve([s >= self.q(Fr(dom[0])), s <= self.q(Fr(dom[1])), e + self.q(err) > 0])
                if r == 'unsat' or exact_coefs:
                    break
            if r == 'unsat':
                continue
            pts = list(dom) + [Fr(sum(dom)) / 2]
            if model is not None:
                v = model.eval(s, model_completion=True)
                if z3.is_algebraic_value(v):
                    v = v.approx(60)
                pts.insert(0, Fr(v.numerator_as_long(), v.denominator_as_long()))
            pts += [Fr(dom[0]) + (Fr(dom[1]) - dom[0]) * k / 7 for k in range(1, 7)]
            self.refuted(label, [u_of(t) for t in pts], r)
            return
        self.r.counts['discharged'] += 1
        L[1] += 1

    @staticmethod
    def q(f):
        f = Fr(f)
        return z3.RealVal(str(f.numerator)) / z3.RealVal(str(f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)

    def solve(self, conds):
        st = self.r.engine.stats
        s = z3.SolverFor('QF_NRA')
        s.set('timeout', 20000)
        s.add(*conds)
        t = time.time()
        r = s.check()
        st.queries += 1
        st.solver_s += time.time() - t
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat:
            return 'sat', s.model()
        return 'unknown', None

    def solve_lin(self, conds, logic='QF_LRA'):
        st = self.r.engine.stats
        s = z3.SolverFor(logic)
        s.set('timeout', 20000)
        s.add(*conds)
        t = time.time()
        r = s.check()
        st.queries += 1
        st.solver_s += time.time() - t
        return ('unsat', None) if r == z3.unsat else ('sat', s.model()) if r == z3.sat else ('unknown', None)

    def refuted(self, label, inputs, why='sat'):
        """The bound may be missed: run the real code on candidate inputs."""
        seen = set()
        for u in inputs:
            for case in self.cases(u):
                k = str(case)
                if k in seen:
                    continue
                seen.add(k)
                r = self.r.rep.run(self.r.sc.name, self.r.config, case)
                if r['status'] == 'failed':
                    self.r.report(r, case)
        self.r.inconclusive.append({'label': label, 'why': 'bound not established (%s), no concrete input misses it: %s'
                                    % (why, [str(u) for u in inputs][:4])})
        self.bad += 1
        if self.bad > 6:
            raise Done()

    @staticmethod
    def cases(u):
        if isinstance(u, dict):
            return [{'ints': {k: str(v) for k, v in u.items()}, 'bools': {}, 'addrs': {}, 'strs': {}, 'choices': {}}]
        return [{'ints': {'u': str(u)}, 'bools': {}, 'addrs': {}, 'strs': {}, 'choices': {}}]

    # -- exploration
    def paths(self, fn, lo, hi, merge=False, probe=None):
        """Runs fn on every path over u in [lo, hi]; yields (path, result)."""
        try:
            for p, res in D.explore(fn, lo, hi, merge):
                self.r.counts['paths'] += 1
                if time.time() > (self.r.engine.deadline or 1e18):
                    raise C.Budget('out of time')
                yield p, res
        except C.Unsupported as e:
            tb = traceback.format_exc()[-900:]
            self.refuted('path', probe or spread(lo, hi), 'not encodable: %s %s' % (e, tb))
        except Exception as e:
            tb = traceback.format_exc()[-900:]
            self.refuted('path', probe or spread(lo, hi), 'raised: %s %s' % (e, tb))

    def validate(self, path, res, concrete, poly=True):
        """The enclosure of this path must contain what the real function computes there."""
        if self.r.validated >= 60:
            return
        w = path.uhi - path.ulo       # (the ends may belong to a neighbouring path: the range is an over-approximation)
        for u in (path.ulo + w // 2, path.ulo + w // 4, path.ulo + w * 3 // 4):
            v = concrete(u)
            k = D.K.of(res)
            ok = k.lo <= v <= k.hi
            if ok and poly and k.p is not None:
                x = Fr(0)
                for c in reversed(k.p):
                    x = x * u + c
                ok = k.nlo <= v - x <= k.nhi
            if not ok:
                self.r.mismatch.append({'kind': 'kernel', 'u': str(u), 'value': str(v), 'range': [str(k.lo), str(k.hi)]})
                return
        self.r.validated += 1


def spread(lo, hi, n=24):
    out = {lo, hi, (lo + hi) // 2}
    for k in range(n):
        out.add(lo + (hi - lo) * k // n)
    w = hi - lo
    while w > 0:
        w >>= 5
        out.add(lo + w)
        out.add(hi - w)
    return sorted(out)


def transformed(cls, extra=()):
    """The class that defines cls's code, recompiled with mergeable ifs."""
    import ast
    import inspect
    import sys
    import builtins
    import types
    D.install(builtins)
    mod = sys.modules[cls.__module__]
    src = open(inspect.getsourcefile(cls)).read()
    tree = D.if_convert(ast.parse(src))
    ast.fix_missing_locations(tree)
    m = types.ModuleType(mod.__name__ + '__merged')
    m.__package__ = mod.__package__
    m.__file__ = mod.__file__
    exec(compile(tree, mod.__file__, 'exec'), m.__dict__)
    return getattr(m, cls.__name__)


def run(runner):
    k = Kernel(runner)
    err = None
    try:
        runner.sc.custom(k, runner.config)
    except (Done,):
        pass
    except C.EngineSignal as e:
        if type(e).__name__ != 'Stop':
            err = '%s: %s' % (type(e).__name__, e)
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        err = 'internal: %s\n%s' % (e, traceback.format_exc()[-2500:])
    return err, k.notes
