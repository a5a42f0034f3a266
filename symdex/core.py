"""Symbolic execution core: symbolic values that flow through the real contract code, and the solver.

Integers are kept as canonical multivariate polynomials with integer coefficients over "atoms"
(symbolic inputs, floor-division quotients, if-then-else results, uninterpreted results).  Products of
atoms are monomials; towards the solver a monomial of degree >= 2 is an integer variable constrained by
sound lemmas (the linear abstraction), and, when the abstraction cannot decide, by its exact definition.

A branch on a symbolic condition forks the execution: the harness is re-executed once per feasible
decision sequence (depth first).  `unknown` is never read as "holds".
"""
import subprocess
import time

import z3

# ----------------------------------------------------------------------------------------------
# control flow of the engine; BaseException so that `except Exception` in contract code does not
# swallow it


class EngineSignal(BaseException):
    pass


class PathPruned(EngineSignal):
    """The current path is infeasible or left out by an assumption."""


class Unsupported(EngineSignal):
    """The code under test did something the encoding does not model."""


class Budget(EngineSignal):
    """Time or path budget exhausted."""


# ----------------------------------------------------------------------------------------------

def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    return tuple(sorted(a + b))


class Poly:
    __slots__ = ('terms', '_key', '_hash')

    def __init__(self, terms):
        self.terms = terms
        self._key = None
        self._hash = None

    @staticmethod
    def const(c):
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(i):
        return Poly({(i,): 1})

    @property
    def key(self):
        if self._key is None:
            self._key = frozenset(self.terms.items())
            self._hash = hash(self._key)
        return self._key

    def __hash__(self):
        self.key
        return self._hash

    def __eq__(self, other):
        return isinstance(other, Poly) and self.key == other.key

    def is_const(self):
        t = self.terms
        return not t or (len(t) == 1 and () in t)

    def cval(self):
        return self.terms.get((), 0)

    def add(self, o, k=1):
        t = dict(self.terms)
        for m, c in o.terms.items():
            n = t.get(m, 0) + k * c
            if n:
                t[m] = n
            else:
                t.pop(m, None)
        return Poly(t)

    def scale(self, k):
        if k == 0:
            return Poly({})
        return Poly({m: c * k for m, c in self.terms.items()})

    def mul(self, o):
        t = {}
        for m1, c1 in self.terms.items():
            for m2, c2 in o.terms.items():
                m = _mono_mul(m1, m2)
                n = t.get(m, 0) + c1 * c2
                if n:
                    t[m] = n
                else:
                    t.pop(m, None)
        return Poly(t)

    def atoms(self):
        s = set()
        for m in self.terms:
            s.update(m)
        return s

    def degree(self):
        return max((len(m) for m in self.terms), default=0)

    def eval(self, val):
        r = 0
        for m, c in self.terms.items():
            p = c
            for a in m:
                p *= val(a)
            r += p
        return r


ZERO_P = Poly({})
ONE_P = Poly({(): 1})

INPUT, DERIVED = 0, 1


class AtomInfo:
    __slots__ = ('idx', 'name', 'kind', 'var', 'lo', 'hi', 'defn')

    def __init__(self, idx, name, kind, var, lo, hi, defn=None):
        self.idx, self.name, self.kind, self.var, self.lo, self.hi, self.defn = idx, name, kind, var, lo, hi, defn


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.nonlinear = 0
        self.unknown = 0
        self.external = 0

    def as_dict(self):
        return {'queries': self.queries, 'solver_s': round(self.solver_s, 3), 'nonlinear_queries': self.nonlinear,
                'unknown': self.unknown, 'cvc5_queries': self.external}


CURRENT = None  # the Path being executed


class Path:
    """One execution of the harness along one decision sequence."""

    def __init__(self, engine, prefix):
        self.engine = engine
        self.prefix = prefix
        self.trace = []
        self.atoms = []
        self.by_name = {}
        self.mono_vars = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', engine.linear_timeout_ms)
        self.solver.set('random_seed', engine.seed)
        self.decided = {}
        self.keep = []
        self.divs = {}
        self.ites = {}
        self.ufs = {}
        self.uf_defs = []
        self.cons = []
        self.bool_inputs = {}
        self.choices = []
        self.z3cache = {}
        self.fresh = 0

    # -- atoms and terms ------------------------------------------------------------------
    def new_atom(self, name, kind, lo=None, hi=None, defn=None):
        i = len(self.atoms)
        v = z3.Int('%s!%d' % (name, i))
        self.atoms.append(AtomInfo(i, name, kind, v, lo, hi, defn))
        if lo is not None:
            self._assert(v >= lo)
        if hi is not None:
            self._assert(v <= hi)
        return i

    def _assert(self, e):
        self.cons.append(e)
        self.solver.add(e)

    def mono(self, m):
        """z3 term of a monomial in the linear abstraction."""
        if len(m) == 1:
            return self.atoms[m[0]].var
        v = self.mono_vars.get(m)
        if v is None:
            v = z3.Int('mono!' + '_'.join(map(str, m)))
            self.mono_vars[m] = v
            self._mono_lemmas(m, v)
        return v

    def _mono_lemmas(self, m, v):
        seen = set()
        for k in range(len(m)):
            a = m[k]
            if a in seen:
                continue
            seen.add(a)
            info = self.atoms[a]
            x, y = info.var, self.mono(m[:k] + m[k + 1:])
            self._assert(z3.Implies(z3.And(x >= 0, y >= 0), v >= 0))
            self._assert(z3.Implies(z3.Or(x == 0, y == 0), v == 0))
            self._assert(z3.Implies(z3.And(x >= 1, y >= 1), z3.And(v >= x, v >= y)))
            self._assert(z3.Implies(z3.And(x < 0, y > 0), v <= -y))
            self._assert(z3.Implies(z3.And(x > 0, y < 0), v <= -x))
            if info.lo is not None and info.lo > 0:
                self._assert(z3.Implies(y >= 0, v >= info.lo * y))
            if info.hi is not None:
                self._assert(z3.Implies(y >= 0, v <= info.hi * y))
        if len(m) == 2 and m[0] == m[1]:
            self._assert(v >= 0)

    def z(self, p):
        r = self.z3cache.get(p)
        if r is None:
            parts = []
            for m, c in p.terms.items():
                if not m:
                    parts.append(z3.IntVal(c))
                else:
                    t = self.mono(m)
                    parts.append(t if c == 1 else c * t)
            r = z3.IntVal(0) if not parts else (parts[0] if len(parts) == 1 else z3.Sum(parts))
            self.z3cache[p] = r
        return r

    # -- branching ------------------------------------------------------------------------
    def check_lin(self, *assumptions):
        st = self.engine.stats
        st.queries += 1
        t = time.time()
        r = self.solver.check(*assumptions)
        st.solver_s += time.time() - t
        return r

    def assume_expr(self, e):
        self._assert(e)

    def branch(self, e):
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = e.get_id()
        if k in self.decided:
            return self.decided[k]
        self.keep.append(e)
        self.engine.tick()
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            if self.check_lin(e) == z3.unsat:
                v = False
                if self.engine.verify_alive and self.check_lin(z3.Not(e)) == z3.unsat:
                    raise PathPruned()
            elif self.check_lin(z3.Not(e)) == z3.unsat:
                v = True
            else:
                v = True
                self.engine.push(self.trace + [False])
        self.trace.append(v)
        self.decided[k] = v
        self._assert(e if v else z3.Not(e))
        return v

    def choose(self, name, options):
        """n-ary fork over concrete options (a symbolic variable over a finite domain)."""
        n = len(options)
        if n == 1:
            idx = 0
        else:
            i = len(self.trace)
            if i < len(self.prefix):
                idx = self.prefix[i]
            else:
                idx = 0
                for alt in range(n - 1, 0, -1):
                    self.engine.push(self.trace + [alt])
            self.trace.append(idx)
        self.choices.append((name, idx))
        return options[idx]

    # -- full decision --------------------------------------------------------------------
    def decide(self, extra, budget_s=None, want_model=True, nice=()):
        """Is path /\\ extra satisfiable?  -> ('unsat', None) | ('sat', valuation) | ('unknown', None)"""
        st = self.engine.stats
        r = self.check_lin(*extra)
        if r == z3.unsat:
            return 'unsat', None
        monos = [m for m in self.mono_vars]
        if not monos and r == z3.sat and not nice:
            return 'sat', self._valuation(self.solver.model())
        # quick model search
        got = self._search_model(extra, 2 if monos else 1, nice)
        if got is not None:
            return 'sat', got
        if not monos and r == z3.sat:
            self.check_lin(*extra)
            return 'sat', self._valuation(self.solver.model())
        budget = budget_s or self.engine.nl_budget_s
        st.nonlinear += 1
        res = self._nia(extra, min(6.0, budget))
        if res[0] != 'unknown':
            return res
        got = self._search_model(extra, 12, nice)
        if got is not None:
            return 'sat', got
        res = self._cvc5(extra, budget)
        if res == 'unsat':
            return 'unsat', None
        if budget > 6:
            r2 = self._nia(extra, budget)
            if r2[0] != 'unknown':
                return r2
        st.unknown += 1
        return 'unknown', None

    def _defs(self):
        out = []
        for m, v in self.mono_vars.items():
            p = self.atoms[m[0]].var
            for a in m[1:]:
                p = p * self.atoms[a].var
            out.append(v == p)
        return out

    def _nia(self, extra, budget):
        st = self.engine.stats
        s = z3.SolverFor('QF_NIA')
        s.set('timeout', int(budget * 1000))
        s.add(*self.cons)
        s.add(*self._defs())
        s.add(*extra)
        st.queries += 1
        t = time.time()
        r = s.check()
        st.solver_s += time.time() - t
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat:
            return 'sat', self._valuation(s.model())
        return 'unknown', None

    def _cvc5(self, extra, budget):
        st = self.engine.stats
        s = z3.Solver()
        s.add(*self.cons)
        s.add(*self._defs())
        s.add(*extra)
        text = '(set-logic QF_NIA)\n' + s.to_smt2()
        st.external += 1
        st.queries += 1
        t = time.time()
        try:
            p = subprocess.run(['cvc5', '--nl-ext-tplanes', '--tlimit=%d' % int(budget * 1000), '-'], input=text,
                               capture_output=True, text=True, timeout=budget + 10)
            out = p.stdout.strip()
        except (subprocess.TimeoutExpired, OSError):
            out = 'unknown'
        st.solver_s += time.time() - t
        if '(error' in out:
            return 'unknown'
        return out.splitlines()[0] if out else 'unknown'

    def _cover(self):
        """Atoms whose fixing makes every monomial linear (inputs preferred)."""
        fixed = []
        fs = set()
        for m in sorted(self.mono_vars, key=lambda m: (-len(m), m)):
            while True:
                free = [a for a in m if a not in fs]
                if len(free) <= 1:
                    break
                cnt = {}
                for mm in self.mono_vars:
                    f = [a for a in mm if a not in fs]
                    if len(f) > 1:
                        for a in set(f):
                            if a in m:
                                cnt[a] = cnt.get(a, 0) + 1
                best = max(set(free), key=lambda a: (self.atoms[a].kind == INPUT, cnt.get(a, 0), -a))
                fixed.append(best)
                fs.add(best)
        return fixed

    MENU = [10 ** 18, 1000, 7, 10 ** 6, 3, 10 ** 21, 1, 2, 10 ** 9, 123456789, 5, 999999, 64, 10 ** 12]

    def _search_model(self, extra, attempts, nice):
        st = self.engine.stats
        rng = self.engine.rng
        for att in range(attempts):
            s = self.solver
            s.push()
            try:
                s.add(*extra)
                if att == 0:
                    for e in nice:
                        s.push()
                        s.add(e)
                        if self.check_lin() != z3.sat:
                            s.pop()
                cover = self._cover()
                fixed = {}
                ok = self.check_lin() == z3.sat
                if not ok:
                    return None if att else self._none(nice)
                for a in cover:
                    info = self.atoms[a]
                    cands = []
                    m = s.model()
                    mv = m.eval(info.var, model_completion=True).as_long()
                    if att == 0:
                        cands = [mv]
                    else:
                        base = [x for x in self.MENU]
                        rng.shuffle(base)
                        cands = base[:3] + [mv]
                    done = False
                    for c in cands:
                        if (info.lo is not None and c < info.lo) or (info.hi is not None and c > info.hi):
                            continue
                        s.add(z3.BoolVal(True))
                        s.push()
                        s.add(info.var == c)
                        fx = dict(fixed)
                        fx[a] = c
                        for mm, v in self.mono_vars.items():
                            e = self._linearized(mm, v, fx)
                            if e is not None:
                                s.add(e)
                        if self.check_lin() == z3.sat:
                            fixed[a] = c
                            done = True
                            break
                        s.pop()
                    if not done:
                        ok = False
                        break
                if ok:
                    if self.check_lin() == z3.sat:
                        val = self._valuation(s.model())
                        if self._consistent(val):
                            return val
            finally:
                while s.num_scopes() > 0:
                    s.pop()
        return None

    @staticmethod
    def _none(_):
        return None

    def _linearized(self, m, v, fx):
        k = 1
        free = []
        for a in m:
            if a in fx:
                k *= fx[a]
            else:
                free.append(a)
        if len(free) > 1:
            return None
        if not free:
            return v == k
        return v == k * self.atoms[free[0]].var

    def _consistent(self, val):
        for m in self.mono_vars:
            p = 1
            for a in m:
                p *= val['atoms'][a]
            if p != val['monos'][m]:
                return False
        return True

    def _valuation(self, model):
        atoms = {}
        for a in self.atoms:
            atoms[a.idx] = model.eval(a.var, model_completion=True).as_long()
        monos = {m: model.eval(v, model_completion=True).as_long() for m, v in self.mono_vars.items()}
        bools = {n: z3.is_true(model.eval(b, model_completion=True)) for n, b in self.bool_inputs.items()}
        return {'atoms': atoms, 'monos': monos, 'bools': bools, 'model': model}


# ----------------------------------------------------------------------------------------------

class Engine:
    def __init__(self, seed=1, linear_timeout_ms=4000, nl_budget_s=20.0, max_paths=4000, deadline=None):
        import random
        self.seed = seed
        self.rng = random.Random(seed)
        self.linear_timeout_ms = linear_timeout_ms
        self.nl_budget_s = nl_budget_s
        self.max_paths = max_paths
        self.deadline = deadline
        self.stats = Stats()
        self.work = []
        self.paths = 0
        self.verify_alive = False
        self.forks = 0

    def push(self, prefix):
        self.forks += 1
        self.work.append(prefix)

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget exhausted')

    def run(self, harness, on_path_end):
        """harness(path) executes once; on_path_end(path, outcome)."""
        global CURRENT
        self.work = [[]]
        while self.work:
            prefix = self.work.pop()
            if self.paths >= self.max_paths:
                raise Budget('path budget exhausted')
            path = Path(self, prefix)
            CURRENT = path
            try:
                harness(path)
                outcome = 'done'
            except PathPruned:
                outcome = 'pruned'
            finally:
                CURRENT = None
            self.paths += 1
            stop = on_path_end(path, outcome)
            if stop:
                break


# ----------------------------------------------------------------------------------------------
# helpers to build values

def mk(p):
    if p.is_const():
        return p.cval()
    return SymInt(p)


def to_poly(x):
    if isinstance(x, SymIntBase):
        return x._p
    t = type(x)
    if t is int:
        return Poly.const(x)
    if t is bool:
        return ONE_P if x else ZERO_P
    if isinstance(x, SymBoolBase):
        return sym_ite(x, 1, 0, poly=True)
    if isinstance(x, int):  # IntEnum and friends
        return Poly.const(int.__index__(x))
    return None


def mkb(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def _cmp(p, op):
    """condition `p op 0` for a polynomial p"""
    if p.is_const():
        c = p.cval()
        return {'<=': c <= 0, '<': c < 0, '==': c == 0, '!=': c != 0}[op]
    path = CURRENT
    z = path.z(p)
    if op == '<=':
        e = z <= 0
    elif op == '<':
        e = z < 0
    elif op == '==':
        # canonical sign so that a==b and b==a are the same term
        q = p.scale(-1)
        if min(p.terms.items()) > min(q.terms.items()):
            z = path.z(q)
        e = z == 0
    else:
        e = _cmp(p, '==')
        return mkb(z3.Not(e._e)) if isinstance(e, SymBoolBase) else (not e)
    return SymBool(e)


def sym_ite(cond, a, b, poly=False):
    """if-then-else over integers without forking."""
    if cond is True or cond is False:
        r = a if cond else b
        return to_poly(r) if poly else r
    path = CURRENT
    pa, pb = to_poly(a), to_poly(b)
    if pa == pb:
        return pa if poly else mk(pa)
    e = cond._e
    d = path.decided.get(e.get_id())
    if d is not None:
        r = pa if d else pb
        return r if poly else mk(r)
    k = (e.get_id(), pa, pb)
    i = path.ites.get(k)
    if i is None:
        path.keep.append(e)
        i = path.new_atom('ite', DERIVED, defn=('ite', e, pa, pb))
        v = path.atoms[i].var
        path._assert(z3.Implies(e, v == path.z(pa)))
        path._assert(z3.Implies(z3.Not(e), v == path.z(pb)))
        path.ites[k] = i
    p = Poly.atom(i)
    return p if poly else mk(p)


def sym_div(n, d):
    """Python floor division."""
    pn, pd = to_poly(n), to_poly(d)
    if pd.is_const():
        c = pd.cval()
        if c == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if c < 0:
            return sym_div(mk(pn.scale(-1)), -c)
        if pn.is_const():
            return pn.cval() // c
        if all(k % c == 0 for k in pn.terms.values()):
            return mk(Poly({m: k // c for m, k in pn.terms.items()}))
    else:
        if not bool(_cmp(pd, '!=')):
            raise ZeroDivisionError('integer division or modulo by zero')
        if not bool(_cmp(pd.scale(-1), '<')):  # d < 0
            return sym_div(mk(pn.scale(-1)), mk(pd.scale(-1)))
        if pn == pd:
            return 1
        if pn.is_const() and pn.cval() == 0:
            return 0
    path = CURRENT
    k = (pn, pd)
    i = path.divs.get(k)
    if i is None:
        i = path.new_atom('quo', DERIVED, defn=('div', pn, pd))
        path.divs[k] = i
        q = Poly.atom(i)
        qd = q.mul(pd)
        zn, zqd, zd, zq = path.z(pn), path.z(qd), path.z(pd), path.atoms[i].var
        path._assert(zqd <= zn)
        path._assert(zn < zqd + zd)
        path._assert(z3.Implies(zn >= 0, zq >= 0))
        path._assert(z3.Implies(zn < 0, zq <= -1))
        path._assert(z3.Implies(zn < zd, zq <= 0))
        path._assert(z3.Implies(zn >= zd, zq >= 1))
        path._assert(z3.Implies(zn >= 0, zq <= zn))
    return mk(Poly.atom(i))


def sym_mod(n, d):
    q = sym_div(n, d)
    return mk(to_poly(n).add(to_poly(q).mul(to_poly(d)), -1))


def uf(name, args, lo=None, hi_terms=(), result_lemmas=None):
    """uninterpreted integer function with functional consistency; result_lemmas(z_result, z_args)->list of z3"""
    path = CURRENT
    ps = tuple(to_poly(a) for a in args)
    k = (name, ps)
    i = path.ufs.get(k)
    if i is None:
        i = path.new_atom('uf_' + name, DERIVED, lo=lo, defn=('uf', name, ps))
        v = path.atoms[i].var
        for (n2, ps2), j in list(path.ufs.items()):
            if n2 == name:
                conds = []
                for p1, p2 in zip(ps, ps2):
                    e = _cmp(p1.add(p2, -1), '==')
                    if e is True:
                        continue
                    if e is False:
                        conds = None
                        break
                    conds.append(e._e)
                if conds is not None:
                    path._assert(z3.Implies(z3.And(*conds) if conds else z3.BoolVal(True), v == path.atoms[j].var))
        path.ufs[k] = i
        if result_lemmas:
            for e in result_lemmas(v, [path.z(p) for p in ps]):
                path._assert(e)
    return mk(Poly.atom(i))


TOKEN_BASE = 7731 * 10 ** 44
TOKEN_SPAN = 10 ** 20


class SymIntBase:
    __slots__ = ()


class SymInt(SymIntBase):
    __slots__ = ('_p',)

    def __init__(self, p):
        self._p = p

    @property
    def __class__(self):
        return int

    # arithmetic
    def __add__(self, o):
        p = to_poly(o)
        return as_float(self, o, '__add__') if p is None else mk(self._p.add(p))
    __radd__ = __add__

    def __sub__(self, o):
        p = to_poly(o)
        return as_float(self, o, '__sub__') if p is None else mk(self._p.add(p, -1))

    def __rsub__(self, o):
        p = to_poly(o)
        return as_float(self, o, '__rsub__') if p is None else mk(p.add(self._p, -1))

    def __mul__(self, o):
        p = to_poly(o)
        return as_float(self, o, '__mul__') if p is None else mk(self._p.mul(p))
    __rmul__ = __mul__

    def __neg__(self):
        return mk(self._p.scale(-1))

    def __pos__(self):
        return self

    def __abs__(self):
        return self if bool(self >= 0) else -self

    def __floordiv__(self, o):
        return as_float(self, o, '__floordiv__') if to_poly(o) is None else sym_div(self, o)

    def __rfloordiv__(self, o):
        return as_float(self, o, '__rfloordiv__') if to_poly(o) is None else sym_div(o, self)

    def __mod__(self, o):
        return as_float(self, o, '__mod__') if to_poly(o) is None else sym_mod(self, o)

    def __rmod__(self, o):
        return NotImplemented if to_poly(o) is None else sym_mod(o, self)

    def __divmod__(self, o):
        return sym_div(self, o), sym_mod(self, o)

    def __rdivmod__(self, o):
        return sym_div(o, self), sym_mod(o, self)

    def __truediv__(self, o):
        p = to_poly(o)
        return as_float(self, o, '__truediv__') if p is None else rounded(self._p, p)

    def __rtruediv__(self, o):
        p = to_poly(o)
        return as_float(self, o, '__rtruediv__') if p is None else rounded(p, self._p)

    def __pow__(self, e, mod=None):
        if isinstance(e, (float, SymFloatBase)):
            raise Unsupported('power with a fractional exponent')
        e = concretize(e)
        if e < 0:
            raise Unsupported('negative power')
        r = 1
        for _ in range(e):
            r = r * self
        return r if mod is None else r % mod

    def __rpow__(self, base):
        return base ** concretize(self)

    def __lshift__(self, k):
        return self * (1 << concretize(k))

    def __rshift__(self, k):
        return sym_div(self, 1 << concretize(k))

    def __rlshift__(self, base):
        return base << concretize(self)

    def __rrshift__(self, base):
        return base >> concretize(self)

    def __and__(self, o):
        if type(o) is int and o >= 0:
            r = 0
            k = 0
            while o >> k:
                if (o >> k) & 1:
                    j = k
                    while (o >> j) & 1:
                        j += 1
                    r = r + (sym_div(self, 1 << k) % (1 << (j - k))) * (1 << k)
                    k = j
                else:
                    k += 1
            return r
        raise Unsupported('symbolic bitwise and')
    __rand__ = __and__

    def __or__(self, o):
        if type(o) is int and o >= 0:
            return self + o - (self & o)
        raise Unsupported('symbolic bitwise or')
    __ror__ = __or__

    def __xor__(self, o):
        raise Unsupported('symbolic bitwise xor')
    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    # comparisons
    def _c(self, o, op, rev=False):
        p = to_poly(o)
        if p is None:
            f = to_ratio(o)
            if f is None:
                return NotImplemented
            # integers and floating-point numbers are compared exactly
            a = self._p.mul(f[1])
            return _cmp(f[0].add(a, -1) if rev else a.add(f[0], -1), op)
        d = p.add(self._p, -1) if rev else self._p.add(p, -1)
        return _cmp(d, op)

    def __lt__(self, o):
        return self._c(o, '<')

    def __le__(self, o):
        return self._c(o, '<=')

    def __gt__(self, o):
        return self._c(o, '<', True)

    def __ge__(self, o):
        return self._c(o, '<=', True)

    def __eq__(self, o):
        r = self._c(o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._c(o, '!=')
        return True if r is NotImplemented else r

    def __hash__(self):
        return 0

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        return concretize(self)

    def __int__(self):
        return concretize(self)

    def bit_length(self):
        x = abs(self)
        n = 0
        while bool(x >= (1 << n)):
            n += 1
            if n > 600:
                raise Unsupported('bit_length of an unbounded symbolic integer')
        return n

    def token(self):
        path = CURRENT
        toks = path.__dict__.setdefault('tokens', [])
        for i, t in enumerate(toks):
            if t._p == self._p:
                return TOKEN_BASE * TOKEN_SPAN + i
        toks.append(self)
        return TOKEN_BASE * TOKEN_SPAN + len(toks) - 1

    def __str__(self):
        return str(self.token()) if CURRENT is not None else '<symint>'

    def __repr__(self):
        return self.__str__()

    def __format__(self, spec):
        return self.__str__()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


# -- floating point ----------------------------------------------------------------------------
# A double is an exact ratio of polynomials; every operation rounds, and the rounding is an unknown integer, bounded by half
# a unit in the last place.  What is proved holds for every rounding within the bound; a counterexample is only reported
# when the real code, with the real rounding, shows it.

FLOAT_SCALE = 120


class SymFloatBase:
    __slots__ = ()


def to_ratio(x):
    """A float as (numerator, positive denominator), or None."""
    if isinstance(x, SymFloatBase):
        return x._n, x._d
    if type(x) is float:
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('an infinite or undefined float')
        n, d = x.as_integer_ratio()
        return Poly.const(n), Poly.const(d)
    return None


def as_float(i, o, op):
    if to_ratio(o) is None:
        return NotImplemented
    return getattr(rounded(i._p, ONE_P), op)(o)


def true_rounding(n, d):
    if d == 0:
        return None
    try:
        a, b = (n / d).as_integer_ratio()
    except OverflowError:
        return None
    return (a * d * (1 << FLOAT_SCALE) - n * b * (1 << FLOAT_SCALE)) // b


def rounded(pn, pd):
    """The double nearest to n / d."""
    if pd.is_const() and pd.cval() == 0:
        raise ZeroDivisionError('division by zero')
    if not pd.is_const():
        if not bool(_cmp(pd, '!=')):
            raise ZeroDivisionError('division by zero')
        if not bool(_cmp(pd.scale(-1), '<')):
            pn, pd = pn.scale(-1), pd.scale(-1)
    elif pd.cval() < 0:
        pn, pd = pn.scale(-1), pd.scale(-1)
    if pn.is_const() and pd.is_const():
        return pn.cval() / pd.cval()
    path = CURRENT
    floats = path.__dict__.setdefault('floats', {})
    k = (pn, pd)
    if k not in floats:
        i = path.new_atom('rnd', DERIVED)
        v, zn, zd = path.atoms[i].var, path.z(pn), path.z(pd)
        most = 1 << (FLOAT_SCALE - 53)
        path._assert(z3.If(zn >= 0, z3.And(v <= most * zn, -v <= most * zn), z3.And(v <= -most * zn, v >= most * zn)))
        q = to_poly(sym_div(mk(pn), mk(pd)))
        whole = path.z(q)
        exact = [whole <= 1 << 53, whole >= -(1 << 53)]
        if pd != ONE_P:
            exact.append(path.z(q.mul(pd)) == zn)
        path._assert(z3.Implies(z3.And(*exact), v == 0))
        for c in (1, 1 << 53, 1 << 127, 1 << 128):     # rounding is monotone, and these are doubles
            path._assert(z3.Implies(zn >= c * zd, zn * (1 << FLOAT_SCALE) + v >= c * zd * (1 << FLOAT_SCALE)))
            path._assert(z3.Implies(zn <= c * zd, zn * (1 << FLOAT_SCALE) + v <= c * zd * (1 << FLOAT_SCALE)))
        floats[k] = SymInt(Poly.atom(i))
    one = Poly.const(1 << FLOAT_SCALE)
    return SymFloat(pn.mul(one).add(floats[k]._p), pd.mul(one))


class SymFloat(SymFloatBase):
    __slots__ = ('_n', '_d')

    def __init__(self, n, d):
        self._n, self._d = n, d

    @property
    def __class__(self):
        return float

    @staticmethod
    def _other(o):
        p = to_poly(o)
        if p is not None:
            f = rounded(p, ONE_P)
            return to_ratio(f)
        return to_ratio(o)

    def _op(self, o, f):
        o = self._other(o)
        return NotImplemented if o is None else rounded(*f(self._n, self._d, *o))

    def __add__(self, o):
        return self._op(o, lambda n, d, m, e: (n.mul(e).add(m.mul(d)), d.mul(e)))
    __radd__ = __add__

    def __sub__(self, o):
        return self._op(o, lambda n, d, m, e: (n.mul(e).add(m.mul(d), -1), d.mul(e)))

    def __rsub__(self, o):
        return self._op(o, lambda n, d, m, e: (m.mul(d).add(n.mul(e), -1), d.mul(e)))

    def __mul__(self, o):
        return self._op(o, lambda n, d, m, e: (n.mul(m), d.mul(e)))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._op(o, lambda n, d, m, e: (n.mul(e), d.mul(m)))

    def __rtruediv__(self, o):
        return self._op(o, lambda n, d, m, e: (m.mul(d), e.mul(n)))

    def __floordiv__(self, o):
        o = self._other(o)
        return NotImplemented if o is None else float_of(sym_div(mk(self._n.mul(o[1])), mk(self._d.mul(o[0]))))

    def __rfloordiv__(self, o):
        o = self._other(o)
        return NotImplemented if o is None else float_of(sym_div(mk(o[0].mul(self._d)), mk(o[1].mul(self._n))))

    def __mod__(self, o):
        raise Unsupported('remainder of a symbolic float')

    def __pow__(self, e, mod=None):
        if type(e) is not int or e < 0 or e > 8:
            raise Unsupported('power of a symbolic float')
        r = 1.0
        for _ in range(e):
            r = self * r
        return r

    def __neg__(self):
        return SymFloat(self._n.scale(-1), self._d)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if bool(self >= 0) else -self

    def _c(self, o, op, rev=False):
        p = to_poly(o)
        o = (p, ONE_P) if p is not None else to_ratio(o)
        if o is None:
            return NotImplemented
        a, b = self._n.mul(o[1]), self._d.mul(o[0])
        return _cmp(b.add(a, -1) if rev else a.add(b, -1), op)

    def __lt__(self, o):
        return self._c(o, '<')

    def __le__(self, o):
        return self._c(o, '<=')

    def __gt__(self, o):
        return self._c(o, '<', True)

    def __ge__(self, o):
        return self._c(o, '<=', True)

    def __eq__(self, o):
        r = self._c(o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._c(o, '!=')
        return True if r is NotImplemented else r

    def __hash__(self):
        return 0

    def __bool__(self):
        return bool(_cmp(self._n, '!='))

    def __floor__(self):
        return sym_div(mk(self._n), mk(self._d))

    def __ceil__(self):
        return -sym_div(mk(self._n.scale(-1)), mk(self._d))

    def __trunc__(self):
        return self.__floor__() if bool(_cmp(self._n.scale(-1), '<=')) else self.__ceil__()

    def __round__(self, digits=None):
        if digits:
            raise Unsupported('rounding a symbolic float to digits')
        two = Poly.const(2)
        n, d = self._n.mul(two).add(self._d), self._d.mul(two)
        r = sym_div(mk(n), mk(d))
        if bool(r * mk(d) == mk(n)) and bool(sym_mod(r, 2) == 1):
            r = r - 1       # halves go to the even neighbour
        return r if digits is None else float_of(r)

    def is_integer(self):
        return self.__floor__() * mk(self._d) == mk(self._n)

    def __float__(self):
        raise Unsupported('a symbolic float where a concrete one is needed')
    __int__ = __index__ = __float__

    def __str__(self):
        raise Unsupported('a symbolic float as text')
    __repr__ = __str__

    def __format__(self, spec):
        return self.__str__()


def float_of(x):
    p = to_poly(x)
    return x if p is None else rounded(p, ONE_P)


def untoken(n):
    if type(n) is int and n // TOKEN_SPAN == TOKEN_BASE:
        return CURRENT.tokens[n % TOKEN_SPAN]
    return n


def concretize(x, limit=64):
    """Enumerate (fork over) every feasible value of x; refuses unbounded domains."""
    if type(x) is int:
        return x
    if type(x) is bool:
        return int(x)
    if isinstance(x, SymBoolBase):
        return int(bool(x))
    if not isinstance(x, SymIntBase):
        return x.__index__()
    path = CURRENT
    for _ in range(limit):
        i = len(path.trace)
        z = path.z(x._p)
        if i < len(path.prefix):
            v = path.prefix[i][1]
        else:
            if path.check_lin() != z3.sat:
                raise Unsupported('cannot enumerate a symbolic value')
            v = path.solver.model().eval(z, model_completion=True).as_long()
            for c in (0, 1, 2, 3):
                if path.check_lin(z == c) == z3.sat:
                    v = c
                    break
        path.trace.append(('v', v))
        if path.branch(z == v):
            return v
    raise Unsupported('symbolic integer used where a concrete one is needed (domain too large)')


class SymBoolBase:
    __slots__ = ()


class SymBool(SymBoolBase):
    __slots__ = ('_e',)

    def __init__(self, e):
        self._e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return CURRENT.branch(self._e)

    def __eq__(self, o):
        if o is True or o is False:
            return self if o else mkb(z3.Not(self._e))
        if isinstance(o, SymBoolBase):
            return mkb(z3.simplify(self._e == o._e))
        p = to_poly(o)
        if p is None:
            return False
        return mk(sym_ite(self, 1, 0, poly=True)) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if r is True or r is False else mkb(z3.Not(r._e))

    def __hash__(self):
        return 0

    def __and__(self, o):
        return s_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return s_or(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return self != o

    def _i(self):
        return mk(sym_ite(self, 1, 0, poly=True))

    def __add__(self, o):
        return self._i() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o
    __rmul__ = __mul__

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __str__(self):
        return '<symbool>'
    __repr__ = __str__

    def __format__(self, spec):
        return '<symbool>'

    def __lt__(self, o):
        return self._i() < o

    def __le__(self, o):
        return self._i() <= o

    def __gt__(self, o):
        return self._i() > o

    def __ge__(self, o):
        return self._i() >= o


def bexpr(x):
    if isinstance(x, SymBoolBase):
        return x._e
    if isinstance(x, SymIntBase):
        return bexpr(x != 0)
    return z3.BoolVal(bool(x))


def s_and(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBoolBase):
            out.append(x._e)
        elif isinstance(x, SymIntBase):
            out.append(bexpr(x))
        elif not x:
            return False
    if not out:
        return True
    return mkb(z3.And(*out) if len(out) > 1 else out[0])


def s_or(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBoolBase):
            out.append(x._e)
        elif isinstance(x, SymIntBase):
            out.append(bexpr(x))
        elif x:
            return True
    if not out:
        return False
    return mkb(z3.Or(*out) if len(out) > 1 else out[0])


def s_not(x):
    if isinstance(x, (SymBoolBase, SymIntBase)):
        e = bexpr(x)
        return mkb(z3.Not(e))
    return not x
