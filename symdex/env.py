"""The API scenarios are written against, in its two implementations: symbolic exploration and concrete replay."""
import hashlib
import json

from . import boot
boot.setup_path()


class CheckFailed(BaseException):
    pass


class AssumptionFailed(BaseException):
    pass


def copied(v):
    """What leaves the contracts is a copy."""
    if type(v) is list:
        return [copied(x) for x in v]
    if type(v) is dict:
        return {k: copied(x) for k, x in v.items()}
    return v


class Opaque:
    """Behaves like an arbitrary external contract (unknown code): accepts or rejects each call."""

    def __init__(self, env, address):
        self.env = env
        self.address = address

    def _IconScoreBase__is_func_readonly(self, name):
        return False

    def _IconScoreBase__external_call(self, func_name, arg_params, kw_params):
        self.env.ext_calls.append((self.address, func_name))
        if self.env.choice('ext_%s' % func_name, ['accept', 'reject']) == 'reject':
            from iconservice.base.exception import RevertException, ExceptionCode
            raise RevertException('external contract rejects', ExceptionCode.SCORE_ERROR)
        if func_name in ('balanceOf', 'totalSupply'):
            return self.env.int('ext_' + func_name, lo=0)
        return None

    def _IconScoreBase__fallback_call(self):
        self.env.ext_calls.append((self.address, None))
        if self.env.choice('ext_fallback', ['accept', 'reject']) == 'reject':
            from iconservice.base.exception import RevertException, ExceptionCode
            raise RevertException('external contract rejects', ExceptionCode.SCORE_ERROR)


class EnvBase:
    def __init__(self):
        self._names = {}
        self.obs = []
        self.ext_calls = []
        self.crashes = []
        self.nchecks = 0
        self.config = {}
        self.query_effects = 0
        self.results = []
        self.second = None       # the label under which a second telling of the same story must not get stuck

    def again(self, label):
        """Start the story over in a fresh world, with the same inputs."""
        self._names, self.ext_calls, self.results, self.second = {}, [], [], label
        self.__dict__.pop('_clocks', None)
        self.world = type(self.world)(self)

    def uniq(self, name):
        n = self._names.get(name, 0)
        self._names[name] = n + 1
        return name if n == 0 else '%s#%d' % (name, n)

    def unknown_score(self, address):
        return Opaque(self, address)

    def query_changed_state(self, changed):
        if changed:
            self.query_effects += 1

    # -- contract operations, logged so that a concrete replay can be compared step by step
    def deploy(self, name, cls, owner, params=None):
        a, r = self.world.deploy(name, cls, owner, params)
        self._log('deploy:' + name, r)
        return a, r

    def must_deploy(self, name, cls, owner, params=None):
        a, r = self.deploy(name, cls, owner, params)
        if not r.ok:
            self.setup_failed('deploy %s: %s' % (name, r.error))
        return a

    def tx(self, sender, to, method=None, params=None, value=0):
        r = self.world.tx(sender, to, method, params, value)
        self._log('tx:%s' % method, r)
        return r

    def must(self, sender, to, method=None, params=None, value=0):
        """A set-up transaction that has to succeed on this path (otherwise the path is not of interest)."""
        r = self.tx(sender, to, method, params, value)
        if not r.ok:
            self.setup_failed('%s: %s' % (method, r.error))
        return r

    def update(self, address, owner):
        r = self.world.update(address, owner)
        self._log('update', r)
        return r

    def q(self, to, method, params=None, sender=None):
        r = self.world.query(to, method, params, sender)
        self._log('query:%s' % method, r)
        return r

    def get(self, to, method, **params):
        """A query that is expected to answer; its value."""
        r = self.q(to, method, params)
        if not r.ok:
            self.check(False, 'getter-answers', 'query %s: %s' % (method, r.error))
        return r.ret

    def icx(self, address):
        return self.world.icx_balance(address)

    def clock(self, name):
        """A block height or time: positive, never going back."""
        now = self.int(name, lo=1)
        last = self.__dict__.setdefault('_clocks', {})
        if name in last:
            self.assume(now >= last[name])
        last[name] = now
        return now

    def account(self, name):
        return self.world.account(name)

    def setup_failed(self, why):
        """A set-up step failed: the path is outside the scenario (counted, and covered by the reach labels)."""
        self.assume(False, why)

    def _log(self, what, r):
        r.ret = copied(r.ret)
        self.results.append((what, r))
        if r.crash:
            self.crashes.append((what, repr(r.error)))
        self.obs.append((what, bool(r.ok), (None if r.ret is None else self.show(r.ret)) if r.ok
                         else (type(r.error).__name__ if r.crash else None)))

    def eqv(self, a, b):
        """Equality that also handles None, as a condition."""
        if a is None or b is None:
            return a is None and b is None
        return a == b


class ConcreteEnv(EnvBase):
    def __init__(self, case, config):
        super().__init__()
        from .world import ConcreteWorld
        self.signals = (CheckFailed, AssumptionFailed)
        self.case = case
        self.config = config
        self.world = ConcreteWorld(self)
        self.reached = []
        self.checks = []

    symbolic = False

    def rng(self, n):
        import random
        return random.Random('%s:%s' % (self.case['fill'], n))

    def int(self, name, lo=None, hi=None):
        n = self.uniq(name)
        if n not in self.case['ints'] and 'fill' in self.case:
            g = self.rng(n)
            a = 0 if lo is None else lo
            b = a + g.randrange(10 ** g.randint(1, 22))
            return b if hi is None else min(b, g.randint(a, hi))
        v = int(self.case['ints'][n])
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise AssumptionFailed('bounds of ' + name)
        return v

    def bool(self, name):
        n = self.uniq(name)
        if n not in self.case['bools'] and 'fill' in self.case:
            return self.rng(n).random() < 0.5
        return bool(self.case['bools'][n])

    def address(self, name, kind='any', zero=False):
        from iconservice.base.address import Address
        n = self.uniq(name)
        if n not in self.case['addrs'] and 'fill' in self.case:
            g = self.rng(n)
            pre = {'eoa': 'hx', 'contract': 'cx'}.get(kind) or g.choice(['hx', 'cx'])
            return Address.from_string(pre + '%040x' % g.randrange(1, 1 << 160))
        return Address.from_string(self.case['addrs'][n])

    def string(self, name, pool=()):
        n = self.uniq(name)
        if n not in self.case['strs'] and 'fill' in self.case:
            return self.rng(n).choice(list(pool) + ['other'])
        return self.case['strs'][n]

    def choice(self, name, options):
        n = self.uniq(name)
        if n not in self.case['choices'] and 'fill' in self.case:
            return self.rng(n).choice(list(options))
        return options[self.case['choices'][n]]

    def assume(self, c, why=''):
        if not c:
            raise AssumptionFailed(why)

    def setup_failed(self, why):
        if self.second:
            self.check(False, self.second, why)
        if self.case.get('stuck'):
            raise CheckFailed('ordinary-use-works ' + why)
        raise AssumptionFailed(why)

    def check(self, c, label, detail=None):
        self.nchecks += 1
        ok = bool(c)
        self.checks.append((label, ok))
        if not ok:
            raise CheckFailed('%s %s' % (label, self.show(detail) if detail is not None else ''))

    def reach(self, label):
        self.reached.append(label)

    def hint(self, *conds):
        pass

    def show(self, v):
        return show(v)

    And = staticmethod(lambda *xs: all(bool(x) for x in xs))
    Or = staticmethod(lambda *xs: any(bool(x) for x in xs))
    Not = staticmethod(lambda x: not x)

    @staticmethod
    def Implies(a, b):
        return (not a) or bool(b)

    @staticmethod
    def If(c, a, b):
        return a if c else b


def show(v):
    from iconservice.base.address import Address
    if v is None or type(v) in (int, bool, str):
        if type(v) is bool:
            return 'true' if v else 'false'
        return str(v)
    if isinstance(v, Address):
        return str(v)
    if isinstance(v, bytes):
        return 'b:' + v.hex()
    if isinstance(v, dict):
        return '{' + ','.join('%s:%s' % (k, show(x)) for k, x in sorted(v.items())) + '}'
    if isinstance(v, (list, tuple)):
        return '[' + ','.join(show(x) for x in v) + ']'
    return '<%s>' % type(v).__name__


_SYMWORLD = None


def sym_world_class():
    global _SYMWORLD
    if _SYMWORLD is None:
        from .world import make_symbolic
        _SYMWORLD = make_symbolic()
    return _SYMWORLD


class SymEnv(EnvBase):
    symbolic = True

    def __init__(self, path, runner, config):
        super().__init__()
        from . import core as C
        self.C = C
        self.path = path
        self.runner = runner
        self.config = config
        self.signals = (C.EngineSignal,)
        self.world = sym_world_class()(self)
        self.ints, self.addrs, self.strs = {}, {}, {}
        self.given = {}          # inputs by name, for the second telling of a story
        self.hints = []
        self.repairs = []        # functions giving inputs that make real helpers return what the solver chose
        self.ghosts = []         # (symbolic stand-in, what it depends on, function giving its value)
        self.And, self.Or, self.Not, self.If = C.s_and, C.s_or, C.s_not, C.sym_ite

    def Implies(self, a, b):
        return self.C.s_or(self.C.s_not(a), b)

    def int(self, name, lo=None, hi=None):
        n = self.uniq(name)
        if n not in self.given:
            i = self.path.new_atom(n, self.C.INPUT, lo, hi)
            self.ints[n] = i
            self.given[n] = self.C.mk(self.C.Poly.atom(i))
        return self.given[n]

    def bool(self, name):
        import z3
        n = self.uniq(name)
        if n not in self.given:
            b = z3.Bool(n)
            self.path.bool_inputs[n] = b
            self.given[n] = self.C.SymBool(b)
        return self.given[n]

    def address(self, name, kind='any', zero=False):
        n = self.uniq(name)
        if n in self.given:
            return self.given[n]
        lo = hi = None
        if kind == 'eoa':
            hi = -1
        elif kind == 'contract':
            lo = 0 if zero else 1
        i = self.path.new_atom(n, self.C.INPUT, lo, hi)
        if kind == 'any' and not zero:
            self.path._assert(self.path.atoms[i].var != 0)
        self.addrs[n] = i
        self.given[n] = self.world.Sym(self.C.Poly.atom(i))
        return self.given[n]

    def string(self, name, pool=()):
        n = self.uniq(name)
        if n in self.given:
            return self.given[n]
        texts = self.path.__dict__.setdefault('str_pool', [])
        for s in pool:
            self.world.str_id(s)
            if s not in texts:
                texts.append(s)
        i = self.path.new_atom(n, self.C.INPUT, 0, None)
        self.strs[n] = i
        self.given[n] = self.world.Str(self.C.Poly.atom(i))
        return self.given[n]

    def choice(self, name, options):
        n = self.uniq(name)
        if n not in self.given:
            self.given[n] = (self.path.choose(n, list(options)),)
        return self.given[n][0]

    def setup_failed(self, why):
        if self.second:
            self.check(False, self.second, why)
        self.runner.on_stuck(self)
        raise self.C.PathPruned()

    def assume(self, c, why=''):
        C = self.C
        if c is True:
            return
        if c is False or c is None or (type(c) is int and not c):
            raise C.PathPruned()
        e = C.bexpr(c)
        self.path.decided[e.get_id()] = True
        self.path.keep.append(e)
        self.path._assert(e)
        if self.path.check_lin() == self.runner.z3.unsat:
            raise C.PathPruned()

    def check(self, c, label, detail=None):
        self.nchecks += 1
        self.runner.on_check(self, c, label, detail)

    def hint(self, *conds):
        """A set of preferences for counterexamples (no effect on what is decided)."""
        self.hints.append([c for c in conds if type(c) is not bool])

    def reach(self, label):
        self.runner.on_reach(self, label)

    def show(self, v):
        """A description that can be evaluated under a valuation."""
        return v

    # -- valuation -> concrete case
    def address_of_id(self, v):
        pre, twin = ('cx' if v > 0 else 'hx'), None
        for (p, body), i in self.world.concrete_ids.items():
            if i == v:
                return str(p) + body.hex()
            if i == -v:
                twin = pre + body.hex()
        return twin or pre + hashlib.sha3_256(b'id:%d' % abs(v)).digest()[-20:].hex()

    def string_of_id(self, v):
        for s, i in self.world.str_ids.items():
            if i == v:
                return s
        return 'unknown-%d' % v

    def case(self, val):
        atoms = val['atoms']
        return {
            'ints': {n: str(atoms[i]) for n, i in self.ints.items()},
            'bools': dict(val['bools']),
            'addrs': {n: self.address_of_id(atoms[i]) for n, i in self.addrs.items()},
            'strs': {n: self.string_of_id(atoms[i]) for n, i in self.strs.items()},
            'choices': dict(self.path.choices),
        }

    def evaluate(self, v, val):
        """Concrete rendering (as `show`) of a logged symbolic value under a valuation."""
        C = self.C
        if isinstance(v, C.SymIntBase):
            return str(v._p.eval(lambda a: val['atoms'][a]))
        if isinstance(v, C.SymBoolBase):
            return 'true' if self.runner.z3.is_true(val['model'].eval(v._e, model_completion=True)) else 'false'
        if isinstance(v, self.world.Sym):
            return self.address_of_id(v._p.eval(lambda a: val['atoms'][a]))
        if isinstance(v, self.world.Str):
            return self.string_of_id(v._p.eval(lambda a: val['atoms'][a]))
        if isinstance(v, dict):
            return '{' + ','.join('%s:%s' % (k, self.evaluate(x, val)) for k, x in sorted(v.items())) + '}'
        if isinstance(v, (list, tuple)):
            return '[' + ','.join(self.evaluate(x, val) for x in v) + ']'
        return show(v)

    def trace(self, val):
        out = []
        for what, ok, v in self.obs:
            out.append([what, ok, (self.evaluate(v, val) if v is not None else None) if ok else v])
        return out
