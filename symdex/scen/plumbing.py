"""The plumbing under the contracts: proxies for calls between contracts, and the storage wrapper."""
import importlib
import inspect

from iconservice import ArrayDB, DictDB, VarDB

from symdex.registry import scenario
from symdex.scen.common import *  # noqa: F401,F403
from contracts.utility.proxy_score import ProxyScore
from contracts.utility.storage import Storage

INTERFACES = ['irc_token.ABCIRCToken', 'flexible_token.ABCFlexibleToken', 'icx_token.ABCIcxToken',
              'converter.ABCConverter', 'score_registry.ABCScoreRegistry', 'owned.ABCOwned',
              'token_holder.ABCTokenHolder']


def interface_of(name):
    mod, cls = name.split('.')
    return getattr(importlib.import_module('contracts.interfaces.abc_' + mod), cls)


def methods(abc):
    out = []
    for n, f in sorted(inspect.getmembers(abc, inspect.isfunction)):
        if getattr(f, '__isabstractmethod__', False):
            out.append((n, list(inspect.signature(f).parameters.values())[1:]))
    return out


_made = {}


def recorder_of(name):
    """A contract offering exactly the methods of the interface, recording every call and answering as told."""
    if name in _made:
        return _made[name]
    body = {'__init__': lambda self, db: IconScoreBase.__init__(self, db), 'on_install': lambda self: None,
            'on_update': lambda self: None}

    def init(self, world, *a):
        self.seen, self.answer = [], None
    body['init'] = init
    for n in ('__init__', 'on_install', 'on_update'):
        body[n].__qualname__ = 'Recorder.' + n
    for n, ps in methods(interface_of(name)):
        src = 'def %s(self%s):\n    self.seen.append((%r, (%s), self.msg.sender, self.msg.value))\n' \
              '    return self.answer' % (
                  n, ''.join(', %s%s' % (p.name, '' if p.default is p.empty else '=None') for p in ps), n,
                  ''.join(p.name + ', ' for p in ps))
        ns = {}
        exec(src, ns)
        ns[n].__annotations__ = {p.name: p.annotation for p in ps if p.annotation is not p.empty}
        ns[n].__qualname__, ns[n].__module__ = 'Recorder.' + n, __name__
        body[n] = external(ns[n])
    body['__module__'] = __name__
    cls = type('Recorder_' + name.split('.')[1], (IconScoreBase,), body)
    globals()[cls.__name__] = cls
    _made[name] = cls
    return cls


class Caller(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)

    def on_install(self):
        pass

    def on_update(self):
        pass

    def init(self, world, todo, kept=False):
        self.todo, self.kept = todo, self.wrapped() if kept else None

    def wrapped(self):
        s = Storage(self.base)
        s.add_fields(FIELDS[:3])
        s.add_fields(FIELDS[3:])
        return s

    @external
    def go(self):
        self.todo(self)


def some_args(env, ps):
    out = {}
    for p in ps:
        if p.default is not p.empty and env.choice('omit', [True, False]):
            continue
        if p.annotation is int:
            out[p.name] = env.int(p.name)
        elif p.annotation is bool:
            out[p.name] = env.choice(p.name, [True, False])
        elif p.annotation is Address:
            out[p.name] = env.address(p.name, zero=True)
        else:
            out[p.name] = env.choice(p.name, [b'', b'data'])
    return out


@scenario('C41', configs=[{'abc': a} for a in INTERFACES], reach=['called', 'by name'], weight=2,
          bound='each interface of contracts/interfaces; two contracts offering it and one offering another interface; '
                'one call of any method on either through a proxy made before or after the other proxies, with any '
                'arguments, positional or by name, any answer')
def proxies_reach_their_contract(env):
    name = env.config['abc']
    other = 'irc_token.ABCIRCToken' if name != 'irc_token.ABCIRCToken' else 'owned.ABCOwned'
    at = [env.world.place('first', recorder_of(name)), env.world.place('second', recorder_of(name)),
          env.world.place('third', recorder_of(other))]
    recs = [env.world.find_score(a) for a in at]
    n, ps = env.choice('method', methods(interface_of(name)))
    args = some_args(env, ps)
    target = env.choice('target', [0, 1])
    named = env.choice('by name', [True, False])
    first = env.choice('made', ['first', 'last'])
    answer = env.int('answer')
    recs[target].answer = answer
    got = []

    def todo(self):
        make = lambda i: self.create_interface_score(at[i], ProxyScore(interface_of(name if i < 2 else other)))
        mine = make(target) if first == 'first' else None
        rest = [make(i) for i in (2, 1 - target)]
        mine = mine or make(target)
        rest.append(make(1 - target))
        if named:
            got.append(getattr(mine, n)(**args))
        else:
            # arguments from the first omitted one on cannot be given by position
            pos = []
            for p in ps:
                if p.name not in args:
                    break
                pos.append(args[p.name])
            got.append(getattr(mine, n)(*pos))
    who = env.address('who', 'eoa')
    caller = env.world.place('caller', Caller, todo)
    r = env.tx(who, caller, 'go')
    env.check(r.ok, 'call-goes-through')
    env.reach('by name' if named else 'called')
    env.check(len(got) == 1 and env.eqv(got[0], answer), 'answer-returned')
    want = [args.get(p.name) for p in ps]
    for i, rec in enumerate(recs):
        if i != target:
            env.check(not rec.seen, 'nobody-else-called')
        else:
            env.check(len(rec.seen) == 1 and rec.seen[0][0] == n and same(env, list(rec.seen[0][1]), want),
                      'called-once-with-these-arguments')
            env.check(len(rec.seen) == 1 and env.And(rec.seen[0][2] == caller, rec.seen[0][3] == 0),
                      'called-by-the-contract-without-payment')


FIELDS = [('amount', VarDB, int), ('total', VarDB, int), ('who', VarDB, Address), ('open', VarDB, bool),
          ('label', VarDB, str), ('items', ArrayDB, Address), ('shares', DictDB, int)]


class Keeper(IconScoreBase):
    """A contract keeping its state in the storage wrapper; `todo` is run with the wrapper made when the contract was
    loaded (`kept`) or made anew, as after a restart."""

    def __init__(self, db):
        super().__init__(db)
        self.base = db

    def on_install(self):
        pass

    def on_update(self):
        pass

    def init(self, world, todo, kept=False):
        self.todo, self.kept = todo, self.wrapped() if kept else None

    def wrapped(self):
        s = Storage(self.base)
        s.add_fields(FIELDS[:3])
        s.add_fields(FIELDS[3:])
        return s

    @external
    def go(self, _step: int):
        self.todo[_step](self.kept or self.wrapped())


def some_value(env, kind, n):
    if kind is int:
        return env.int(n)
    if kind is bool:
        return env.choice(n, [True, False])
    if kind is Address:
        return env.address(n, zero=True)
    return env.choice(n, ['', 'text'])


@scenario('C42', reach=['assigned', 'again', 'lists'],
          bound='a contract with seven fields of every kind the wrapper supports; two fields assigned any values, one of '
                'them possibly twice, read back in the same and in a later transaction')
def stored_fields(env):
    one = env.choice('one', [f for f in FIELDS if f[1] is VarDB])
    two = env.choice('two', [f for f in FIELDS if f[1] is VarDB])
    v, w = some_value(env, one[2], 'v'), some_value(env, two[2], 'w')
    a, k = env.address('item', zero=True), env.address('holder', zero=True)
    n = env.int('share')
    later = env.choice('later', [True, False])
    before, now = {}, {}
    kinds = [f[0] for f in FIELDS if f[1] is VarDB]

    def read(s, into):
        for f in kinds:
            into[f] = getattr(s, f)
        into['items'] = list(s.items)
        into['share'] = s.shares[k]

    def first(s):
        read(s, before)
        setattr(s, one[0], v)
        env.check(same(env, getattr(s, one[0]), v), 'reads-back-at-once')
        setattr(s, two[0], w)
        s.items.put(a)
        s.shares[k] = n
        if not later:
            read(s, now)

    def second(s):
        if later:
            read(s, now)
    who = env.address('u', 'eoa')
    c = env.world.place('keeper', Keeper, [first, second], env.choice('kept', [True, False]))
    for i in (0, 1):
        env.check(env.tx(who, c, 'go', dict(_step=i)).ok, 'storing-goes-through')
    env.reach('again' if one[0] == two[0] else 'assigned')
    for f in kinds:
        want = w if f == two[0] else v if f == one[0] else before[f]
        env.check(same(env, now[f], want), 'last-value-assigned')
    env.reach('lists')
    env.check(same(env, now['items'], [a]) and not before['items'], 'list-as-put')
    env.check(env.And(now['share'] == n, before['share'] == 0), 'map-as-set')


@scenario('C42', reach=['kept apart'], bound='two contracts with the same fields; either assigned')
def separate_contracts(env):
    v, w = env.int('v'), env.int('w')
    got, kept = [], env.choice('kept', [True, False])
    cs = [env.world.place('keeper%d' % i, Keeper, [lambda s, x=x: setattr(s, 'amount', x), lambda s: got.append(s.amount)], kept)
          for i, x in ((0, v), (1, w))]
    who = env.address('u', 'eoa')
    for i, step in ((0, 0), (1, 0), (0, 1), (1, 1)):
        env.check(env.tx(who, cs[i], 'go', dict(_step=step)).ok, 'storing-goes-through')
    env.check(len(got) == 2 and env.And(got[0] == v, got[1] == w), 'kept-apart')
    env.reach('kept apart')
