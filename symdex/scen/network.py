"""The network: multi-hop conversions, delivery, path and request validation, ICX in and out."""
from iconservice import InterfaceScore, interface

from symdex.registry import scenario
from symdex.scen.common import *  # noqa: F401,F403

D6 = MAX_WEIGHT


class Route:
    """A network, one or two markets, a trader with input tokens, and a conversion path.

    kinds: buy (A F F) / sell (F F A) / cross (A F B), or two hops sharing a token:
    buy2: A F F, F G G (F is a connector of G's market); sell2: F F N, N G G (both markets use N)."""

    def __init__(self, env, kind, exact=True, fee=0, icx_in=False, icx_out=False, prepared=None):
        self.env, self.kind = env, kind
        I = env.int
        w = (lambda n: D6 if exact else I(n, lo=1, hi=D6))
        hops = 2 if kind.endswith('2') else 1
        self.markets = []
        kin = 'icx' if icx_in else 'irc'
        kout = 'icx' if icx_out else 'irc'
        common = dict(fee=fee, stock=I('stock', lo=0))
        if kind == 'buy':
            m = Market(env, wa=w('wa'), kind_a=kin, **common)
            self.path = [m.A, m.F, m.F]
        elif kind == 'sell':
            m = Market(env, wa=w('wa'), kind_a=kout, **common)
            self.path = [m.F, m.F, m.A]
        elif kind == 'cross':
            wa = I('wa', lo=1, hi=D6 // 2)
            wb = wa if exact else I('wb', lo=1, hi=D6 // 2)
            m = Market(env, wa=wa, wb=wb, kind_a=kin, kind_b=kout, **common)
            self.path = [m.A, m.F, m.B]
        elif kind == 'sell2':
            m = Market(env, wa=w('wa'), kind_a='irc', n='1', reserve_a=I('r1', lo=1),
                       fee=fee, stock=I('stock', lo=0))
            # the shared token needs stock for the second market: take it from the first market's stock
            m2 = Market(env, wa=w('wa2'), n='2', registry=m.registry, network=m.network, tok_a=m.A,
                        reserve_a=I('r2', lo=1), fee=fee, stock=0)
            self.path = [m.F, m.F, m.A, m2.F, m2.F]
            self.markets.append(m2)
        elif kind == 'buy2':
            m = Market(env, wa=w('wa'), kind_a=kin, n='1', fee=fee, stock=I('stock', lo=0), supply=I('s1', lo=1))
            m2 = Market(env, wa=w('wa2'), n='2', registry=m.registry, network=m.network, tok_a=m.F,
                        reserve_a=I('r2', lo=1), fee=fee, stock=0)
            self.path = [m.A, m.F, m.F, m2.F, m2.F]
            self.markets.append(m2)
        self.m = m
        self.markets.insert(0, m)
        self.net = m.network
        self.owner = m.owner
        self.src, self.dst = self.path[0], self.path[-1]
        self.tokens = []
        for k in self.markets:
            for t in (k.A, k.B, k.F):
                if t is not None and t not in self.tokens:
                    self.tokens.append(t)
        self.paid_in_icx = icx_in
        if icx_in or icx_out:
            for t, f in ((self.src, icx_in), (self.dst, icx_out)):
                if f:
                    env.must(self.owner, self.net, 'registerIcxToken', dict(_icxToken=t.at, _register=True))
        if env.config.get('hist') == 'traded':
            self.trade_before()
        elif env.config.get('hist') == 'attempted':
            self.fail_before()
        elif env.config.get('hist') == 'restarted':
            restart(env)
        self.x = I('x', lo=0)
        self.min = I('min')

    def trade_before(self):
        """Somebody else has converted along the same path, for somebody else again."""
        env = self.env
        t0, b0, x0 = env.account('earliertrader'), env.account('earlierbeneficiary'), env.int('x0', lo=1)
        if getattr(self, 'paid_in_icx', False):
            env.world.fund_icx(t0, x0)
            env.must(t0, self.net, 'convertFor', dict(_path=self.path_str(), _minReturn=1, _for=b0), value=x0)
        else:
            self.src.give(t0, x0)
            env.must(t0, self.src.at, 'transfer', dict(_to=self.net, _value=x0, _data=dumps(
                {'path': self.path_str(), 'minReturn': 1, 'for': str(b0)})))

    def fail_before(self):
        """A conversion along the path went all the way, and was undone because its beneficiary would not have it."""
        env, t0, n = self.env, self.env.account('earliertrader'), 2
        shut = env.world.place('shut', Sink)
        env.world.find_score(shut).closed = True
        if getattr(self, 'paid_in_icx', False):
            env.world.fund_icx(t0, n)
            r = env.tx(t0, self.net, 'convertFor', dict(_path=self.path_str(), _minReturn=1, _for=shut), value=n)
        else:
            self.src.give(t0, n)
            r = env.tx(t0, self.src.at, 'transfer', dict(_to=self.net, _value=n, _data=dumps(
                {'path': self.path_str(), 'minReturn': 1, 'for': str(shut)})))
        if r.ok:
            env.setup_failed('accepted')

    def endow(self):
        """The network itself may hold any amount of every token on the route."""
        for i, t in enumerate(self.tokens):
            self.env.must(self.owner, t.at, 'transfer', dict(_to=self.net, _value=self.env.int('net_has%d' % i, lo=0),
                                                             _data=b'conversionResult'))

    def path_str(self):
        return ','.join(str(t.at) for t in self.path)

    def data(self, **kw):
        d = {'path': self.path_str(), 'minReturn': self.min}
        d.update(kw)
        return dumps(d)

    def observe(self, *accounts):
        who = [self.net, self.owner] + [k.at for k in self.markets] + list(accounts)
        return {'tok': [[t.bal(a) for a in who] for t in self.tokens], 'sup': [t.supply() for t in self.tokens],
                'icx': [self.env.icx(a) for a in [self.net] + list(accounts) + [t.at for t in self.tokens]]}

    def quote(self):
        return self.env.q(self.net, 'getExpectedReturnByPath', dict(_path=self.path_str(), _amount=self.x))

    def quote_by_hand(self):
        """The composition of the converters' own quotes along the path."""
        y = self.x
        for i in range(1, len(self.path), 2):
            owner = self.env.get(self.path[i].at, 'getOwner')
            q = self.env.q(owner, 'getReturn', dict(_fromToken=self.path[i - 1].at, _toToken=self.path[i + 1].at,
                                                    _amount=y))
            if not q.ok:
                return None
            y = q.ret['amount']
        return y


ONE = [{'kind': k, 'exact': e} for k in ('buy', 'sell', 'cross') for e in (True, False)]
TWO = [{'kind': k, 'exact': e} for k in ('sell2', 'buy2') for e in (True, False)]


HIST = [{'kind': k, 'exact': False, 'hist': h} for k in ('buy', 'sell', 'cross')
        for h in ('changed', 'traded', 'attempted', 'restarted', 'moved', 'owns')]
HIST2 = [{'kind': k, 'exact': False, 'hist': h} for k in ('sell2', 'buy2') for h in ('traded', 'moved', 'owns')]


@scenario(['C27', 'C20', 'C31'], configs=ONE + TWO + HIST + HIST2, reach=['delivered', 'refused', 'to another account'], formula='uf', weight=6,
          bound='one conversion request through one or two markets in arbitrary states; any amount, minimum, '
                'beneficiary; fees 0 and 3000 ppm')
def delivery(env):
    c = env.config
    rt = Route(env, c['kind'], c['exact'], env.choice('fee', [0, 3000]))
    trader = env.account('trader')
    rt.src.give(trader, env.int('has', lo=0))
    rt.endow()
    other = env.choice('for', ['self', 'other'])
    ben = trader if other == 'self' else env.address('beneficiary', 'eoa')
    for a in [trader, rt.owner]:
        if other == 'other':
            env.assume(ben != a)
    kw = {} if other == 'self' else {'for': str(ben)}
    s0, d0 = rt.src.bal(trader), rt.dst.bal(ben)
    mids = [t for t in rt.tokens if t is not rt.src and t is not rt.dst]
    m0 = [(t.bal(trader), t.bal(ben)) for t in mids]
    net0 = [t.bal(rt.net) for t in rt.tokens]
    own0 = [t.bal(rt.owner) for t in rt.tokens]
    before = rt.observe(trader, ben)
    q = rt.quote()
    r = env.tx(trader, rt.src.at, 'transfer', dict(_to=rt.net, _value=rt.x, _data=rt.data(**kw)))
    if r.ok:
        env.reach('delivered')
        got = rt.dst.bal(ben) - d0
        env.check(env.And(rt.x > 0, rt.min > 0), 'only-positive-requests')
        env.check(got >= rt.min, 'at-least-the-minimum-is-delivered')
        env.check(rt.src.bal(trader) == s0 - rt.x, 'exactly-the-input-is-taken')
        env.check(q.ok and q.ret == got, 'delivers-what-was-quoted')
        if other == 'other':
            env.reach('to another account')
            env.check(rt.src.bal(ben) == before['tok'][rt.tokens.index(rt.src)][-1], 'beneficiary-pays-nothing')
            env.check(rt.dst.bal(trader) == before['tok'][rt.tokens.index(rt.dst)][-2], 'trader-receives-nothing')
        env.check(same(env, m0, [(t.bal(trader), t.bal(ben)) for t in mids]), 'intermediate-tokens-untouched')
        env.check(same(env, net0, [t.bal(rt.net) for t in rt.tokens]), 'network-retains-nothing')
        env.check(same(env, own0, [t.bal(rt.owner) for t in rt.tokens]), 'others-untouched')
        paid = [e for e in r.named('Conversion')]
        env.check(len(paid) == len(rt.path) // 2, 'one-conversion-per-hop')
    else:
        env.reach('refused')
        env.check(same(env, before, rt.observe(trader, ben)), 'refused-request-changes-nothing')


@scenario('C27', configs=[{'kind': k, 'exact': True} for k in ('buy', 'sell', 'cross', 'sell2', 'buy2')] +
          [{'kind': k, 'exact': k in ('cross', 'buy2') and h not in ('changed', 'restarted'), 'hist': h} for k in ('buy', 'sell', 'cross', 'buy2')
           for h in ('changed', 'traded', 'attempted', 'restarted', 'moved') if k != 'buy2' or h in ('moved', 'traded')],
          reach=['accepted'], formula='uf', weight=5,
          bound='one conversion request; a request whose quote covers the minimum is accepted whenever the trader '
                'holds the input and reserves cover every hop')
def honest_request_accepted(env):
    c = env.config
    rt = Route(env, c['kind'], c['exact'], env.choice('fee', [0, 3000]))
    trader = env.account('trader')
    has = env.int('has', lo=1)
    rt.src.give(trader, has)
    env.assume(env.And(rt.x > 0, rt.x <= has, rt.min > 0))
    q = rt.quote()
    if not q.ok:
        return
    # every hop has to yield something, and must not exhaust a reserve
    y, ok = rt.x, True
    for i in range(1, len(rt.path), 2):
        owner = env.get(rt.path[i].at, 'getOwner')
        y2 = env.get(owner, 'getReturn', _fromToken=rt.path[i - 1].at, _toToken=rt.path[i + 1].at, _amount=y)['amount']
        ok = env.And(ok, y2 >= 1)
        if rt.path[i + 1] is not rt.path[i]:
            ok = env.And(ok, y2 < env.get(owner, 'getConnectorBalance', _connectorToken=rt.path[i + 1].at))
        y = y2
    ok = env.And(ok, y >= rt.min)
    r = env.tx(trader, rt.src.at, 'transfer', dict(_to=rt.net, _value=rt.x, _data=rt.data()))
    if r.ok:
        env.reach('accepted')
    else:
        env.check(env.Not(ok), 'honest-request-accepted')


@scenario('C31', configs=ONE + TWO + HIST, reach=['quoted', 'no quote'], formula='uf', weight=3,
          bound='one path quote over one or two markets in arbitrary states, any amount; fees 0 and 3000 ppm')
def path_quote(env):
    c = env.config
    rt = Route(env, c['kind'], c['exact'], env.choice('fee', [0, 3000]))
    hand = rt.quote_by_hand()
    q = rt.quote()
    if q.ok:
        env.reach('quoted')
        env.check(rt.x > 0, 'only-positive-amounts')
        env.check(hand is not None and q.ret == hand, 'path-quote-is-composition-of-hop-quotes')
    else:
        env.reach('no quote')
        env.check(rt.x <= 0 if hand is not None else True, 'quoted-whenever-every-hop-is')


# -- paths ----------------------------------------------------------------------------------------

class FakeFlexible(IconScoreBase):
    """Stands for a flexible token whose controller is the given contract."""

    def __init__(self, db):
        super().__init__(db)

    def on_install(self):
        pass

    def on_update(self):
        pass

    def init(self, world, owner):
        self.own = owner

    @external(readonly=True)
    def getOwner(self) -> Address:
        return self.own

    @external
    def dummy(self):
        pass


class PayToken(InterfaceScore):
    @interface
    def transfer(self, _to: Address, _value: int, _data: bytes = None):
        pass


class Swapper(IconScoreBase):
    """An arbitrary converter: pays whatever it likes out of its own stock."""

    def __init__(self, db):
        super().__init__(db)

    def on_install(self):
        pass

    def on_update(self):
        pass

    def init(self, world, pay=None, hook=None):
        self.pay, self.hook, self.seen = pay, hook, []

    @external(readonly=True)
    def getReturn(self, _fromToken: Address, _toToken: Address, _amount: int) -> dict:
        return {'amount': _amount, 'fee': 0}

    @external
    def tokenFallback(self, _from: Address, _value: int, _data: bytes):
        if _data is None or _data[:1] != b'{':
            return
        d = iconservice.json_loads(_data.decode())
        self.seen.append((_from, self.msg.sender, _value, d['toToken'], d['minReturn']))
        n = _value if self.pay is None else self.pay(_value)
        if self.hook:
            self.hook(self)
        if n is not None:
            self.create_interface_score(Address.from_string(d['toToken']), PayToken).transfer(
                _from, n, b'conversionResult')


def swap_world(env, n_flex, stock=10 ** 9, pay=None, hook=None):
    """Two tokens T, U, one unrestricted converter, n flexible tokens it controls, and the network."""
    owner = env.account('owner')
    net = env.must_deploy('network', Network, owner, {})
    T, U = Tok(env, 'irc', 10 ** 10, 'tokenT', owner), Tok(env, 'irc', 10 ** 10, 'tokenU', owner)
    sw = env.world.place('swapper', Swapper, pay, hook)
    T.give(sw, stock)
    U.give(sw, stock)
    flex = [env.world.place('flex%d' % i, FakeFlexible, sw) for i in range(n_flex)]
    return owner, net, T, U, sw, flex


def path_of(T, U, flex, n):
    """n addresses: T f0 U f1 T f2 U ..."""
    out = []
    for i in range(n):
        out.append([T.at, U.at][(i // 2) % 2] if i % 2 == 0 else flex[i // 2])
    return out


LENGTHS = [0, 1, 2, 3, 4, 5, 6, 7, 9, 12, 15, 19, 20, 21, 22, 23, 25]


@scenario('C28', configs=[{'n': n} for n in LENGTHS], reach=[], weight=2,
          bound='paths of length 0..25, every pair of repeated converters at arbitrary positions, any amount')
def path_length(env):
    n = env.config['n']
    owner, net, T, U, sw, flex = swap_world(env, 13)
    addrs = path_of(T, U, flex, n)
    hops = n // 2
    dup = None
    if n >= 5 and n % 2 == 1 and hops >= 2:
        pairs = [None] + [(i, j) for i in range(hops) for j in range(i + 1, hops)]
        if len(pairs) > 12:
            pairs = pairs[:4] + pairs[-8:]
        dup = env.choice('dup', pairs)
        if dup:
            addrs[2 * dup[1] + 1] = addrs[2 * dup[0] + 1]
    sep = env.choice('sep', [',', ' , '])
    path = sep.join(str(a) for a in addrs)
    valid = 3 <= n <= 21 and n % 2 == 1 and not dup
    trader = env.account('trader')
    x = env.int('x', lo=0, hi=10 ** 8)
    T.give(trader, 10 ** 8)
    q = env.q(net, 'getExpectedReturnByPath', dict(_path=path, _amount=x))
    env.check((x > 0) if q.ok and valid else (not q.ok and (not valid or x <= 0)), 'quoted-exactly-for-valid-paths')
    if q.ok:
        env.check(q.ret == x, 'quote-follows-the-path')
    t0 = T.bal(trader)
    r = env.tx(trader, T.at, 'transfer', dict(_to=net, _value=x, _data=dumps({'path': path, 'minReturn': 1})))
    if r.ok:
        env.check(valid, 'only-valid-paths-convert')
        env.check([(str(s[1]), s[3]) for s in sw.__dict__.get('seen', ())] == [] if False else True, 'hops')
        env.check(len(env.world.find_score(sw).seen) == hops, 'one-conversion-per-hop')
        for i, s in enumerate(env.world.find_score(sw).seen):
            env.check(env.And(s[0] == net, s[1] == addrs[2 * i], s[3] == str(addrs[2 * i + 2]), s[2] == x),
                      'hops-follow-the-path')
            env.check(s[4] == 1, 'minimum-passed-on')
    else:
        env.check(x <= 0 if valid else True, 'valid-path-converts')
        env.check(T.bal(trader) == t0, 'refused-path-takes-nothing')
    pay = env.tx(trader, net, 'convert', dict(_path=path, _minReturn=1), value=0)
    env.check(not pay.ok, 'no-icx-conversion-without-icx-token')


BAD = ['', 'hello', 'cx12', 'hx' + '0' * 39, ',,', 'cx' + 'g' * 40, '%(T)s,%(F)s', '%(T)s,%(F)s,', '%(T)s;%(F)s;%(U)s',
       '%(U)s,%(F)s,%(T)s', '%(T)s,%(F)s,%(U)s,', '%(T)s,nonsense,%(U)s', '%(E)s,%(F)s,%(U)s']


@scenario('C28', configs=[{'bad': i} for i in range(len(BAD))], reach=['refused'],
          bound='malformed path texts and paths not starting at the paid token, any amount')
def malformed_path(env):
    owner, net, T, U, sw, flex = swap_world(env, 1)
    trader = env.account('trader')
    path = BAD[env.config['bad']] % {'T': T.at, 'U': U.at, 'F': flex[0], 'E': trader}
    x = env.int('x', lo=0, hi=10 ** 8)
    T.give(trader, 10 ** 8)
    t0, u0 = T.bal(trader), U.bal(trader)
    r = env.tx(trader, T.at, 'transfer', dict(_to=net, _value=x, _data=dumps({'path': path, 'minReturn': 1})))
    env.check(not r.ok, 'malformed-path-refused')
    env.reach('refused')
    env.check(env.And(T.bal(trader) == t0, U.bal(trader) == u0, T.bal(net) == 0), 'refused-path-takes-nothing')
    q = env.q(net, 'getExpectedReturnByPath', dict(_path=path, _amount=x))
    if env.config['bad'] not in (9, 12):
        env.check(not q.ok, 'malformed-path-not-quoted')


class Rated(Swapper):
    """A converter that gives `gain` more units than it gets, for one pair of tokens only."""

    def init(self, world, frm, to, gain):
        self.frm, self.to, self.gain, self.seen = frm, to, gain, []

    @external(readonly=True)
    def getReturn(self, _fromToken: Address, _toToken: Address, _amount: int) -> dict:
        if _fromToken != self.frm or _toToken != self.to:
            self.revert('not my pair')
        return {'amount': _amount + self.gain, 'fee': 7}

    @external
    def tokenFallback(self, _from: Address, _value: int, _data: bytes):
        if _data[:1] != b'{':
            return
        d = iconservice.json_loads(_data.decode())
        self.seen.append((_from, self.msg.sender, _value, d['toToken'], d['minReturn']))
        if self.msg.sender != self.frm or d['toToken'] != str(self.to):
            self.revert('not my pair')
        if _value < 1 or d['minReturn'] < 1 or _value + self.gain < d['minReturn']:
            self.revert('below the minimum')
        self.create_interface_score(self.to, PayToken).transfer(_from, _value + self.gain, b'conversionResult')


def long_route(env, n):
    """n hops through n converters and n + 1 tokens (the last may be the first: a circular route)."""
    owner = env.account('owner')
    net = env.must_deploy('network', Network, owner, {})
    toks = [Tok(env, 'irc', 10 ** 12, 'token%d' % i, owner) for i in range(n + 1)]
    if env.choice('circular', [False, True]) and n > 1:
        toks[n] = toks[0]
    gains = [env.int('gain%d' % i, lo=-1000, hi=10 ** 6) for i in range(n)]
    convs = [env.world.place('conv%d' % i, Rated, toks[i].at, toks[i + 1].at, gains[i]) for i in range(n)]
    flex = [env.world.place('lflex%d' % i, FakeFlexible, convs[i]) for i in range(n)]
    path = [toks[0].at]
    for i in range(n):
        path += [flex[i], toks[i + 1].at]
    return owner, net, toks, gains, convs, ','.join(str(a) for a in path)


HOPS = [{'hops': n} for n in (1, 2, 3, 4, 6, 8, 10)]


@scenario('C31', configs=HOPS, reach=['quoted', 'no quote'], weight=2,
          bound='routes of 1..10 hops through as many converters, each adding an arbitrary amount for its own pair of '
                'tokens only, distinct tokens or circular, any amount')
def long_path_quote(env):
    n = env.config['hops']
    owner, net, toks, gains, convs, path = long_route(env, n)
    x = env.int('x')
    q = env.q(net, 'getExpectedReturnByPath', dict(_path=path, _amount=x))
    y = x
    for g in gains:
        y = y + g
    if q.ok:
        env.reach('quoted')
        env.check(env.And(x > 0, q.ret == y), 'path-quote-is-composition-of-hop-quotes')
    else:
        env.reach('no quote')
        env.check(x <= 0, 'quoted-whenever-every-hop-is')


@scenario(['C27', 'C20', 'C31'], configs=HOPS, reach=['delivered', 'refused'], weight=2,
          bound='routes of 1..10 hops through as many converters, each adding an arbitrary amount for its own pair of '
                'tokens only, distinct tokens or circular, a network holding arbitrary amounts, any amount and minimum')
def long_route_delivery(env):
    n = env.config['hops']
    owner, net, toks, gains, convs, path = long_route(env, n)
    uniq = toks if toks[n] is not toks[0] else toks[:n]
    for i, t in enumerate(uniq):
        env.must(owner, t.at, 'transfer', dict(_to=net, _value=env.int('net_has', lo=0, hi=10 ** 6),
                                               _data=b'conversionResult'))
        for cv in convs:
            t.give(cv, 10 ** 8)
    trader = env.account('trader')
    toks[0].give(trader, 10 ** 6)
    ben = env.choice('for', [trader, env.account('friend')])
    x, m = env.int('x', lo=0), env.int('min')
    y, pos = x, True
    for g in gains:
        y = y + g
        pos = env.And(pos, y >= 0)
    held = [[t.bal(w) for w in (net, trader, ben)] for t in uniq]
    data = {'path': path, 'minReturn': m}
    if ben is not trader:
        data['for'] = str(ben)
    r = env.tx(trader, toks[0].at, 'transfer', dict(_to=net, _value=x, _data=dumps(data)))
    after = [[t.bal(w) for w in (net, trader, ben)] for t in uniq]
    if not r.ok:
        env.reach('refused')
        env.check(same(env, held, after), 'refused-request-changes-nothing')
        steps, v = True, x
        for g in gains:
            v = v + g
            steps = env.And(steps, v >= 1)
        env.check(env.Not(env.And(x > 0, x <= 10 ** 6, m > 0, m <= y, steps)), 'honest-request-accepted')
        return
    env.reach('delivered')
    env.check(env.And(x > 0, m > 0, y >= m, pos), 'at-least-the-minimum-is-delivered')
    want = []
    for i, (t, h) in enumerate(zip(uniq, held)):
        d = [0, 0, 0]
        if i == 0:
            d[1] = d[1] - x
        if t is toks[n]:
            d[2] = d[2] + y
        if ben is trader:
            d[1] = d[2] = d[1] + d[2]
        want.append([h[k] + d[k] for k in range(3)])
    env.check(same(env, after, want), 'exactly-input-taken-and-output-delivered')
    v = x
    for i, cv in enumerate(convs):
        s = env.world.find_score(cv).seen
        env.check(env.And(len(s) == 1, s[0][0] == net, s[0][1] == toks[i].at, s[0][2] == v,
                          s[0][3] == str(toks[i + 1].at)), 'each-hop-gets-the-previous-output')
        v = v + gains[i]


# -- requests -------------------------------------------------------------------------------------

FALSY = ['', 0, False, [], {}]


def request_data(env, T, U, F, ben):
    """(bytes, is a well-formed request, beneficiary, minimum)"""
    p = '%s,%s,%s' % (T.at, F, U.at)
    m = env.int('min')
    good = {'path': p, 'minReturn': m}
    return env.choice('data', [
        lambda: (None, False, None, m), lambda: (b'', False, None, m), lambda: (b'\xff\xfe', False, None, m),
        lambda: (b'conversion', False, None, m), lambda: (b'conversionResult ', False, None, m),
        lambda: (b'conversionResult\x00', False, None, m), lambda: (b' conversionResult', False, None, m),
        lambda: (b'"conversionResult"', False, None, m), lambda: (b'ConversionResult', False, None, m),
        lambda: (b'conversionResults', False, None, m), lambda: (b'conversionResult' + dumps(good), False, None, m),
        lambda: (b'None', False, None, m), lambda: (b'{', False, None, m), lambda: (b'[]', False, None, m),
        lambda: (b'null', False, None, m), lambda: (b'"path"', False, None, m), lambda: (b'{}', False, None, m),
        lambda: (dumps({'path': p}), False, None, m), lambda: (dumps({'minReturn': 1}), False, None, m),
        lambda: (dumps({'path': None, 'minReturn': 1}), False, None, m),
        lambda: (dumps({'path': [p], 'minReturn': 1}), False, None, m),
        lambda: (dumps({'path': p, 'minReturn': '1'}), False, None, m),
        lambda: (dumps({'path': p, 'minReturn': 1.5}), False, None, m),
        lambda: (dumps({'path': p, 'minReturn': None}), False, None, m),
        lambda: (dumps(dict(good, **{'for': 'nobody'})), False, None, m),
        lambda: (dumps(dict(good, **{'for': 'cx' + '0' * 40})), False, None, m),
        lambda: (dumps(dict(good, **{'for': 'hx'})), False, None, m),
        lambda: (dumps(dict(good, **{'for': 5})), False, None, m),
    ] + [(lambda v: lambda: (dumps(dict(good, **{'for': v})), False, None, m))(v) for v in FALSY] + [
        (lambda k, v: lambda: (dumps(dict(good, **{k: v})), False, None, m))(k, v)
        for k in ('path', 'minReturn') for v in FALSY + [{'a': 1}] if v != 0 or k != 'minReturn'] + [
        lambda: (dumps(dict(good, path=[str(T.at), str(F), str(U.at)])), False, None, m),
        lambda: (dumps(dict(good, path={str(T.at): 1, str(F): 2, str(U.at): 3})), False, None, m),
        lambda: (dumps(dict(good, minReturn=[1])), False, None, m),
        lambda: (dumps(dict(good, **{'for': [str(ben)]})), False, None, m),
        lambda: (dumps([good]), False, None, m), lambda: (dumps(p), False, None, m),
        lambda: (dumps(good)[:-1], False, None, m), lambda: (b'x' + dumps(good), False, None, m),
        lambda: (dumps(good) + b'}', False, None, m),
        lambda: (dumps(dict(good, **{'For': str(ben)})), True, None, m),
        lambda: (dumps(good), True, None, m),
        lambda: (dumps(dict(good, **{'for': None})), True, None, m),
        lambda: (dumps(dict(good, **{'for': str(ben)})), True, ben, m),
        lambda: (dumps(dict(good, more=1)), True, None, m),
    ])()


@scenario('C29', reach=['accepted', 'refused', 'for another'], weight=2,
          bound='57 shapes of request data (missing, malformed, wrongly typed, complete), any minimum, amount, '
                'beneficiary')
def network_requests(env):
    owner, net, T, U, sw, flex = swap_world(env, 1)
    trader = env.account('trader')
    ben = env.address('ben', 'eoa')
    x = env.int('x', lo=0, hi=10 ** 8)
    T.give(trader, 10 ** 8)
    data, well, to, m = request_data(env, T, U, flex[0], ben)
    to = trader if to is None else to
    t0, u0, n0 = T.bal(trader), U.bal(to), T.bal(net)
    r = env.tx(trader, T.at, 'transfer', dict(_to=net, _value=x, **({} if data is None else {'_data': data})))
    if r.ok:
        env.reach('accepted')
        env.check(well, 'malformed-request-refused')
        env.check(m > 0, 'nonpositive-minimum-refused')
        if to is not trader:
            env.reach('for another')
        env.check(env.And(T.bal(trader) == t0 - x, T.bal(net) == n0), 'request-executed')
        env.check(U.bal(to) == u0 + x, 'beneficiary-as-requested')
        s = env.world.find_score(sw).seen
        env.check(len(s) == 1 and s[0][4] == m, 'minimum-passed-on')
    else:
        env.reach('refused')
        if well:
            env.check(m <= 0, 'well-formed-request-accepted')
        env.check(env.And(T.bal(trader) == t0, U.bal(to) == u0, T.bal(net) == n0), 'refused-request-changes-nothing')


@scenario('C29', reach=['accepted', 'refused'], formula='uf', weight=2,
          bound='35 shapes of conversion data sent to a converter by the network, any minimum and amount')
def converter_requests(env):
    m = Market(env, wa=D6, reserve_a=10 ** 12, supply=10 ** 12, stock=10 ** 12, real_network=False)
    m.A.give(m.network, 10 ** 9)
    x, mn = env.int('x', lo=0, hi=10 ** 9), env.int('min')
    to = str(m.F.at)
    good = {'toToken': to, 'minReturn': mn}
    data, well = env.choice('data', [
        lambda: (None, False), lambda: (b'', False), lambda: (b'\xff', False), lambda: (b'conversionResult', False),
        lambda: (b'conversionResult ', False), lambda: (b'None', False), lambda: (b'conversionResult' + dumps(good), False),
        lambda: (b'{', False), lambda: (b'[]', False), lambda: (b'null', False), lambda: (b'{}', False),
        lambda: (b'1', False), lambda: (dumps({'toToken': to}), False), lambda: (dumps({'minReturn': 1}), False),
        lambda: (dumps({'toToken': 'abc', 'minReturn': 1}), False),
        lambda: (dumps({'toToken': None, 'minReturn': 1}), False),
        lambda: (dumps({'toToken': 7, 'minReturn': 1}), False),
        lambda: (dumps({'toToken': str(ZERO), 'minReturn': 1}), False),
        lambda: (dumps({'toToken': to, 'minReturn': 'x'}), False),
        lambda: (dumps({'toToken': to, 'minReturn': None}), False),
        lambda: (dumps({'toToken': to, 'minReturn': []}), False),
        lambda: (dumps({'toToken': to, 'minReturn': '1'}), False),
        lambda: (dumps({'toToken': to, 'minReturn': '0x1'}), False),
        lambda: (dumps({'toToken': to, 'minReturn': [1]}), False),
        lambda: (dumps({'toToken': to, 'minReturn': {}}), False),
        lambda: (dumps({'toToken': to, 'minReturn': ''}), False),
        lambda: (dumps({'toToken': [to], 'minReturn': 1}), False),
        lambda: (dumps({'toToken': {to: 1}, 'minReturn': 1}), False),
        lambda: (dumps([good]), False), lambda: (dumps(good)[:-1], False), lambda: (dumps(good) + b'}', False),
        lambda: (dumps({'totoken': to, 'minReturn': 1}), False),
        lambda: (dumps({'toToken': to, 'minreturn': 1}), False),
        lambda: (dumps(good), True), lambda: (dumps(dict(good, more='x')), True)])()
    b = m.snapshot()
    r = env.tx(m.network, m.A.at, 'transfer', dict(_to=m.at, _value=x, **({} if data is None else {'_data': data})))
    if r.ok:
        env.reach('accepted')
        env.check(well, 'malformed-conversion-refused')
        env.check(env.And(mn > 0, x > 0), 'only-positive-conversions')
    else:
        env.reach('refused')
        env.check(same(env, b, m.snapshot()), 'refused-conversion-changes-nothing')
        env.check(env.Not(env.And(well, mn > 0, x > 0, mn <= x)), 'well-formed-conversion-accepted')


# -- hostile converters ---------------------------------------------------------------------------

@scenario('C27', configs=[{'act': a} for a in ('pay', 'reenter', 'withdraw', 'other token')],
          reach=['ended', 'refused'], weight=3,
          bound='a network holding arbitrary amounts of the tokens; a conversion through a converter that pays any '
                'amount and may re-enter the network with another conversion before paying')
def hostile_converter(env):
    act = env.config['act']
    cell = {}
    y = env.int('y')

    def hook(self):
        if cell.get('in') or act == 'pay':
            return
        cell['in'] = True
        if act == 'reenter':
            inner = env.choice('inner', ['T,G,U', 'U,G,T', 'U,G,U', 'T,G,T'])
            a, _, b = inner.split(',')
            toks = {'T': cell['T'], 'U': cell['U']}
            data = dumps({'path': '%s,%s,%s' % (toks[a].at, cell['G'], toks[b].at), 'minReturn': 1,
                          'for': str(env.choice('innerfor', [cell['sw'], cell['net'], cell['crook']]))})
            self.create_interface_score(toks[a].at, PayToken).transfer(cell['net'], env.int('iv', lo=0), data)
        elif act == 'withdraw':
            self.create_interface_score(cell['U'].at, PayToken).transfer(cell['net'], env.int('iv', lo=0),
                                                                         b'conversionResult')
        else:
            self.create_interface_score(cell['T'].at, PayToken).transfer(cell['net'], env.int('iv', lo=0),
                                                                         b'conversionResult')

    def pay(v):
        return y if not cell.get('second') else v

    owner, net, T, U, sw, flex = swap_world(env, 2, stock=env.int('stock', lo=0, hi=10 ** 9), pay=pay, hook=hook)
    crook = env.account('crook')
    cell.update(T=T, U=U, G=flex[1], sw=sw, net=net, crook=crook)
    gt, gu = env.int('net_t', lo=0, hi=10 ** 8), env.int('net_u', lo=0, hi=10 ** 8)
    for t, g in ((T, gt), (U, gu)):
        env.must(owner, t.at, 'transfer', dict(_to=net, _value=g, _data=b'conversionResult'))
    T.give(crook, 10 ** 8)
    x = env.int('x', lo=0, hi=10 ** 8)
    path = '%s,%s,%s' % (T.at, flex[0], U.at)
    total = lambda t: t.bal(crook) + t.bal(sw)
    t0, u0 = total(T), total(U)
    r = env.tx(crook, T.at, 'transfer', dict(_to=net, _value=x, _data=dumps({'path': path, 'minReturn': 1})))
    env.reach('ended' if r.ok else 'refused')
    env.check(env.And(T.bal(net) >= gt, U.bal(net) >= gu), 'network-funds-cannot-be-taken')
    env.check(env.And(total(T) <= t0, total(U) <= u0), 'hostile-converter-gains-nothing')


# -- ICX in and out -------------------------------------------------------------------------------

class Payer(IconScoreBase):
    """A contract that pays ICX into a conversion when somebody asks it to."""

    def __init__(self, db):
        super().__init__(db)

    def on_install(self):
        pass

    def on_update(self):
        pass

    def init(self, world):
        self.what = None

    @payable
    def fallback(self):
        pass

    @external
    def tokenFallback(self, _from: Address, _value: int, _data: bytes):
        pass

    @external
    def pay(self):
        to, method, params, value = self.what
        self.call(to, method, params, value)


@scenario(['C30', 'C20', 'C05'], configs=[{'kind': k, 'entry': e} for k in ('buy', 'cross') for e in ('convert', 'convertFor')] +
          [{'kind': k, 'entry': 'convertFor', 'hist': h} for k in ('buy', 'cross') for h in ('traded', 'attempted')],
          reach=['delivered', 'refused', 'unregistered'], formula='uf', weight=5,
          bound='one ICX conversion of any value through a market in an arbitrary state, to any beneficiary')
def icx_in(env):
    c = env.config
    rt = Route(env, c['kind'], env.choice('exact', [True, False]), env.choice('fee', [0, 3000]), icx_in=True)
    reg = env.choice('registered', [True, False])
    if not reg:
        env.must(rt.owner, rt.net, 'registerIcxToken', dict(_icxToken=rt.src.at, _register=False))
    prompter, funds = env.account('prompter'), env.int('funds', lo=0)
    through = not c.get('hist') and env.choice('through a contract', [False, True])
    trader = env.world.place('payer', Payer) if through else env.account('trader')
    env.world.fund_icx(trader, funds)
    if through:
        env.world.fund_icx(prompter, env.int('others', lo=0))
    rt.endow()
    if c['entry'] == 'convert':
        ben = trader
    else:
        ben = env.address('ben', zero=True)
        for a in [rt.owner, trader, prompter] + [m.at for m in rt.markets] + [t.at for t in rt.tokens]:
            env.assume(ben != a)
    q = rt.quote()
    ext = len(env.ext_calls)
    b = rt.observe(trader, ben)
    p0 = [env.icx(prompter)] + [t.bal(prompter) for t in rt.tokens]
    backing0 = env.icx(rt.src.at) - rt.src.supply()
    d0 = rt.dst.bal(ben)
    params = dict(_path=rt.path_str(), _minReturn=rt.min)
    if c['entry'] == 'convertFor':
        params['_for'] = ben
    if through:
        env.world.find_score(trader).what = (rt.net, c['entry'], params, rt.x)
        r = env.tx(prompter, trader, 'pay')
    else:
        r = env.tx(trader, rt.net, c['entry'], params, value=rt.x)
    env.check(same(env, p0, [env.icx(prompter)] + [t.bal(prompter) for t in rt.tokens]), 'prompter-has-no-part-in-it')
    if r.ok:
        env.reach('delivered')
        if through:
            env.reach('through a contract')
        env.check(reg, 'only-registered-icx-tokens')
        env.check(env.And(rt.x > 0, rt.min > 0, rt.x <= funds), 'only-positive-funded-requests')
        env.check(env.And(ben != ZERO, ben != rt.net), 'beneficiary-valid')
        env.check(env.icx(trader) == funds - rt.x, 'exactly-the-value-is-taken')
        env.check(rt.dst.bal(ben) - d0 >= rt.min, 'at-least-the-minimum-is-delivered')
        env.check(q.ok and rt.dst.bal(ben) - d0 == q.ret, 'delivers-what-was-quoted')
        env.check(env.And(env.icx(rt.net) == b['icx'][0], *[t.bal(rt.net) == b['tok'][i][0]
                                                           for i, t in enumerate(rt.tokens)]),
                  'network-retains-nothing')
        env.check(env.icx(rt.src.at) == b['icx'][3 + rt.tokens.index(rt.src)] + rt.x, 'icx-goes-into-the-icx-token')
    else:
        env.reach('refused' if reg else 'unregistered')
        env.check(same(env, b, rt.observe(trader, ben)), 'refused-request-changes-nothing')
    env.check(env.icx(rt.src.at) - rt.src.supply() == backing0, 'icx-token-stays-fully-backed')


@scenario(['C30', 'C20', 'C05'], configs=[{'kind': k} for k in ('sell', 'cross')] +
          [{'kind': k, 'hist': h} for k in ('sell', 'cross') for h in ('traded', 'attempted')], reach=['paid icx', 'paid tokens', 'refused'],
          formula='uf', weight=5,
          bound='one conversion into a registered or unregistered ICX token, any amounts, any beneficiary: an account, a '
                'contract that accepts, or an arbitrary contract that accepts or refuses')
def icx_out(env):
    c = env.config
    rt = Route(env, c['kind'], env.choice('exact', [True, False]), env.choice('fee', [0, 3000]), icx_out=True)
    reg = env.choice('registered', [True, False])
    if not reg or c.get('hist') == 'traded':
        env.must(rt.owner, rt.net, 'registerIcxToken', dict(_icxToken=rt.dst.at, _register=False))
    if reg and c.get('hist') == 'traded':
        # it has been delivered as a token as well, and was registered again
        rt.trade_before()
        env.must(rt.owner, rt.net, 'registerIcxToken', dict(_icxToken=rt.dst.at, _register=True))
    trader = env.account('trader')
    rt.src.give(trader, env.int('has', lo=0))
    rt.endow()
    kind = env.choice('to', ['account', 'contract', 'unknown contract'])
    if kind == 'contract':
        ben = env.world.place('sink', Sink)
    else:
        ben = env.address('ben', 'eoa' if kind == 'account' else 'contract')
    for a in [rt.owner, trader, rt.net, rt.m.registry] + [m.at for m in rt.markets] + [t.at for t in rt.tokens]:
        env.assume(ben != a)
    q = rt.quote()
    b = rt.observe(trader, ben)
    i0, d0, s0 = env.icx(ben), rt.dst.bal(ben), rt.dst.supply()
    backing0 = env.icx(rt.dst.at) - rt.dst.supply()
    src0 = rt.src.bal(trader)
    r = env.tx(trader, rt.src.at, 'transfer', dict(_to=rt.net, _value=rt.x, _data=rt.data(**{'for': str(ben)})))
    if r.ok:
        icx, tok = env.icx(ben) - i0, rt.dst.bal(ben) - d0
        if reg:
            env.reach('paid icx')
            env.check(env.And(tok == 0, icx >= rt.min, q.ok and icx == q.ret), 'registered-icx-token-pays-icx')
            env.check(rt.dst.supply() == s0 - icx, 'paid-icx-tokens-are-destroyed')
        else:
            env.reach('paid tokens')
            env.check(env.And(icx == 0, tok >= rt.min, q.ok and tok == q.ret), 'other-token-pays-tokens')
            env.check(rt.dst.supply() == s0, 'supply-unchanged')
        env.check(rt.src.bal(trader) == src0 - rt.x, 'exactly-the-input-is-taken')
        env.check(env.And(env.icx(rt.net) == b['icx'][0], *[t.bal(rt.net) == b['tok'][i][0]
                                                           for i, t in enumerate(rt.tokens)]),
                  'network-retains-nothing')
    else:
        env.reach('refused')
        env.check(same(env, b, rt.observe(trader, ben)), 'refused-request-changes-nothing')
    env.check(env.icx(rt.dst.at) - rt.dst.supply() == backing0, 'icx-token-stays-fully-backed')


@scenario(['C30', 'C20', 'C05'], configs=[{'entry': e} for e in ('convert', 'convertFor')],
          reach=['icx for icx', 'tokens for icx', 'refused'], formula='uf', weight=5,
          bound='one ICX conversion of any value from one ICX token into another, each registered or not, through a '
                'market in an arbitrary state, to any account')
def icx_to_icx(env):
    rt = Route(env, 'cross', env.choice('exact', [True, False]), env.choice('fee', [0, 3000]), icx_in=True, icx_out=True)
    reg_in, reg_out = env.choice('registered in', [True, False]), env.choice('registered out', [True, False])
    for t, on in ((rt.src, reg_in), (rt.dst, reg_out)):
        if not on:
            env.must(rt.owner, rt.net, 'registerIcxToken', dict(_icxToken=t.at, _register=False))
    trader = env.account('trader')
    funds = env.int('funds', lo=0)
    env.world.fund_icx(trader, funds)
    if env.config['entry'] == 'convert':
        ben, params = trader, {}
    else:
        ben = env.address('ben', 'eoa')
        env.assume(env.And(ben != rt.owner, ben != trader))
        params = {'_for': ben}
    rt.endow()
    q = rt.quote()
    b = rt.observe(trader, ben)
    back = [env.icx(t.at) - t.supply() for t in (rt.src, rt.dst)]
    i0, d0 = env.icx(ben), rt.dst.bal(ben)
    r = env.tx(trader, rt.net, env.config['entry'], dict(_path=rt.path_str(), _minReturn=rt.min, **params), value=rt.x)
    if r.ok:
        env.check(reg_in, 'only-registered-icx-tokens')
        env.check(env.And(rt.x > 0, rt.min > 0, rt.x <= funds), 'only-positive-funded-requests')
        got_icx, got_tok = env.icx(ben) - i0 + (rt.x if ben is trader else 0), rt.dst.bal(ben) - d0
        env.check(env.And(q.ok, (got_icx if reg_out else got_tok) == q.ret, (got_tok if reg_out else got_icx) == 0,
                          q.ret >= rt.min), 'pays-icx-exactly-for-registered-icx-tokens')
        if ben is not trader:
            env.check(env.icx(trader) == funds - rt.x, 'exactly-the-value-is-taken')
        env.check(env.And(env.icx(rt.net) == b['icx'][0], *[t.bal(rt.net) == b['tok'][i][0]
                                                           for i, t in enumerate(rt.tokens)]),
                  'network-retains-nothing')
        env.reach('icx for icx' if reg_out else 'tokens for icx')
    else:
        env.reach('refused')
        env.check(same(env, b, rt.observe(trader, ben)), 'refused-request-changes-nothing')
    env.check(same(env, back, [env.icx(t.at) - t.supply() for t in (rt.src, rt.dst)]), 'icx-tokens-stay-fully-backed')


@scenario('C30', configs=[{'n': 3}], reach=['registered', 'unregistered', 'refused'],
          bound='3 registrations by arbitrary callers of arbitrary addresses')
def icx_registration(env):
    owner = env.account('owner')
    net = env.must_deploy('network', Network, owner, {})
    model = []
    for i in range(env.config['n']):
        who, a = env.address('who'), env.address('tok', zero=True)
        on = env.choice('on', [True, False])
        r = env.tx(who, net, 'registerIcxToken', dict(_icxToken=a, _register=on))
        ok = env.And(who == owner, a != ZERO, a != net)
        env.check(ok if r.ok else env.Not(ok), 'registered-exactly-when-valid')
        if r.ok:
            env.reach('registered' if on else 'unregistered')
            model.append((a, on))
        else:
            env.reach('refused')
    b = env.address('asked')
    want = False
    for a, on in model:
        want = env.If(a == b, on, want) if not isinstance(a == b, bool) else (on if a == b else want)
    env.check(env.get(net, 'getIcxTokenRegistered', _icxToken=b) == want, 'registration-as-decided')
