"""The same story told twice, once undisturbed and once with something in between that must not matter: reading,
loading the contracts again, and requests that are refused.  Everything that comes out must be the same.  (What a
contract keeps in memory outlives a refused request and does not outlive a restart, so comparing stored state is not
enough.)"""
from symdex.registry import scenario
from symdex.scen.common import *  # noqa: F401,F403
from symdex.scen.access import OWNED
from symdex.scen.frames import CLASSES, any_call, entry_points, rich_world
from symdex.scen.packages import alike

N = 1000


class Story:
    def __init__(self, env, between=None):
        self.env, self.between = env, between
        c = env.config
        I = env.int
        virt = c.get('virtual', False)
        m = self.m = Market(env, wa=I('wa', lo=1, hi=100000), wb=I('wb', lo=500001, hi=900000), reserve_a=10 ** 12, reserve_b=10 ** 12,
                            supply=10 ** 12, stock=10 ** 9, fee=I('fee', lo=0, hi=30000), max_fee=30000, virt_a=virt, virtual_a=10 ** 9 if virt else None,
                            kind_a=c.get('kind', 'irc'))
        self.o, self.u, self.x = m.owner, env.account('trader'), env.account('outsider')
        self.net, self.nets = m.network, [m.network]
        self.convs, self.regs = [m.at], [m.registry]
        for t in (m.A, m.B, m.F):
            t.give(self.u, 10 * N)
        if c.get('kind') == 'icx':
            env.must(self.o, self.net, 'registerIcxToken', dict(_icxToken=m.A.at, _register=True))
            env.world.fund_icx(self.u, 10 * N)
        # the owner of another market
        self.o2 = env.account('neighbour')
        for t in (m.A, m.B):
            t.give(self.o2, 10 ** 6)
        self.others = []
        self.shut = env.world.place('shut', Sink)
        env.world.find_score(self.shut).closed = True
        self.meanwhile()

    def meanwhile(self):
        if self.between:
            n = len(self.env.results)
            self.between(self)
            del self.env.results[n:]

    def path(self, *toks):
        return ','.join(str(t.at) for t in toks)

    def routes(self):
        A, B, F = self.m.A, self.m.B, self.m.F
        return [(A, F, F), (F, F, B), (A, F, B)]

    def convert(self, who, route, net=None, n=N, ben=None, minimum=1):
        d = {'path': self.path(*route), 'minReturn': minimum}
        if ben is not None:
            d['for'] = str(ben)
        return self.env.tx(who, route[0].at, 'transfer', dict(_to=net or self.net, _value=n, _data=dumps(d)))

    def reads(self, ask):
        """Every read-only entry point, with the amounts and tokens of the story."""
        env, m = self.env, self.m
        for t in (m.A.at, m.B.at, m.F.at):
            for w in (self.u, self.x, self.o, self.net) + tuple(self.convs):
                ask(t, 'balanceOf', dict(_owner=w))
            for f in ('name', 'symbol', 'decimals', 'totalSupply'):
                ask(t, f)
        for f in ('getOwner', 'getNewOwner', 'getTransferPossibility', 'getFlexibleTokenVersion'):
            ask(m.F.at, f)
        for r in self.regs:
            for k in ('Network', 'ScoreRegistry', 'Unknown'):
                ask(r, 'getAddress', dict(_scoreName=k))
            for f in ('getOwner', 'getNewOwner', 'getScoreIds'):
                ask(r, f)
        for n in self.nets:
            for f in ('getOwner', 'getNewOwner'):
                ask(n, f)
            for t in (m.A.at, m.B.at, m.F.at, self.x):
                ask(n, 'getIcxTokenRegistered', dict(_icxToken=t))
            for route in self.routes():
                ask(n, 'getExpectedReturnByPath', dict(_path=self.path(*route), _amount=N))
        for c in self.convs:
            for f in ('isAllowRegistryUpdate', 'isActive', 'getPreviousRegistry', 'getRegistry', 'getConnectorTokenCount',
                      'getMaxConversionFee', 'getConversionFee', 'isConversionsEnabled', 'getToken', 'getManager',
                      'getNewManager', 'getOwner', 'getNewOwner'):
                ask(c, f)
            for i in (0, 1):
                ask(c, 'getConnectorAt', dict(_index=i))
            for t in (m.A.at, m.B.at, m.F.at):
                ask(c, 'getConnector', dict(_address=t))
                ask(c, 'getConnectorBalance', dict(_connectorToken=t))
            for a, f, b in self.routes():
                ask(c, 'getReturn', dict(_fromToken=a.at, _toToken=b.at, _amount=N))
            for k in (1, 2):
                ask(c, 'getFinalAmount', dict(_amount=N, _magnitude=k))

    def tell(self):
        env, m, o, u = self.env, self.m, self.o, self.u
        for route in self.routes()[::2]:
            r = self.convert(u, route)
            if not r.ok:
                env.setup_failed('no conversion')
            # nothing hinges on returns of nothing at all, or out of all proportion
            env.assume(r.named('Conversion')[0][4] <= 10 ** 6)
        self.meanwhile()
        # disturbed throughout, and asked before converting; or left in peace after the change
        asking = env.choice('throughout', [True, False])
        for i in range(2 if env.config.get('thorough') else 1):
            getattr(self, env.choice('then' if not i else 'and then', CHANGES).replace(' ', '_'))()
            if asking:
                self.meanwhile()
        # and what is possible now
        q = env.q
        if asking:
            self.reads(q)
        for i, route in enumerate(self.routes()):
            if asking:
                y = q(self.convs[-1], 'getReturn', dict(_fromToken=route[0].at, _toToken=route[2].at, _amount=N))
                if y.ok:
                    env.assume(env.And(y.ret['amount'] >= 1, y.ret['amount'] <= 10 ** 6))
            r = self.convert(u, route, ben=None if i else self.x)
            if not asking and r.ok:
                env.assume(r.named('Conversion')[0][4] <= 10 ** 6)
        for n in self.nets[:-1]:
            self.convert(u, self.routes()[0], n)
        if env.config.get('kind') == 'icx':
            env.tx(u, self.net, 'convert', dict(_path=self.path(m.A, m.F, m.B), _minReturn=1), value=N)
            self.convert(u, (m.B, m.F, m.A))
        env.tx(o, m.at, 'setConversionFee', dict(_conversionFee=77))
        env.tx(self.x, m.at, 'disableConversions', dict(_disable=True))
        env.tx(o, m.at, 'withdrawTokens', dict(_token=m.A.at, _to=u, _amount=7))
        env.tx(u, m.F.at, 'transfer', dict(_to=self.x, _value=N))
        env.tx(u, m.F.at, 'destroy', dict(_from=u, _amount=N))
        env.tx(self.x, m.at, 'updateRegistry')
        self.reads(q)

    # -- what may happen in the meantime
    def nothing(self):
        pass

    def network_replaced(self):
        n = self.env.must_deploy(self.env.uniq('network2'), Network, self.o, {})
        self.env.must(self.o, self.m.registry, 'registerAddress', dict(_scoreName='Network', _scoreAddress=n))
        self.nets.append(n)
        self.net = n

    def network_withdrawn(self):
        self.env.must(self.o, self.m.registry, 'unregisterAddress', dict(_scoreName='Network'))

    def converter_replaced(self):
        env, o, m = self.env, self.o, self.m
        c = env.must_deploy(env.uniq('converter2'), Converter, o, dict(_token=m.F.at, _registry=m.registry, _maxConversionFee=MAX_WEIGHT,
                                                             _connectorToken=m.A.at, _connectorWeight=100000))
        env.must(o, c, 'addConnector', dict(_token=m.B.at, _weight=200000, _enableVirtualBalance=False))
        env.must(o, m.at, 'transferTokenOwnership', dict(_newOwner=o))
        env.must(o, m.F.at, 'acceptOwnerShip')
        for t in (m.A, m.B):
            env.must(o, m.at, 'withdrawTokens', dict(_token=t.at, _to=o, _amount=10 ** 11))
            t.give(c, 10 ** 11)
        env.must(o, m.F.at, 'transferOwnerShip', dict(_newOwner=c))
        env.must(o, c, 'acceptTokenOwnership')
        self.convs.append(c)

    def tokens_destroyed(self):
        self.env.must(self.o, self.m.at, 'transferTokenOwnership', dict(_newOwner=self.o))
        self.env.must(self.o, self.m.F.at, 'acceptOwnerShip')
        self.env.must(self.o, self.m.F.at, 'destroy', dict(_from=self.o, _amount=10 ** 11))
        self.env.must(self.o, self.m.F.at, 'transferOwnerShip', dict(_newOwner=self.m.at))
        self.env.must(self.o, self.m.at, 'acceptTokenOwnership')

    def holder_destroys(self):
        self.env.must(self.o, self.m.F.at, 'destroy', dict(_from=self.o, _amount=10 ** 10))

    def weight_changed(self):
        self.env.must(self.o, self.m.at, 'updateConnector', dict(
            _connectorToken=self.m.A.at, _weight=self.env.int('new weight', lo=1, hi=100000), _enableVirtualBalance=False,
            _virtualBalance=0))

    def virtual_balance(self):
        self.env.must(self.o, self.m.at, 'updateConnector', dict(
            _connectorToken=self.m.B.at, _weight=500000, _enableVirtualBalance=True,
            _virtualBalance=self.env.int('virtual', lo=1)))

    def fee_changed(self):
        self.env.must(self.o, self.m.at, 'setConversionFee', dict(_conversionFee=self.env.int('new fee', lo=0, hi=30000)))

    def purchases_off(self):
        self.env.must(self.o, self.m.at, 'disableConnectorPurchases', dict(_connectorToken=self.m.B.at, _disable=True))

    def conversions_off(self):
        self.env.must(self.o, self.m.at, 'disableConversions', dict(_disable=True))

    def transfers_off(self):
        self.env.must(self.o, self.m.at, 'disableTokenTransfers', dict(_disable=True))

    def reserve_grows(self):
        self.m.A.give(self.o, 1)
        env, o, m = self.env, self.o, self.m
        env.must(o, m.at, 'transferTokenOwnership', dict(_newOwner=o))
        env.must(o, m.F.at, 'acceptOwnerShip')
        m.A.give(m.at, N)
        env.must(o, m.F.at, 'transferOwnerShip', dict(_newOwner=m.at))
        env.must(o, m.at, 'acceptTokenOwnership')

    def registry_replaced(self):
        env, o, m = self.env, self.o, self.m
        r = env.must_deploy(env.uniq('registry2'), ScoreRegistry, o, {})
        n = env.must_deploy(env.uniq('network2'), Network, o, {})
        env.must(o, r, 'registerAddress', dict(_scoreName='Network', _scoreAddress=n))
        env.must(o, m.registry, 'registerAddress', dict(_scoreName='ScoreRegistry', _scoreAddress=r))
        env.must(self.x, m.at, 'updateRegistry')
        self.regs.append(r)
        self.nets.append(n)
        self.net = n

    def roles_moved(self):
        env, o, m, x = self.env, self.o, self.m, self.x
        for c in (m.at, m.registry, self.net):
            env.must(o, c, 'transferOwnerShip', dict(_newOwner=x))
            env.must(x, c, 'acceptOwnerShip')
        env.must(o, m.at, 'transferManagement', dict(_newManager=self.u))
        env.must(self.u, m.at, 'acceptManagement')

    def icx_token_changed(self):
        on = self.env.config.get('kind') != 'icx'
        self.env.must(self.o, self.net, 'registerIcxToken', dict(_icxToken=self.m.A.at, _register=on))


CHANGES = ['nothing', 'network replaced', 'network withdrawn', 'converter replaced', 'tokens destroyed', 'holder destroys',
           'weight changed', 'virtual balance', 'fee changed', 'purchases off', 'conversions off', 'transfers off',
           'reserve grows', 'registry replaced', 'roles moved', 'icx token changed']


def reading(s):
    s.reads(s.env.q)


def reading_for_others(s):
    s.reads(lambda at, f, kw=None: s.env.tx(s.x, at, f, kw or {}))


def reloading(s):
    restart(s.env)


def upgrading(s):
    for a, score in list(s.env.world.scores):
        if type(score).__module__.startswith('contracts.'):
            r = s.env.update(a, s.x)
            if not r.ok:
                s.env.setup_failed('upgrade refused')


def refused(s):
    env, m = s.env, s.m

    def no(who, at, method, value=0, **kw):
        if env.tx(who, at, method, kw, value=value).ok:
            env.setup_failed('%s accepted' % method)
    z = env.account('nobody')
    for a in ('A', 'B', 'F'):
        t = getattr(m, a)
        no(z, t.at, 'transfer', _to=s.u, _value=1)
        no(s.u, t.at, 'transfer', _to=z, _value=-1)
        no(s.u, t.at, 'transfer', _to=s.shut, _value=1)
    A, B, F = m.A, m.B, m.F
    for route in s.routes():
        y = env.q(s.convs[-1], 'getReturn', dict(_fromToken=route[0].at, _toToken=route[2].at, _amount=N))
        if y.ok:
            env.assume(env.And(y.ret['amount'] >= 1, y.ret['amount'] <= 10 ** 6))
        for n in s.nets:
            # the first of these goes all the way
            for kw in (dict(ben=s.shut), dict(minimum=0), dict(n=10 ** 30), dict(n=0)):
                if s.convert(s.u, route, n, **kw).ok:
                    env.setup_failed('converted')
    for n in s.nets:
        for route in ((A, F), (A, F, F, F, B), (A, A, F), (B, F, F, F, F)):
            if s.convert(s.u, route, n, ben=s.shut).ok:
                env.setup_failed('converted')
    if env.config.get('kind') == 'icx':
        for n in s.nets:
            for ben in (s.shut, n, ZERO):
                no(s.u, n, 'convertFor', N, _path=s.path(A, F, B), _minReturn=1, _for=ben)
            no(s.u, n, 'convertFor', N, _path=s.path(B, F, A), _minReturn=1, _for=s.shut)
        no(s.u, A.at, 'withdrawTo', _amount=1, _to=s.shut)
        no(s.u, A.at, 'withdraw', _amount=10 ** 40)
        no(z, A.at, 'withdraw', _amount=1)
    for c in s.convs:
        for v in (5, 30001, -1):
            no(z, c, 'setConversionFee', _conversionFee=v)
        for who in (s.o, s.x, s.u):
            no(who, c, 'setConversionFee', _conversionFee=MAX_WEIGHT + 1)
            for t, w in ((m.A, MAX_WEIGHT + 1), (m.A, 0), (m.F, 5), (m.B, MAX_WEIGHT)):
                for on in (True, False):
                    no(who, c, 'updateConnector', _connectorToken=t.at, _weight=w, _enableVirtualBalance=on, _virtualBalance=99)
            no(who, c, 'addConnector', _token=m.A.at, _weight=3, _enableVirtualBalance=True)
            no(who, c, 'disableConnectorPurchases', _connectorToken=m.F.at, _disable=True)
            no(who, c, 'withdrawTokens', _token=m.A.at, _to=c, _amount=1)
        for f in (True, False):
            for g in ('disableConversions', 'disableRegistryUpdate', 'disableTokenTransfers'):
                no(z, c, g, _disable=f)
            no(z, c, 'disableConnectorPurchases', _connectorToken=m.B.at, _disable=f)
            no(z, c, 'updateConnector', _connectorToken=m.A.at, _weight=9, _enableVirtualBalance=f, _virtualBalance=99)
        no(z, c, 'restoreRegistry')
        no(z, c, 'transferManagement', _newManager=z)
        no(z, c, 'acceptManagement')
        no(z, c, 'transferTokenOwnership', _newOwner=z)
        no(z, c, 'acceptTokenOwnership')
        no(z, c, 'withdrawTokens', _token=m.A.at, _to=z, _amount=1)
        no(z, c, 'withdrawFromToken', _token=m.A.at, _to=z, _amount=1)
    no(z, m.F.at, 'issue', _to=z, _amount=5)
    no(z, m.F.at, 'destroy', _from=s.u, _amount=1)
    no(z, m.F.at, 'disableTransfer', _disable=True)
    for r in s.regs:
        no(z, r, 'registerAddress', _scoreName='Network', _scoreAddress=m.at)
        no(z, r, 'unregisterAddress', _scoreName='Network')
        for who in (s.o, s.x):
            no(who, r, 'registerAddress', _scoreName='Unknown', _scoreAddress=m.at)
            no(who, r, 'registerAddress', _scoreName='Network', _scoreAddress=z)
    for n in s.nets:
        for f in (True, False):
            no(z, n, 'registerIcxToken', _icxToken=m.A.at, _register=f)
            for who in (s.o, s.x):
                no(who, n, 'registerIcxToken', _icxToken=n, _register=f)
    for at in s.convs + s.regs + s.nets + [m.F.at]:
        no(z, at, 'transferOwnerShip', _newOwner=z)
        no(z, at, 'acceptOwnerShip')


def elsewhere(s):
    """Another market, with the same network, registry and connector tokens, opens and is busy."""
    env, m, o = s.env, s.m, s.o2

    def do(who, at, method, **kw):
        env.must(who, at, method, kw)
    if not s.others:
        g = env.must_deploy(env.uniq('tokenG'), FlexibleToken, o, dict(_name='G', _symbol='G', _initialSupply=10 ** 6, _decimals=0))
        c = env.must_deploy(env.uniq('converterG'), Converter, o, dict(
            _token=g, _registry=m.registry, _maxConversionFee=500000, _connectorToken=m.A.at, _connectorWeight=300000))
        s.others = [g, c]
        do(o, c, 'addConnector', _token=m.B.at, _weight=500000, _enableVirtualBalance=True)
        do(o, c, 'updateConnector', _connectorToken=m.B.at, _weight=400000, _enableVirtualBalance=False, _virtualBalance=7)
        for t in (m.A, m.B):
            do(o, t.at, 'transfer', _to=c, _value=200000)
        do(o, g, 'transferOwnerShip', _newOwner=c)
        do(o, c, 'acceptTokenOwnership')
    g, c = s.others
    do(o, c, 'setConversionFee', _conversionFee=400000)
    do(o, c, 'setConversionFee', _conversionFee=1000)
    # conversions, as long as they are possible at all
    for path, n in (((m.A.at, g, g), 1000), ((g, g, m.B.at), 500), ((m.A.at, g, m.B.at), 1000)):
        y = env.q(s.net, 'getExpectedReturnByPath', dict(_path=','.join(map(str, path)), _amount=n))
        if y.ok:
            env.assume(env.And(y.ret >= 1, y.ret <= 10 ** 4))
        env.tx(o, path[0], 'transfer', dict(_to=s.net, _value=n, _data=dumps(
            {'path': ','.join(map(str, path)), 'minReturn': 1})))
    # everything is changed there
    do(o, c, 'updateConnector', _connectorToken=m.A.at, _weight=350000, _enableVirtualBalance=True, _virtualBalance=99)
    do(o, c, 'updateConnector', _connectorToken=m.A.at, _weight=300000, _enableVirtualBalance=False, _virtualBalance=0)
    for f in (True, False):
        do(o, c, 'disableConnectorPurchases', _connectorToken=m.B.at, _disable=f)
        do(o, c, 'disableTokenTransfers', _disable=f)
        do(o, c, 'disableRegistryUpdate', _disable=f)
    do(o, c, 'restoreRegistry')
    do(o, c, 'disableConversions', _disable=True)
    do(o, c, 'transferTokenOwnership', _newOwner=o)
    do(o, g, 'acceptOwnerShip')
    do(o, g, 'issue', _to=o, _amount=5)
    do(o, g, 'destroy', _from=o, _amount=5)
    do(o, c, 'withdrawTokens', _token=m.A.at, _to=o, _amount=10)
    do(o, g, 'transferOwnerShip', _newOwner=c)
    do(o, c, 'acceptTokenOwnership')
    do(o, c, 'disableConversions', _disable=False)
    do(o, c, 'disableConnectorPurchases', _connectorToken=m.A.at, _disable=True)
    env.q(c, 'getReturn', dict(_fromToken=m.B.at, _toToken=m.A.at, _amount=N))
    do(o, c, 'disableConnectorPurchases', _connectorToken=m.A.at, _disable=False)


def twice(env, between, label):
    a = Story(env)
    a.tell()
    first = env.results
    env.again(label)
    Story(env, between).tell()
    env.check(len(first) == len(env.results), label)
    for (w0, r0), (w1, r1) in zip(first, env.results):
        env.check(w0 == w1 and alike(env, r0, r1), label, w0)
    env.reach('compared')


KINDS = [{}, {'virtual': True}, {'kind': 'icx'}, {'thorough': True}]
STORY = ('a market with arbitrary weights and fee, conversions, one of %d changes of its circumstances, then every quote, '
         'conversions by current and former networks and administrative operations; ' % len(CHANGES))


@scenario('C38', configs=[dict(k, how=h) for k in KINDS for h in ('query', 'transaction')], reach=['compared'], formula='uf',
          weight=4, bound=STORY + 'with and without every read-only method, as a query or a transaction, in between')
def reading_leaves_no_trace(env):
    twice(env, reading if env.config['how'] == 'query' else reading_for_others, 'reading-leaves-no-trace')


@scenario('C37', configs=[dict(k, how=h) for k in KINDS for h in ('restart', 'upgrade')], reach=['compared'], formula='uf',
          weight=4, bound=STORY + 'with and without loading every contract again, or its upgrade hook, in between')
def restarting_leaves_no_trace(env):
    twice(env, reloading if env.config['how'] == 'restart' else upgrading, 'restarting-leaves-no-trace')


@scenario('C43', configs=KINDS, reach=['compared'], formula='uf', weight=4,
          bound=STORY + 'with and without refused requests of every kind in between, including conversions undone at '
                        'their very last step')
def refusal_leaves_no_trace(env):
    twice(env, refused, 'refusal-leaves-no-trace')


@scenario('C46', configs=KINDS, reach=['compared'], formula='uf', weight=4,
          bound=STORY + 'with and without another market sharing network, registry and connector tokens being opened, '
                        'used and reconfigured in between')
def markets_do_not_interfere(env):
    twice(env, elsewhere, 'markets-do-not-interfere')


# -- any operation at all, disturbed or not -------------------------------------------------------

def every_read(env, m, ask):
    for at in (m.A.at, m.F.at, m.icxt):
        for w in (m.owner, m.manager, m.candidate, m.caller, m.at, m.network):
            ask(at, 'balanceOf', dict(_owner=w))
        for f in ('name', 'symbol', 'decimals', 'totalSupply'):
            ask(at, f)
    for at in (m.F.at, m.icxt, m.registry, m.registry2, m.network, m.at):
        for f in ('getOwner', 'getNewOwner'):
            ask(at, f)
    for f in ('getTransferPossibility', 'getFlexibleTokenVersion'):
        ask(m.F.at, f)
    for at in (m.registry, m.registry2):
        for k in ('Network', 'ScoreRegistry', 'Unknown'):
            ask(at, 'getAddress', dict(_scoreName=k))
        ask(at, 'getScoreIds')
    for t in (m.A.at, m.icxt, m.candidate):
        ask(m.network, 'getIcxTokenRegistered', dict(_icxToken=t))
    for f in ('isAllowRegistryUpdate', 'isActive', 'getPreviousRegistry', 'getRegistry', 'getConnectorTokenCount',
              'getMaxConversionFee', 'getConversionFee', 'isConversionsEnabled', 'getToken', 'getManager', 'getNewManager'):
        ask(m.at, f)
    for i in (0, 1):
        ask(m.at, 'getConnectorAt', dict(_index=i))
    for t in (m.A.at, m.F.at, m.icxt):
        ask(m.at, 'getConnector', dict(_address=t))
        ask(m.at, 'getConnectorBalance', dict(_connectorToken=t))
    for k in (1, 2):
        ask(m.at, 'getFinalAmount', dict(_amount=N, _magnitude=k))


def disturb(env, m, how):
    n = len(env.results)
    z = env.account('outsider')
    if how == 'query':
        every_read(env, m, env.q)
    elif how == 'transaction':
        every_read(env, m, lambda at, f, kw=None: env.tx(z, at, f, kw or {}))
    elif how == 'contract':
        meddle(env, lambda ask: every_read(env, m, ask), m.meddler)
    elif how == 'restart':
        restart(env)
    elif how == 'upgrade':
        for a, score in list(env.world.scores):
            if type(score).__module__.startswith('contracts.'):
                if not env.update(a, z).ok:
                    env.setup_failed("upgrade refused")
    else:
        # whatever somebody without any role or means asks for
        for what, at in list(m.by.items()) + [('ScoreRegistry', m.registry2)]:
            for f, params, payable in entry_points(CLASSES[what]):
                if f in FREE:
                    continue
                kw = {p: {int: 1, bool: True, Address: m.A.at, str: '%s,%s,%s' % (m.A.at, m.F.at, m.F.at),
                          bytes: dumps({'toToken': str(m.F.at), 'path': '%s,%s,%s' % (m.A.at, m.F.at, m.F.at), 'minReturn': 1})}[t]
                      for p, t in params}
                if env.tx(z, at, f, kw).ok:
                    env.setup_failed('%s.%s accepted' % (what, f))
    del env.results[n:]


# what an account without a role or means can do
FREE = {None, 'updateRegistry', 'fallback', 'deposit'}


def any_call_twice(env, how, label):
    def tell(disturbed):
        m = rich_world(env, True)
        del env.results[:]
        if how == 'refused':
            z = env.account('outsider')
            env.assume(env.And(m.candidate != z, m.caller != z))
        m.meddler = env.world.place('meddler', Meddler) if how == 'contract' else None
        if disturbed:
            disturb(env, m, how)
        name, caller, args, r = any_call(env, m, env.config['what'])
        for e in r.named('Conversion') if r.ok else ():
            env.assume(e[4] <= 10 ** 6)
        every_read(env, m, env.q)
        if disturbed:
            env.reach('accepted' if r.ok else 'refused')
        return env.results
    first = tell(False)
    env.again(label)
    second = tell(True)
    env.check(len(first) == len(second), label)
    for (w0, r0), (w1, r1) in zip(first, second):
        env.check(w0 == w1 and alike(env, r0, r1), label, w0)
    env.reach('compared')


ANY = ('a state with arbitrary settings, pending offers and balances; one call of any entry point (discovered from the code) '
       'by anyone with arbitrary arguments, and everything that can be read afterwards; ')
EACH = [{'what': w} for w in OWNED + ['IRCToken']] + [{'what': w, 'phase': 'offered'} for w in ('FlexibleToken', 'Converter')]


@scenario('C38', configs=[dict(k, how=h) for k in EACH for h in ('query', 'transaction', 'contract')],
          reach=['compared', 'accepted', 'refused'], formula='uf', weight=3,
          bound=ANY + 'with and without every read-only method, as a query, a transaction or from a contract that scribbles on what it is handed, before it')
def reading_before_anything(env):
    any_call_twice(env, env.config['how'], 'reading-leaves-no-trace')


@scenario('C37', configs=[dict(k, how=h) for k in EACH for h in ('restart', 'upgrade')],
          reach=['compared', 'accepted', 'refused'], formula='uf', weight=3,
          bound=ANY + 'with and without loading every contract again, or its upgrade hook, before it')
def restarting_before_anything(env):
    any_call_twice(env, env.config['how'], 'restarting-leaves-no-trace')


@scenario('C43', configs=EACH, reach=['compared', 'accepted', 'refused'], formula='uf', weight=3,
          bound=ANY + 'with and without every other operation being asked for by somebody without any role or means before it')
def refusal_before_anything(env):
    any_call_twice(env, 'refused', 'refusal-leaves-no-trace')
