"""Builders shared by the scenarios: tokens, harness-side contracts, a funded market."""
import iconservice
from iconservice import IconScoreBase, external, payable, revert
from iconservice.base.address import Address, ZERO_SCORE_ADDRESS

from contracts.converter.converter import Converter
from contracts.flexible_token.flexible_token import FlexibleToken
from contracts.icx_token.icx_token import IcxToken
from contracts.irc_token.irc_token import IRCToken
from contracts.network.network import Network
from contracts.score_registry.score_registry import ScoreRegistry

MAX_WEIGHT = 1000000
ZERO = ZERO_SCORE_ADDRESS
TOKENS = [{'kind': 'irc'}, {'kind': 'flexible'}, {'kind': 'icx'}] + [
    {'kind': k, 'hist': 'used'} for k in ('irc', 'flexible', 'icx')]


class Sink(IconScoreBase):
    """A contract that accepts tokens and ICX and remembers what it was told."""

    def __init__(self, db):
        super().__init__(db)

    def on_install(self):
        pass

    def on_update(self):
        pass

    def init(self, world, *args):
        self.world = world
        self.told = []
        self.closed = False

    @payable
    def fallback(self):
        if self.closed:
            revert('closed')
        self.told.append(('icx', self.msg.sender, self.msg.value))

    @external
    def tokenFallback(self, _from: Address, _value: int, _data: bytes):
        if self.closed:
            revert('closed')
        self.told.append((self.msg.sender, _from, _value, _data))


class Meddler(IconScoreBase):
    """A contract that reads from others and scribbles on whatever it is handed."""

    def __init__(self, db):
        super().__init__(db)

    def on_install(self):
        pass

    def on_update(self):
        pass

    def init(self, world):
        self.plan = None

    @external
    def go(self):
        self.plan(self.read)

    def read(self, at, method, kw=None):
        from iconservice.base.exception import IconServiceBaseException
        try:
            v = self.call(at, method, dict(kw or {}))
        except IconServiceBaseException:
            return
        if type(v) is list:
            v.append('meddled')
            v.reverse()
        elif type(v) is dict:
            for k in v:
                v[k] = None
            v['meddled'] = 1


def meddle(env, plan, c=None):
    """plan(ask): what the contract reads."""
    c = c or env.world.place(env.uniq('meddler'), Meddler)
    env.world.find_score(c).plan = plan
    env.must(env.account('outsider'), c, 'go')


def dumps(d):
    return iconservice.json_dumps(d).encode('utf-8')


class Tok:
    """A token of one of the three kinds, with a way to give balances to accounts."""

    def __init__(self, env, kind, supply, name='token', owner=None):
        self.env, self.kind, self.name = env, kind, name
        self.owner = owner or env.account('deployer')
        if kind == 'icx':
            self.at = env.must_deploy(name, IcxToken, self.owner, {})
            env.world.fund_icx(self.owner, supply)
            env.must(self.owner, self.at, 'deposit', {}, value=supply)
        else:
            cls = IRCToken if kind == 'irc' else FlexibleToken
            self.at = env.must_deploy(name, cls, self.owner,
                                      dict(_name='T', _symbol='T', _initialSupply=supply, _decimals=0))
        self.users = []
        if env.config.get('hist') == 'used':
            self.use_before()

    def use_before(self):
        """The token has been in use: every operation of it has succeeded before, by and for several accounts."""
        env, o, at = self.env, self.owner, self.at
        u, v = env.account('formeruser'), env.account('formerfriend')
        n = env.int('used', lo=4)
        if self.kind == 'icx':
            env.world.fund_icx(u, n)
            env.must(u, at, 'deposit', {}, value=n)
        elif self.kind == 'flexible':
            env.must(o, at, 'issue', dict(_to=u, _amount=n))
            env.must(o, at, 'disableTransfer', dict(_disable=True))
            env.must(o, at, 'disableTransfer', dict(_disable=False))
        else:
            env.must(o, at, 'transfer', dict(_to=u, _value=n))
        s = env.world.place('formersink' + self.name, Sink)
        self.users = [u, v, s]
        env.must(u, at, 'transfer', dict(_to=v, _value=2, _data=b'first'))
        env.must(u, at, 'transfer', dict(_to=s, _value=1, _data=b'second'))
        env.must(v, at, 'transfer', dict(_to=u, _value=1))
        if self.kind == 'icx':
            env.must(v, at, 'withdraw', dict(_amount=1))
            env.must(u, at, 'withdrawTo', dict(_amount=1, _to=o))
        elif self.kind == 'flexible':
            env.must(v, at, 'destroy', dict(_from=v, _amount=1))
            env.must(o, at, 'destroy', dict(_from=u, _amount=1))
        if self.kind != 'irc':
            for a, b in ((o, v), (v, o)):
                env.must(a, at, 'transferOwnerShip', dict(_newOwner=b))
                env.must(b, at, 'acceptOwnerShip')
        # and what is not allowed has been tried; the last ones fail only when the receiver refuses
        env.world.find_score(s).closed = True
        for who, method, kw in [(u, 'transfer', dict(_to=v, _value=-1)), (v, 'transfer', dict(_to=u, _value=n + 10)),
                                (u, 'transfer', dict(_to=s, _value=1))] + {
                'irc': [], 'icx': [(u, 'withdraw', dict(_amount=n + 10)), (u, 'withdrawTo', dict(_amount=-1, _to=u)),
                                   (u, 'withdrawTo', dict(_amount=1, _to=s))],
                'flexible': [(v, 'issue', dict(_to=v, _amount=9)), (v, 'destroy', dict(_from=u, _amount=1)),
                             (o, 'destroy', dict(_from=v, _amount=n + 10)), (o, 'issue', dict(_to=at, _amount=9)),
                             (v, 'disableTransfer', dict(_disable=True))]}[self.kind]:
            if env.tx(who, at, method, kw).ok:
                env.setup_failed('%s accepted' % method)
        env.world.find_score(s).closed = False
        if env.choice('loaded again', [False, True]):
            restart(env)

    def give(self, to, amount):
        self.env.must(self.owner, self.at, 'transfer', dict(_to=to, _value=amount))

    def bal(self, who):
        return self.env.get(self.at, 'balanceOf', _owner=who)

    def supply(self):
        return self.env.get(self.at, 'totalSupply')


def restart(env):
    """Every contract under test is loaded again from what it has stored."""
    for a, score in list(env.world.scores):
        if type(score).__module__.startswith('contracts.'):
            env.world.reload(a)


class Market:
    """One flexible token with a converter and up to two connector tokens, a registry and a network.

    Everything is set up through the contracts' own interface; amounts, weights, fee and virtual balances may be
    symbolic."""

    def __init__(self, env, wa=None, wb=None, virt_a=False, virt_b=False, fee=None, max_fee=None, real_network=True,
                 activate=True, reserve_a=None, reserve_b=None, supply=None, kind_a='irc', kind_b='irc',
                 virtual_a=None, virtual_b=None, stock=None, stock_f=None, n='', registry=None, network=None, tok_a=None):
        self.env = env
        self.owner = env.account('owner')
        I = env.int
        self.stock = stock if stock is not None else I('stock' + n, lo=0)
        self.supply0 = supply if supply is not None else I('supply' + n, lo=1)
        self.ra = reserve_a if reserve_a is not None else I('reserveA' + n, lo=0)
        self.wa = wa if wa is not None else I('weightA' + n, lo=1, hi=MAX_WEIGHT)
        self.A = tok_a or Tok(env, kind_a, self.ra + self.stock, 'tokenA' + n, self.owner)
        self.F = Tok(env, 'flexible', self.supply0, 'tokenF' + n, self.owner)
        self.B = None
        if wb is not None or reserve_b is not None or virt_b:
            self.rb = reserve_b if reserve_b is not None else I('reserveB' + n, lo=0)
            self.wb = wb
            self.B = Tok(env, kind_b, self.rb + self.stock, 'tokenB' + n, self.owner)
        if registry is None:
            self.registry = env.must_deploy('registry', ScoreRegistry, self.owner, {})
            if real_network:
                self.network = env.must_deploy('network', Network, self.owner, {})
            else:
                self.network = env.world.place('network', Sink)
            env.must(self.owner, self.registry, 'registerAddress', dict(_scoreName='Network', _scoreAddress=self.network))
        else:
            self.registry, self.network = registry, network
        self.real_network = real_network
        self.C = None
        self.max_fee = max_fee if max_fee is not None else MAX_WEIGHT
        self.at = env.must_deploy('converter' + n, Converter, self.owner, dict(
            _token=self.F.at, _registry=self.registry, _maxConversionFee=self.max_fee,
            _connectorToken=self.A.at, _connectorWeight=self.wa))
        self.hist = env.config.get('hist') in ('changed', 'restarted')
        if self.hist:
            # uninvolved connectors in between
            self.C = Tok(env, 'irc', 5000, 'tokenC' + n, self.owner)
            env.assume(self.wa + (wb if wb is not None else 0) <= MAX_WEIGHT - 7)
            env.must(self.owner, self.at, 'addConnector', dict(_token=self.C.at, _weight=4, _enableVirtualBalance=False))
            self.C.give(self.at, 3000)
            for k in 'DEG':
                env.must(self.owner, self.at, 'addConnector', dict(
                    _token=env.world.place('token' + k + n, Sink), _weight=1, _enableVirtualBalance=k == 'D'))
        if self.B:
            env.must(self.owner, self.at, 'addConnector', dict(_token=self.B.at, _weight=self.wb,
                                                                _enableVirtualBalance=bool(virt_b)))
        if self.ra > 0:
            self.A.give(self.at, self.ra)
        if self.B and self.rb > 0:
            self.B.give(self.at, self.rb)
        if virt_a:
            self.va = virtual_a if virtual_a is not None else I('virtualA' + n, lo=0)
            env.must(self.owner, self.at, 'updateConnector', dict(
                _connectorToken=self.A.at, _weight=self.wa, _enableVirtualBalance=True, _virtualBalance=self.va))
        if virt_b:
            self.vb = virtual_b if virtual_b is not None else I('virtualB' + n, lo=0)
            env.must(self.owner, self.at, 'updateConnector', dict(
                _connectorToken=self.B.at, _weight=self.wb, _enableVirtualBalance=True, _virtualBalance=self.vb))
        if fee is not None:
            env.must(self.owner, self.at, 'setConversionFee', dict(_conversionFee=fee))
        self.fee = fee if fee is not None else 0
        self.stock_f = stock_f
        if activate and env.config.get('hist') == 'moved':
            self.former_converter(n)
        if env.config.get('hist') == 'owns':
            # some of its own token was issued to the converter, and some of it has been withdrawn again
            own = I('own' + n, lo=2)
            env.must(self.owner, self.F.at, 'issue', dict(_to=self.at, _amount=own))
            env.must(self.owner, self.F.at, 'destroy', dict(_from=self.owner, _amount=own))
            env.must(self.owner, self.at, 'withdrawTokens', dict(_token=self.F.at, _to=self.owner, _amount=1))
        if activate:
            env.must(self.owner, self.F.at, 'transferOwnerShip', dict(_newOwner=self.at))
            env.must(self.owner, self.at, 'acceptTokenOwnership')
        if self.hist:
            self.unsettle(activate, virt_a, virt_b)
        self.active = activate
        if env.config.get('hist') == 'attempted':
            self.attempts()
        if env.config.get('hist') == 'restarted':
            restart(env)

    def former_converter(self, n):
        """Another converter has issued and bought back the flexible token before; it was emptied and given up."""
        env, o, f, a, net = self.env, self.owner, self.F, self.A, self.network
        env.assume(a.bal(o) >= 1000)
        old = self.former = env.must_deploy('formerconverter' + n, Converter, o, dict(
            _token=f.at, _registry=self.registry, _maxConversionFee=MAX_WEIGHT, _connectorToken=a.at,
            _connectorWeight=400000))
        a.give(old, 900)
        env.must(o, f.at, 'transferOwnerShip', dict(_newOwner=old))
        env.must(o, old, 'acceptTokenOwnership')
        if self.real_network:
            env.must(o, a.at, 'transfer', dict(_to=net, _value=100, _data=dumps(
                {'path': ','.join(map(str, (a.at, f.at, f.at))), 'minReturn': 1})))
            env.q(net, 'getExpectedReturnByPath', dict(_path=','.join(map(str, (f.at, f.at, a.at))), _amount=1))
        else:
            a.give(net, 100)
            env.must(net, a.at, 'transfer', dict(_to=old, _value=100, _data=dumps(
                {'toToken': str(f.at), 'minReturn': 1})))
            env.must(net, f.at, 'transfer', dict(_to=o, _value=f.bal(net)))
        env.must(o, f.at, 'destroy', dict(_from=o, _amount=f.supply() - self.supply0))
        env.must(o, old, 'transferTokenOwnership', dict(_newOwner=o))
        env.must(o, f.at, 'acceptOwnerShip')
        env.must(o, old, 'withdrawTokens', dict(_token=a.at, _to=o, _amount=a.bal(old)))

    def unsettle(self, active, virt_a, virt_b):
        """A long history of changes of every setting that ends in the settings asked for: nothing about it may matter
        to what the contracts do now."""
        env, o, c = self.env, self.owner, self.at
        tmp, old_net = env.account('former owner'), env.world.place('formernetwork' + self.F.name, Sink)
        env.must(o, c, 'setConversionFee', dict(_conversionFee=self.max_fee))
        env.must(o, c, 'setConversionFee', dict(_conversionFee=self.fee))
        if active:
            env.must(o, c, 'disableConversions', dict(_disable=True))
            env.must(o, c, 'disableConversions', dict(_disable=False))
            env.must(o, c, 'transferTokenOwnership', dict(_newOwner=o))
            env.must(o, self.F.at, 'acceptOwnerShip')
            env.must(o, self.F.at, 'disableTransfer', dict(_disable=True))
            env.must(o, self.F.at, 'disableTransfer', dict(_disable=False))
            env.must(o, self.F.at, 'transferOwnerShip', dict(_newOwner=c))
            env.must(o, c, 'acceptTokenOwnership')
        else:
            env.must(o, self.F.at, 'transferOwnerShip', dict(_newOwner=c))
            env.must(o, c, 'acceptTokenOwnership')
            env.must(o, c, 'transferTokenOwnership', dict(_newOwner=o))
            env.must(o, self.F.at, 'acceptOwnerShip')
        for t, w, on, virt in ((self.A, self.wa, virt_a, getattr(self, 'va', None)),
                               (self.B, getattr(self, 'wb', None), virt_b, getattr(self, 'vb', None))):
            if t is None:
                continue
            env.must(o, c, 'disableConnectorPurchases', dict(_connectorToken=t.at, _disable=True))
            env.must(o, c, 'updateConnector', dict(_connectorToken=t.at, _weight=1, _enableVirtualBalance=not on,
                                                   _virtualBalance=12345))
            env.must(o, c, 'updateConnector', dict(_connectorToken=t.at, _weight=w, _enableVirtualBalance=bool(on),
                                                   _virtualBalance=virt if on else 777))
            env.must(o, c, 'disableConnectorPurchases', dict(_connectorToken=t.at, _disable=False))
        # converter and registry change hands and come back; the manager stays a third account
        for at in (c, self.registry):
            for a, b in ((o, tmp), (tmp, o)):
                env.must(a, at, 'transferOwnerShip', dict(_newOwner=b))
                env.must(b, at, 'acceptOwnerShip')
        # the converter moves on to another registry; the former one now names another network
        reg2 = env.must_deploy('registry2' + self.F.name, ScoreRegistry, o, {})
        env.must(o, reg2, 'registerAddress', dict(_scoreName='Network', _scoreAddress=old_net))
        env.must(o, reg2, 'registerAddress', dict(_scoreName='Network', _scoreAddress=self.network))
        env.must(o, self.registry, 'registerAddress', dict(_scoreName='ScoreRegistry', _scoreAddress=reg2))
        env.must(o, c, 'updateRegistry')
        env.must(o, self.registry, 'registerAddress', dict(_scoreName='Network', _scoreAddress=old_net))
        self.old_registry, self.registry, self.old_network = self.registry, reg2, old_net

    def attempts(self):
        """Everything has been tried by those who may not, and with what is not allowed.  Nothing of it may have had any
        effect, not even until the contracts are loaded again."""
        env, o, c, f = self.env, self.owner, self.at, self.F.at
        x = env.account('outsider')
        a, big = self.A.at, MAX_WEIGHT + 1
        for t in (self.A, self.B, self.F):
            if t is not None:
                env.assume(t.bal(o) >= 10)

        def no(who, at, method, **kw):
            if env.tx(who, at, method, kw).ok:
                env.setup_failed('%s accepted' % method)
        for who, fee in ((x, 0), (x, self.max_fee), (o, big), (o, -1), (o, self.max_fee + 1)):
            no(who, c, 'setConversionFee', _conversionFee=fee)
        for who, kw in ((x, dict(_connectorToken=a, _weight=5, _virtualBalance=99)),
                        (o, dict(_connectorToken=a, _weight=0, _virtualBalance=99)),
                        (o, dict(_connectorToken=a, _weight=big, _virtualBalance=99)),
                        (o, dict(_connectorToken=f, _weight=5, _virtualBalance=99))):
            for on in (True, False):
                no(who, c, 'updateConnector', _enableVirtualBalance=on, **kw)
        no(o, c, 'addConnector', _token=a, _weight=5, _enableVirtualBalance=True)
        no(o, c, 'addConnector', _token=x, _weight=big, _enableVirtualBalance=True)
        no(x, c, 'addConnector', _token=x, _weight=1, _enableVirtualBalance=False)
        for flag in (True, False):
            no(x, c, 'disableConnectorPurchases', _connectorToken=a, _disable=flag)
            no(o, c, 'disableConnectorPurchases', _connectorToken=f, _disable=flag)
            no(x, c, 'disableConversions', _disable=flag)
            no(x, c, 'disableRegistryUpdate', _disable=flag)
            no(x, c, 'disableTokenTransfers', _disable=flag)
            no(x, f, 'disableTransfer', _disable=flag)
        no(x, c, 'restoreRegistry')
        no(o, c, 'updateRegistry')          # it points to itself
        no(x, self.registry, 'registerAddress', _scoreName='Network', _scoreAddress=x)
        no(o, self.registry, 'registerAddress', _scoreName='Unknown', _scoreAddress=c)
        for at in (c, self.registry) + ((self.network,) if self.real_network else ()):
            no(x, at, 'transferOwnerShip', _newOwner=x)
            no(x, at, 'acceptOwnerShip')
            no(o, at, 'transferOwnerShip', _newOwner=o)
        no(x, c, 'transferManagement', _newManager=x)
        no(x, c, 'acceptManagement')
        no(x, c, 'transferTokenOwnership', _newOwner=x)
        no(x, c, 'acceptTokenOwnership')
        no(x, c, 'withdrawTokens', _token=a, _to=x, _amount=1)
        no(x, f, 'issue', _to=x, _amount=5)
        no(o, f, 'issue', _to=f, _amount=5)
        no(x, f, 'destroy', _from=o, _amount=1)
        no(o, f, 'destroy', _from=x, _amount=1)
        for t in (self.A, self.B, self.F):
            if t is not None:
                no(x, t.at, 'transfer', _to=o, _value=1)
                no(o, t.at, 'transfer', _to=x, _value=-1)
        # requests that are refused at the start, and the last of them when the proceeds arrive
        for t, y in ((self.A, self.F), (self.F, self.A)):
            n = 2
            if self.real_network:
                t.give(x, n)
                for d in ({'path': ','.join(map(str, (t.at, f, y.at))), 'minReturn': 0}, {'path': str(t.at), 'minReturn': 1}):
                    no(x, t.at, 'transfer', _to=self.network, _value=n, _data=dumps(d))
                env.must(x, t.at, 'transfer', dict(_to=o, _value=n))
            else:
                t.give(self.network, n)
                for d in ({'toToken': str(y.at), 'minReturn': 0}, {'toToken': str(t.at), 'minReturn': 1}):
                    no(self.network, t.at, 'transfer', _to=c, _value=n, _data=dumps(d))
                if t is not self.A:
                    env.world.find_score(self.network).closed = True
                    no(self.network, t.at, 'transfer', _to=c, _value=n, _data=dumps({'toToken': str(y.at), 'minReturn': 1}))
                    env.world.find_score(self.network).closed = False
                env.must(self.network, t.at, 'transfer', dict(_to=o, _value=n))

    def request(self, token, amount, to, min_return, frm=None):
        """The network asks the converter to convert `amount` of `token` into `to`."""
        return self.env.tx(frm or self.network, token.at, 'transfer', dict(
            _to=self.at, _value=amount, _data=dumps({'toToken': str(to.at), 'minReturn': min_return})))

    def q(self, method, **kw):
        return self.env.get(self.at, method, **kw)

    def connector_balance(self, tok):
        return self.q('getConnectorBalance', _connectorToken=tok.at)

    def connector(self, tok):
        return self.q('getConnector', _address=tok.at)

    def snapshot(self, *accounts):
        """Everything observable about the market: reserves, supply, holdings, connector data."""
        toks = [t for t in (self.A, self.C, self.B, self.F) if t]
        s = {'supply': [t.supply() for t in toks],
             'hold': [[t.bal(x) for t in toks] for x in (self.at, self.network) + accounts],
             'conn': [self.connector(t) for t in toks if t is not self.F]}
        return s


def same(env, a, b):
    """Structural equality of observed values, as a condition."""
    if isinstance(a, dict):
        if not isinstance(b, dict) or sorted(a) != sorted(b):
            return False
        return env.And(*[same(env, a[k], b[k]) for k in a]) if a else True
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return False
        return env.And(*[same(env, x, y) for x, y in zip(a, b)]) if a else True
    return env.eqv(a, b)


def is_event(env, got, want):
    """One event's arguments equal the expected ones."""
    return same(env, list(got), list(want))


def rejected_when(env, r, cond, label):
    """If cond then the operation must have failed."""
    env.check(env.Implies(cond, not r.ok), label)

# the helpers the power function is composed of
HELPERS = ('_optimal_log', '_general_log', '_optimal_exp', '_general_exp')
