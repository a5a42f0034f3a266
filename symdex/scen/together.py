"""Conversions inside conversions, and states that can always be left again."""
from iconservice import InterfaceScore, interface

from symdex.registry import scenario
from symdex.scen.common import *  # noqa: F401,F403
from symdex.scen.access import OWNED
from symdex.scen.frames import any_call, rich_world
from symdex.scen.packages import alike
from symdex.scen.twins import Story, N, KINDS


# -- nested conversions ---------------------------------------------------------------------------

class Rider(IconScoreBase):
    """A beneficiary that, when it is paid, does something at once (or later, when asked to)."""

    def __init__(self, db):
        super().__init__(db)

    def on_install(self):
        pass

    def on_update(self):
        pass

    def init(self, world):
        self.plan, self.told = None, []

    def act(self):
        plan, self.plan = self.plan, None
        if plan is not None:
            plan(self)

    @payable
    def fallback(self):
        self.told.append(('icx', self.msg.sender, self.msg.value))
        self.act()

    @external
    def tokenFallback(self, _from: Address, _value: int, _data: bytes):
        self.told.append((self.msg.sender, _from, _value))
        self.act()

    @external
    def go(self):
        self.act()


class TokenCalls(InterfaceScore):
    @interface
    def transfer(self, _to: Address, _value: int, _data: bytes = None):
        pass

    @interface
    def destroy(self, _from: Address, _amount: int):
        pass

    @interface
    def withdrawTo(self, _amount: int, _to: Address):
        pass


def ride(env, nested):
    s = Story(env)
    m, icx = s.m, env.config.get('kind') == 'icx'
    A, B, F = m.A, m.B, m.F
    rider = env.world.place('rider', Rider)
    it = env.world.find_score(rider)
    for t in (A, B, F):
        t.give(rider, 5 * N)
    it.told.clear()
    first = env.choice('first', [(A, F, F), (F, F, B), (A, F, B)] + ([(B, F, A), (F, F, A)] if icx else []))
    then = env.choice('then', [(A, F, F), (F, F, A), (B, F, A), (F, F, B)])
    what = env.choice('how', ['converts', 'converts for another', 'moves tokens', 'destroys tokens'] +
                      (['takes ICX'] if icx else []))
    ben = {'converts': rider, 'converts for another': s.x}.get(what)

    def plan(self):
        if ben is not None:
            d = {'path': s.path(*then), 'minReturn': 1, 'for': str(ben)}
            self.create_interface_score(then[0].at, TokenCalls).transfer(s.net, N, dumps(d))
        elif what == 'moves tokens':
            self.create_interface_score(then[0].at, TokenCalls).transfer(s.x, 7)
        elif what == 'destroys tokens':
            self.create_interface_score(F.at, TokenCalls).destroy(rider, 7)
        else:
            self.create_interface_score(A.at, TokenCalls).withdrawTo(7, rider)
    if nested:
        it.plan = plan
    r = s.convert(s.u, first, ben=rider)
    if not r.ok and not nested:
        env.setup_failed('no conversion')
    env.check(r.ok, 'nested-conversion-goes-through')
    ev = r.named('Conversion')
    if not nested:
        it.plan = plan
        r2 = env.tx(env.account('prompter'), rider, 'go')
        if not r2.ok:
            env.setup_failed('no second conversion')
        ev = ev + r2.named('Conversion')
    for e in ev:
        env.assume(e[4] <= 10 ** 6)
    del env.results[:]
    env.results.append(('conversions', ev))
    env.results.append(('told', list(it.told)))
    for t in (A, B, F):
        for w in (rider, s.u, s.x, s.o, s.net, m.at, t.at):
            env.results.append((t.name, t.bal(w)))
        env.results.append((t.name, t.supply()))
    if icx:
        env.results.append(('icx', [env.icx(w) for w in (rider, s.net, A.at, s.u)]))
    for t in (A, B):
        env.results.append((t.name, m.connector(t)))
    for route in s.routes():
        env.q(m.at, 'getReturn', dict(_fromToken=route[0].at, _toToken=route[2].at, _amount=N))


@scenario('C48', configs=[k for k in KINDS if not k.get('thorough')], reach=['compared'], formula='uf', weight=4,
          bound='a market with arbitrary weights and fee; a conversion whose beneficiary, a contract, converts along any '
                'route, moves, destroys or withdraws tokens while it is being paid, compared with the same two steps taken '
                'one after the other')
def nested_like_consecutive(env):
    ride(env, False)
    first = env.results
    env.again('nested-like-consecutive')
    ride(env, True)
    env.check(len(first) == len(env.results), 'nested-like-consecutive')
    for (w0, r0), (w1, r1) in zip(first, env.results):
        like = alike if hasattr(r0, 'ok') else same
        env.check(w0 == w1 and like(env, r0, r1), 'nested-like-consecutive', w0)
    env.reach('compared')


# -- nothing gets stuck ---------------------------------------------------------------------------

@scenario('C49', configs=[{'what': w} for w in OWNED + ['IRCToken']] + [{'what': w, 'phase': 'offered'} for w in OWNED],
          formula='uf', weight=3, reach=['accepted', 'refused', 'trading again'],
          bound='a state with arbitrary settings, pending offers and balances; one call of any entry point (discovered from '
                'the code) by any account with arbitrary arguments; then holders take out what is theirs and the owners '
                'withdraw the reserves and set the market up again')
def nothing_gets_stuck(env):
    m = rich_world(env, True)
    o = m.owner
    # owners are accounts, not contracts
    env.assume(env.Not(m.caller.is_contract))
    env.assume(env.Not(m.candidate.is_contract))
    b, e, f = env.account('bystander'), env.account('rescuer'), env.account('friend')
    for x in (b, e, f):
        env.assume(env.And(m.caller != x, m.candidate != x))
    A, F, I = m.A.at, m.F.at, m.icxt
    owns = env.get(F, 'getTransferPossibility')
    held = {t: env.int('held', lo=1) for t in (A, F, I)}
    if not owns:
        co = env.get(m.at, 'getOwner')
        env.must(co, m.at, 'disableTokenTransfers', dict(_disable=False))
    for t in (A, F, I):
        env.must(o, t, 'transfer', dict(_to=b, _value=held[t]))
    env.must(o, A, 'transfer', dict(_to=e, _value=150))
    if not owns:
        env.must(co, m.at, 'disableTokenTransfers', dict(_disable=True))
    name, caller, args, r = any_call(env, m, env.config['what'])
    env.reach('accepted' if r.ok else 'refused')

    def can(label, who, at, method, **kw):
        r = env.tx(who, at, method, kw)
        env.check(r.ok, label, method)
        return r

    def owner(at):
        return env.get(at, 'getOwner')
    # holders
    have = env.get(I, 'balanceOf', _owner=b)
    had = env.icx(b)
    can('icx-can-be-withdrawn', b, I, 'withdraw', _amount=have)
    env.check(env.icx(b) == had + have, 'icx-can-be-withdrawn')
    can('tokens-can-be-moved', b, A, 'transfer', _to=f, _value=env.get(A, 'balanceOf', _owner=b))
    if name != 'destroy':
        can('flexible-tokens-can-be-destroyed', b, F, 'destroy', _from=b, _amount=held[F] - 1 if held[F] > 1 else 1)
    # the network's owner
    stray = env.get(A, 'balanceOf', _owner=m.network)
    if stray > 0:
        can('stray-tokens-can-be-returned', owner(m.network), m.network, 'withdrawTokens', _token=A, _to=f, _amount=stray)
    # the converter's owner takes everything back
    co, fo = owner(m.at), owner(F)
    if fo == m.at:
        can('token-ownership-can-be-taken-back', co, m.at, 'transferTokenOwnership', _newOwner=e)
    else:
        can('token-ownership-can-be-taken-back', fo, F, 'transferOwnerShip', _newOwner=e)
    can('token-ownership-can-be-taken-back', e, F, 'acceptOwnerShip')
    reserve = env.get(A, 'balanceOf', _owner=m.at)
    if reserve > 0:
        can('reserves-can-be-taken-back', co, m.at, 'withdrawTokens', _token=A, _to=e, _amount=reserve)
        env.check(env.get(A, 'balanceOf', _owner=m.at) == 0, 'reserves-can-be-taken-back')
    # and sets it up again
    can('transfers-can-be-allowed', e, F, 'disableTransfer', _disable=False)
    can('tokens-can-be-moved', e, A, 'transfer', _to=co, _value=100)
    can('reserves-can-be-funded', co, A, 'transfer', _to=m.at, _value=100)
    can('supply-can-be-set', e, F, 'issue', _to=e, _amount=100)
    can('fee-can-be-set', co, m.at, 'setConversionFee', _conversionFee=0)
    can('purchases-can-be-allowed', co, m.at, 'disableConnectorPurchases', _connectorToken=A, _disable=False)
    alone = env.get(m.at, 'getConnectorTokenCount') == 1
    can('connector-can-be-set', co, m.at, 'updateConnector', _connectorToken=A, _weight=MAX_WEIGHT if alone else 1,
        _enableVirtualBalance=False, _virtualBalance=0)
    can('conversions-can-be-allowed', co, m.at, 'disableConversions', _disable=False)
    reg = env.get(m.at, 'getRegistry')
    for x in (m.registry, m.registry2):
        can('network-can-be-registered', owner(x), x, 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress=x)
        can('network-can-be-registered', owner(x), x, 'registerAddress', _scoreName='Network', _scoreAddress=m.network)
    can('network-can-be-registered', owner(reg), reg, 'registerAddress', _scoreName='Network', _scoreAddress=m.network)
    can('icx-registration-can-be-corrected', owner(m.network), m.network, 'registerIcxToken', _icxToken=F, _register=False)
    can('market-can-be-activated', e, F, 'transferOwnerShip', _newOwner=m.at)
    can('market-can-be-activated', co, m.at, 'acceptTokenOwnership')
    if alone:
        path = '%s,%s,%s' % (A, F, F)
        q = env.q(m.network, 'getExpectedReturnByPath', dict(_path=path, _amount=10))
        env.check(q.ok and q.ret >= 10, 'trading-is-possible-again')
        f0 = env.get(F, 'balanceOf', _owner=e)
        can('trading-is-possible-again', e, A, 'transfer', _to=m.network, _value=10,
            _data=dumps({'path': path, 'minReturn': 1}))
        env.check(env.get(F, 'balanceOf', _owner=e) == f0 + q.ret, 'trading-is-possible-again')
        env.reach('trading again')
