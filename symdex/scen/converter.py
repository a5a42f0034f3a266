"""Converter configuration: connectors, weights, fees, virtual balances, registry, funding, withdrawals."""
from symdex.registry import scenario
from symdex.scen.common import *  # noqa: F401,F403


def bare(env, first=True, max_fee=MAX_WEIGHT, w=None):
    """A converter with an optional first connector, not active."""
    owner = env.account('owner')
    f = Tok(env, 'flexible', 1000, 'tokenF', owner)
    reg = env.must_deploy('registry', ScoreRegistry, owner, {})
    tok = env.account('conn0', ) if False else env.world.place('tokenA', Sink)
    c = env.must_deploy('converter', Converter, owner, dict(
        _token=f.at, _registry=reg, _maxConversionFee=max_fee, _connectorToken=tok if first else ZERO,
        _connectorWeight=w if first else 0))
    return owner, f, reg, tok, c


CONNECTOR_OPS = ['add', 'update', 'purchases']


@scenario('C13', configs=[{'first': True, 'active': False, 'n': 2, 'ops': [o]} for o in CONNECTOR_OPS] +
          [{'first': False, 'active': False, 'n': 2, 'ops': [o]} for o in CONNECTOR_OPS] +
          [{'first': True, 'active': True, 'n': 2, 'ops': []}] +
          [{'first': True, 'active': False, 'n': 1, 'pre': 4, 'ops': [o]} for o in CONNECTOR_OPS] +
          [{'first': f, 'active': False, 'n': 3, 'ops': [o, o2], 'thorough': True}
           for f in (True, False) for o in CONNECTOR_OPS for o2 in CONNECTOR_OPS],
          reach=['refused'], weight=6, max_paths=200000,
          bound='an optional first connector (or five connectors already), then every sequence of 2 (thorough: 3) add / update / disable-purchase '
                'operations by the owner with arbitrary tokens, weights, flags and virtual balances')
def connector_set(env):
    w0 = env.int('w0', lo=1, hi=MAX_WEIGHT)
    owner, f, reg, tok, c = bare(env, env.config['first'], w=w0)
    if env.config['active']:
        env.must(owner, f.at, 'transferOwnerShip', dict(_newOwner=c))
        env.must(owner, c, 'acceptTokenOwnership')
    model = []          # [token, weight, virtual?, virtual balance, purchases]
    if env.config['first']:
        model.append([tok, w0, False, 0, True])

    def total(exc=None):
        t = 0
        for m in model:
            if m is not exc:
                t = t + m[1]
        return t

    def agree():
        env.check(env.get(c, 'getConnectorTokenCount') == len(model), 'connector-count')
        env.check(total() <= MAX_WEIGHT, 'total-weight-at-most-100-percent')
        for i, m in enumerate(model):
            env.check(env.get(c, 'getConnectorAt', _index=i) == m[0], 'connector-list')
            d = env.get(c, 'getConnector', _address=m[0])
            env.check(env.And(m[1] >= 1, m[1] <= MAX_WEIGHT), 'weight-in-range')
            env.check(same(env, d, {'virtualBalance': m[3], 'weight': m[1], 'isVirtualBalanceEnabled': m[2],
                                    'isPurchaseEnabled': m[4], 'isSet': True}), 'connector-data-as-set')

    def find(a):
        for m in model:
            if a == m[0]:
                return m
        return None
    for i in range(env.config.get('pre', 0)):
        t, w, v = env.world.place('pre%d' % i, Sink), env.int('prew', lo=1, hi=MAX_WEIGHT), i % 2 == 1
        env.assume(total() + w <= MAX_WEIGHT)
        env.must(owner, c, 'addConnector', dict(_token=t, _weight=w, _enableVirtualBalance=v))
        model.append([t, w, v, 0, True])
    agree()
    for i in range(env.config['n']):
        fixed = env.config['ops']
        op = env.choice('op', CONNECTOR_OPS) if i >= len(fixed) else fixed[i]
        a = env.address('tok', zero=True)
        w = env.int('w')
        in_range = env.And(w >= 1, w <= MAX_WEIGHT)
        virt = env.choice('virt', [True, False]) if op != 'purchases' else None
        if op == 'add':
            r = env.tx(owner, c, 'addConnector', dict(_token=a, _weight=w, _enableVirtualBalance=virt))
            if env.config['active']:
                env.check(not r.ok, 'no-new-connector-while-active')
                continue
            m = find(a)
            ok = env.And(in_range, a != ZERO, a != c, a != f.at, total() + w <= MAX_WEIGHT) if m is None else False
            env.check(ok if r.ok else env.Not(ok), 'add-exactly-when-valid')
            if r.ok:
                env.reach('added')
                model.append([a, w, virt, 0, True])
            else:
                env.reach('refused')
        elif op == 'update':
            vb = env.int('vb')
            r = env.tx(owner, c, 'updateConnector', dict(_connectorToken=a, _weight=w, _enableVirtualBalance=virt,
                                                         _virtualBalance=vb))
            m = find(a)
            if r.ok:
                env.check(m is not None, 'update-only-connectors')
                env.check(env.And(in_range, total(m) + w <= MAX_WEIGHT), 'update-only-valid-weights')
                env.reach('updated')
                m[1], m[2], m[3] = w, virt, vb
            else:
                env.reach('refused')
                if m is not None:
                    env.check(env.Or(env.Not(in_range), total(m) + w > MAX_WEIGHT, vb < 0), 'valid-update-accepted')
        else:
            dis = env.choice('disable', [True, False])
            r = env.tx(owner, c, 'disableConnectorPurchases', dict(_connectorToken=a, _disable=dis))
            m = find(a)
            env.check(r.ok == (m is not None), 'purchase-switch-exactly-for-connectors')
            if r.ok:
                m[4] = not dis
            else:
                env.reach('refused')
        agree()
    z = env.address('stranger')
    if find(z) is None:
        env.check(env.get(c, 'getConnector', _address=z) == {}, 'no-data-for-non-connectors')


@scenario('C13', reach=['deployed', 'refused', 'without connector'],
          bound='deployment with arbitrary arguments')
def deployment(env):
    owner = env.account('owner')
    tok, reg, con = env.address('tok', zero=True), env.address('reg', zero=True), env.address('con', zero=True)
    mf, w = env.int('mf'), env.int('w')
    c, r = env.deploy('converter', Converter, owner, dict(_token=tok, _registry=reg, _maxConversionFee=mf,
                                                          _connectorToken=con, _connectorWeight=w))
    base = env.And(tok != ZERO, reg != ZERO, mf >= 0, mf <= MAX_WEIGHT)
    if r.ok:
        env.reach('deployed')
        env.check(base, 'deployed-only-with-valid-arguments')
        if con != ZERO:
            env.check(env.And(w >= 1, w <= MAX_WEIGHT, con != tok, con != c), 'first-connector-valid')
            env.check(env.get(c, 'getConnectorTokenCount') == 1, 'first-connector-listed')
            env.check(same(env, env.get(c, 'getConnector', _address=con), {
                'virtualBalance': 0, 'weight': w, 'isVirtualBalanceEnabled': False, 'isPurchaseEnabled': True,
                'isSet': True}), 'first-connector-data')
        else:
            env.reach('without connector')
            env.check(env.get(c, 'getConnectorTokenCount') == 0, 'no-connector')
        env.check(env.eqv(env.get(c, 'getToken'), tok), 'token')
        env.check(env.And(env.eqv(env.get(c, 'getRegistry'), reg), env.eqv(env.get(c, 'getPreviousRegistry'), reg)),
                  'registry')
        env.check(env.And(env.get(c, 'getMaxConversionFee') == mf, env.get(c, 'getConversionFee') == 0), 'fees')
        env.check(env.get(c, 'isConversionsEnabled'), 'conversions-enabled')
        env.check(env.get(c, 'isAllowRegistryUpdate'), 'registry-updates-allowed')
        env.check(env.And(env.eqv(env.get(c, 'getOwner'), owner), env.eqv(env.get(c, 'getNewOwner'), ZERO)), 'owner')
    else:
        env.reach('refused')
        if con == ZERO:
            env.check(env.Not(base), 'valid-deployment-accepted')
        elif con.is_contract and tok.is_contract:
            env.check(env.Not(env.And(base, w >= 1, w <= MAX_WEIGHT, con != tok)) if not env.ext_calls else True,
                      'valid-deployment-accepted')


# -- fee -----------------------------------------------------------------------------------------

@scenario('C14', configs=[{'n': 2}, {'n': 4, 'thorough': True}], reach=['set', 'refused', 'by manager'],
          bound='any maximum fee; 2 (thorough: 4) fee changes by arbitrary callers with arbitrary values, with another '
                'state-changing operation in between')
def fee_bounds(env):
    mx = env.int('max', lo=0, hi=MAX_WEIGHT)
    owner, f, reg, tok, c = bare(env, True, max_fee=mx, w=500000)
    mgr = env.account('mgr')
    env.must(owner, c, 'transferManagement', dict(_newManager=mgr))
    env.must(mgr, c, 'acceptManagement')
    fee = 0
    for i in range(env.config['n']):
        who = env.address('who')
        v = env.int('fee')
        r = env.tx(who, c, 'setConversionFee', dict(_conversionFee=v))
        ok = env.And(env.Or(who == owner, who == mgr), v >= 0, v <= mx)
        env.check(ok if r.ok else env.Not(ok), 'fee-set-exactly-when-valid')
        if r.ok:
            env.reach('set')
            if who == mgr:
                env.reach('by manager')
            ev = r.named('ConversionFeeUpdate')
            env.check(len(ev) == 1 and is_event(env, ev[0], [fee, v]), 'fee-event')
            fee = v
        else:
            env.reach('refused')
        env.check(env.get(c, 'getConversionFee') == fee, 'fee-as-set')
        env.check(env.get(c, 'getMaxConversionFee') == mx, 'max-fee-constant')
        env.check(env.And(fee >= 0, fee <= mx), 'fee-within-bounds')
        other = env.choice('other', ['none', 'update', 'conversions', 'activate', 'upgrade'])
        if other == 'update':
            env.tx(owner, c, 'updateConnector', dict(_connectorToken=tok, _weight=7, _enableVirtualBalance=True,
                                                     _virtualBalance=5))
        elif other == 'conversions':
            env.tx(owner, c, 'disableConversions', dict(_disable=True))
        elif other == 'activate':
            env.tx(owner, f.at, 'transferOwnerShip', dict(_newOwner=c))
            env.tx(owner, c, 'acceptTokenOwnership')
        elif other == 'upgrade':
            env.update(c, owner)
        env.check(env.And(env.get(c, 'getConversionFee') == fee, env.get(c, 'getMaxConversionFee') == mx),
                  'fee-untouched-by-others')


@scenario('C15', configs=[{'mag': 1}, {'mag': 2}], reach=['fee', 'full fee', 'free'],
          bound='any amount >= 0, any fee, magnitude 1 and 2 (the two the converter uses)')
def fee_arithmetic(env):
    owner, f, reg, tok, c = bare(env, True, w=500000)
    fee = env.int('fee', lo=0, hi=MAX_WEIGHT)
    k = env.config['mag']
    past = env.choice('past', ['none', 'other fees', 'loaded again'])
    if past != 'none':
        env.must(owner, c, 'setConversionFee', dict(_conversionFee=env.int('former fee', lo=0, hi=MAX_WEIGHT)))
        env.get(c, 'getFinalAmount', _amount=1000, _magnitude=k)
    env.must(owner, c, 'setConversionFee', dict(_conversionFee=fee))
    if past != 'none':
        for who, v in ((owner, -1), (owner, MAX_WEIGHT + 1), (env.account('outsider'), 7)):
            env.check(not env.tx(who, c, 'setConversionFee', dict(_conversionFee=v)).ok, 'invalid-fee-refused')
    if past == 'loaded again':
        restart(env)
    x = env.int('x', lo=0)
    y = env.get(c, 'getFinalAmount', _amount=x, _magnitude=k)
    keep = MAX_WEIGHT - fee
    num = x * keep if k == 1 else x * keep * keep
    den = MAX_WEIGHT ** k
    env.check(env.And(y * den <= num, num < (y + 1) * den), 'final-amount-is-exact-floor')
    env.check(env.And(y >= 0, y <= x), 'final-amount-between-0-and-amount')
    if fee == 0:
        env.reach('free')
        env.check(y == x, 'no-fee-no-deduction')
    elif fee == MAX_WEIGHT:
        env.reach('full fee')
        env.check(y == 0, 'full-fee-leaves-nothing')
    else:
        env.reach('fee')


@scenario('C15', configs=[{'mag': 1}, {'mag': 2}], reach=['compared'],
          bound='any two amounts and any two fees, one raising each')
def fee_monotone(env):
    owner, f, reg, tok, c = bare(env, True, w=500000)
    fee = env.int('fee', lo=0, hi=MAX_WEIGHT)
    k = env.config['mag']
    x = env.int('x', lo=0)
    d = env.int('d', lo=0)
    env.must(owner, c, 'setConversionFee', dict(_conversionFee=fee))
    y = env.get(c, 'getFinalAmount', _amount=x, _magnitude=k)
    y2 = env.get(c, 'getFinalAmount', _amount=x + d, _magnitude=k)
    env.check(y <= y2, 'larger-amount-never-nets-less')
    env.check(y2 - y <= d, 'increment-bounded')
    env.reach('compared')


@scenario('C15', reach=['compared'], bound='any amount, two fees')
def fee_monotone_in_fee(env):
    owner, f, reg, tok, c = bare(env, True, w=500000)
    fee = env.int('fee', lo=0, hi=MAX_WEIGHT)
    inc = env.int('inc', lo=0, hi=MAX_WEIGHT)
    x = env.int('x', lo=0)
    env.must(owner, c, 'setConversionFee', dict(_conversionFee=fee))
    y = env.get(c, 'getFinalAmount', _amount=x, _magnitude=1)
    z = env.get(c, 'getFinalAmount', _amount=x, _magnitude=2)
    env.check(z <= y, 'double-fee-costs-at-least-as-much')
    env.must(owner, c, 'setConversionFee', dict(_conversionFee=fee + inc))
    env.check(env.get(c, 'getFinalAmount', _amount=x, _magnitude=1) <= y, 'larger-fee-never-nets-more')
    env.reach('compared')


# -- registry ------------------------------------------------------------------------------------

class FakeRegistry(IconScoreBase):
    """A registry whose answers the scenario decides."""

    def __init__(self, db):
        super().__init__(db)

    def on_install(self):
        pass

    def on_update(self):
        pass

    def init(self, world, target):
        self.target = target

    @external(readonly=True)
    def getAddress(self, _scoreName: str) -> Address:
        return self.target if _scoreName == 'ScoreRegistry' else ZERO


@scenario('C24', configs=[{'n': 2}, {'n': 3, 'thorough': True}],
          reach=['updated', 'restored', 'refused', 'refused while disabled', 'switched'], weight=5,
          bound='two registries pointing anywhere (arbitrary address), every sequence of 2 (thorough: 3) update / '
                'restore / disable operations by arbitrary callers')
def registry_updates(env):
    owner = env.account('owner')
    f = Tok(env, 'flexible', 1000, 'tokenF', owner)
    t1 = env.address('target1', zero=True)
    r1 = env.world.place('registry1', FakeRegistry, t1)
    r2 = env.world.place('registry2', FakeRegistry, env.choice('target2', [r1, ZERO]))
    env.world.find_score(r1).target = env.choice('target1k', [t1, r2])
    c = env.must_deploy('converter', Converter, owner, dict(_token=f.at, _registry=r1, _maxConversionFee=0,
                                                            _connectorToken=ZERO, _connectorWeight=0))
    mgr = env.account('mgr')
    env.must(owner, c, 'transferManagement', dict(_newManager=mgr))
    env.must(mgr, c, 'acceptManagement')
    cur = prev = r1
    allowed = True
    for i in range(env.config['n']):
        who = env.address('who')
        op = env.choice('op', ['update', 'restore', 'switch'])
        priv = env.Or(who == owner, who == mgr)
        if op == 'update':
            known = cur == r1 or cur == r2
            env.assume(known)       # an unknown registry gives unknown answers
            target = env.world.find_score(r1 if cur == r1 else r2).target
            r = env.tx(who, c, 'updateRegistry')
            ok = env.And(env.Or(allowed, who == owner), target != ZERO, target != cur)
            env.check(ok if r.ok else env.Not(ok), 'registry-update-exactly-when-allowed')
            if r.ok:
                env.reach('updated')
                prev, cur = cur, target
            else:
                env.reach('refused')
                if not allowed:
                    env.reach('refused while disabled')
        elif op == 'restore':
            r = env.tx(who, c, 'restoreRegistry')
            env.check(priv if r.ok else env.Not(priv), 'restore-exactly-when-privileged')
            if r.ok:
                env.reach('restored')
                cur, allowed = prev, False
        else:
            dis = env.choice('dis', [True, False])
            r = env.tx(who, c, 'disableRegistryUpdate', dict(_disable=dis))
            env.check(priv if r.ok else env.Not(priv), 'switch-exactly-when-privileged')
            if r.ok:
                env.reach('switched')
                allowed = not dis
        env.check(env.eqv(env.get(c, 'getRegistry'), cur), 'registry-as-decided')
        env.check(env.eqv(env.get(c, 'getPreviousRegistry'), prev), 'previous-registry-kept')
        env.check(env.get(c, 'isAllowRegistryUpdate') == allowed, 'update-permission-as-decided')


# -- pausing -------------------------------------------------------------------------------------

@scenario('C21', configs=[{'n': 3}], reach=['paused', 'resumed', 'no change', 'refused'],
          bound='3 enable/disable operations by arbitrary callers')
def pausing(env):
    owner, f, reg, tok, c = bare(env, True, w=500000)
    mgr = env.account('mgr')
    env.must(owner, c, 'transferManagement', dict(_newManager=mgr))
    env.must(mgr, c, 'acceptManagement')
    on = True
    for i in range(env.config['n']):
        who = env.address('who')
        dis = env.choice('dis', [True, False])
        r = env.tx(who, c, 'disableConversions', dict(_disable=dis))
        priv = env.Or(who == owner, who == mgr)
        env.check(priv if r.ok else env.Not(priv), 'pause-exactly-when-privileged')
        if r.ok:
            ev = r.named('ConversionsEnable')
            if on == dis:
                on = not dis
                env.reach('resumed' if on else 'paused')
                env.check(len(ev) == 1 and is_event(env, ev[0], [on]), 'pause-event')
            else:
                env.reach('no change')
                env.check(not ev, 'no-event-without-change')
        else:
            env.reach('refused')
        env.check(env.get(c, 'isConversionsEnabled') == on, 'paused-as-decided')


# -- funding and withdrawing ---------------------------------------------------------------------

@scenario('C25', configs=[{'active': a, 'tok': t} for a in (True, False) for t in ('connector', 'other', 'flexible')],
          reach=['rejected'], formula='uf',
          bound='one plain transfer of any amount of a connector token / another token / the flexible token to the '
                'converter by an arbitrary account, converter active or not')
def funding(env):
    env.config = dict(env.config, hist=env.choice('history', [None, 'changed', 'attempted', 'restarted']))
    m = Market(env, wa=500000, reserve_a=1000, supply=10 ** 9, stock=10 ** 9, activate=env.config['active'],
               real_network=False)
    mgr = env.account('manager')
    env.must(m.owner, m.at, 'transferManagement', dict(_newManager=mgr))
    env.must(mgr, m.at, 'acceptManagement')
    if env.choice('offers pending', [False, True]):
        # offered to somebody who has not accepted
        env.must(m.owner, m.at, 'transferOwnerShip', dict(_newOwner=env.address('next owner')))
        env.must(mgr, m.at, 'transferManagement', dict(_newManager=env.address('next manager')))
    X = Tok(env, 'irc', 10 ** 9, 'tokenX', m.owner)
    t = {'connector': m.A, 'other': X, 'flexible': m.F}[env.config['tok']]
    n = env.int('n', lo=0, hi=10 ** 8)
    if env.choice('from', ['anyone', 'network']) == 'network':
        # plain tokens, without a request, from the trading network
        who = m.network
    else:
        who = env.address('who')
        env.assume(env.And(who != m.at, who != t.at, who != m.network))
        env.assume(env.Not(who.is_contract))
    t.give(who, 10 ** 8)
    before = m.snapshot(who)
    x0, h0 = t.bal(m.at), t.bal(who)
    data = env.choice('data', [None, b'hello', b''])
    r = env.tx(who, t.at, 'transfer', dict(_to=m.at, _value=n, **({} if data is None else {'_data': data})))
    priv = env.Or(who == m.owner, who == mgr)
    if r.ok:
        env.reach('funded')
        env.check(env.And(priv, not env.config['active'], env.config['tok'] == 'connector', n > 0),
                  'funding-only-by-owner-or-manager-while-inactive')
        env.check(env.And(t.bal(m.at) == x0 + n, t.bal(who) == h0 - n), 'funding-adds-to-reserve')
        env.check(m.connector_balance(m.A) == 1000 + n, 'reserve-reported')
    else:
        env.reach('rejected')
        env.check(same(env, before, m.snapshot(who)), 'rejected-funding-changes-nothing')
        if not env.config['active'] and env.config['tok'] == 'connector':
            env.check(env.Not(env.And(priv, n > 0)), 'owner-and-manager-can-fund')
            if who == mgr:
                env.reach('manager')


@scenario(['C23', 'C12'], configs=[{'phase': p, 'tok': t} for p in ('active', 'inactive') for t in ('A', 'B', 'X', 'F')],
          reach=['refused'],
          bound='one withdrawal of any amount of a connector token, another token or the flexible token held by the '
                'converter to an arbitrary externally owned account by an arbitrary caller')
def withdraw_reserve(env):
    m = Market(env, wa=300000, wb=300000, reserve_a=env.int('ra', lo=0), reserve_b=env.int('rb', lo=0),
               stock=10 ** 12, supply=1000, virt_a=env.choice('virt', [True, False]), virtual_a=5000, activate=False,
               real_network=False)
    for t in (m.A, m.B):
        if env.choice('no_purchase', [False, True]):
            env.must(m.owner, m.at, 'disableConnectorPurchases', dict(_connectorToken=t.at, _disable=True))
    if env.choice('disabled', [False, True]):
        env.must(m.owner, m.at, 'disableConversions', dict(_disable=True))
    # it holds other tokens as well: some issued to it, and its own flexible token
    X = Tok(env, 'irc', 500 + 10 ** 9, 'tokenX', m.at)
    env.must(m.owner, m.F.at, 'issue', dict(_to=m.at, _amount=200))
    if env.config['phase'] == 'active':
        env.must(m.owner, m.F.at, 'transferOwnerShip', dict(_newOwner=m.at))
        env.must(m.owner, m.at, 'acceptTokenOwnership')
    t = {'A': m.A, 'B': m.B, 'X': X, 'F': m.F}[env.config['tok']]
    who, to, n = env.address('who'), env.address('to', 'eoa'), env.int('n')
    is_conn = env.config['tok'] in 'AB'
    if env.choice('from', ['the converter', 'its flexible token']) == 'its flexible token':
        # what the flexible token holds (and what it does not hold) has nothing to do with the reserves
        if t is X:
            t = Tok(env, 'irc', 10 ** 9, 'tokenY', m.F.at)
        before, h0, f0, t0 = m.snapshot(to), t.bal(m.at), t.bal(m.F.at), t.bal(to)
        r = env.tx(who, m.at, 'withdrawFromToken', dict(_token=t.at, _to=to, _amount=n))
        can = env.And(who == m.owner, n > 0, n <= f0, env.config['phase'] == 'active')
        env.check(can if r.ok else env.Not(can), 'withdraw-from-token-exactly-when-allowed')
        env.check(t.bal(m.at) == h0, 'withdrawing-from-the-token-leaves-the-reserve')
        if r.ok:
            env.reach('from the token')
            env.check(env.And(t.bal(m.F.at) == f0 - n, t.bal(to) == t0 + n), 'withdraws-exact-amount')
        else:
            env.check(same(env, before, m.snapshot(to)), 'refused-withdrawal-changes-nothing')
        return
    before, h0, t0 = m.snapshot(to), t.bal(m.at), t.bal(to)
    r = env.tx(who, m.at, 'withdrawTokens', dict(_token=t.at, _to=to, _amount=n))
    can = env.And(who == m.owner, n > 0, n <= h0, not (is_conn and env.config['phase'] == 'active'))
    env.check(can if r.ok else env.Not(can), 'withdraw-exactly-when-allowed')
    if r.ok:
        env.check(env.And(t.bal(m.at) == h0 - n, t.bal(to) == t0 + n), 'withdraws-exact-amount')
    else:
        env.reach('refused')
        env.check(same(env, before, m.snapshot(to)), 'refused-withdrawal-changes-nothing')
