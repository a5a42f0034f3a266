"""Ownership, management, privileged operations, registry, withdrawals."""
from symdex.registry import scenario
from symdex.scen.common import *  # noqa: F401,F403

OWNED = ['ScoreRegistry', 'Network', 'FlexibleToken', 'IcxToken', 'Converter']


def deploy_owned(env, what, owner, name='c'):
    if what == 'ScoreRegistry':
        return env.must_deploy(name, ScoreRegistry, owner, {})
    if what == 'Network':
        return env.must_deploy(name, Network, owner, {})
    if what == 'FlexibleToken':
        return env.must_deploy(name, FlexibleToken, owner, dict(_name='F', _symbol='F', _initialSupply=0, _decimals=0))
    if what == 'IcxToken':
        return env.must_deploy(name, IcxToken, owner, {})
    tok = env.must_deploy('f' + name, FlexibleToken, owner, dict(_name='F', _symbol='F', _initialSupply=0, _decimals=0))
    reg = env.must_deploy('r' + name, ScoreRegistry, owner, {})
    return env.must_deploy(name, Converter, owner, dict(_token=tok, _registry=reg, _maxConversionFee=MAX_WEIGHT,
                                                        _connectorToken=ZERO, _connectorWeight=0))


@scenario('C08', configs=[{'what': w, 'n': 2} for w in OWNED] + [{'what': w, 'n': 3, 'thorough': True} for w in OWNED],
          reach=['transferred', 'accepted', 'refused', 'owner replaced'], weight=5,
          bound='every sequence of 2 (thorough: 3) ownership operations by arbitrary callers, then one accept')
def ownership(env):
    owner = env.address('deployer')
    c = deploy_owned(env, env.config['what'], owner)
    pending = ZERO
    first = owner
    for i in range(env.config['n'] + 1):
        caller = env.address('caller')
        if i < env.config['n'] and env.choice('op', ['transfer', 'accept']) == 'transfer':
            new = env.address('new', zero=True)
            r = env.tx(caller, c, 'transferOwnerShip', dict(_newOwner=new))
            allowed = env.And(caller == owner, new != owner)
            env.check(allowed if r.ok else env.Not(allowed), 'transfer-exactly-when-owner')
            if r.ok:
                pending = new
                env.reach('transferred')
            env.check(not r.named('OwnerUpdate'), 'no-update-event-yet')
        else:
            r = env.tx(caller, c, 'acceptOwnerShip')
            env.check((caller == pending) if r.ok else (caller != pending), 'accept-exactly-when-pending')
            if r.ok:
                ev = r.named('OwnerUpdate')
                env.check(len(ev) == 1 and is_event(env, ev[0], [owner, caller]), 'owner-update-event')
                owner, pending = caller, ZERO
                env.reach('accepted')
                if owner != first:
                    env.reach('owner replaced')
        if not r.ok:
            env.reach('refused')
        env.check(env.get(c, 'getOwner') == owner, 'owner-as-decided')
        env.check(env.eqv(env.get(c, 'getNewOwner'), pending), 'pending-as-decided')


@scenario('C09', configs=[{'n': 2}, {'n': 3, 'thorough': True}],
          reach=['transferred', 'accepted', 'refused', 'by manager', 'by owner'], weight=5,
          bound='every sequence of 2 (thorough: 3) management operations by arbitrary callers, then one accept')
def management(env):
    owner = env.address('deployer')
    c = deploy_owned(env, 'Converter', owner)
    manager, pending = owner, ZERO
    env.check(env.eqv(env.get(c, 'getManager'), manager), 'deployer-is-first-manager')
    env.check(env.eqv(env.get(c, 'getNewManager'), ZERO), 'no-pending-manager')
    if env.choice('start', ['deployer', 'another manager']) == 'another manager':
        manager = env.account('mgr')
        env.must(owner, c, 'transferManagement', dict(_newManager=manager))
        env.must(manager, c, 'acceptManagement')
    for i in range(env.config['n'] + 1):
        caller = env.address('caller')
        if i < env.config['n'] and env.choice('op', ['transfer', 'accept']) == 'transfer':
            new = env.address('new', zero=True)
            r = env.tx(caller, c, 'transferManagement', dict(_newManager=new))
            allowed = env.And(env.Or(caller == owner, caller == manager), new != manager)
            env.check(allowed if r.ok else env.Not(allowed), 'transfer-exactly-when-privileged')
            if r.ok:
                pending = new
                env.reach('transferred')
                env.reach('by manager' if caller == manager else 'by owner')
            env.check(not r.named('ManagerUpdate'), 'no-update-event-yet')
        else:
            r = env.tx(caller, c, 'acceptManagement')
            env.check((caller == pending) if r.ok else (caller != pending), 'accept-exactly-when-pending')
            if r.ok:
                ev = r.named('ManagerUpdate')
                env.check(len(ev) == 1 and is_event(env, ev[0], [manager, caller]), 'manager-update-event')
                manager, pending = caller, ZERO
                env.reach('accepted')
        if not r.ok:
            env.reach('refused')
        env.check(env.eqv(env.get(c, 'getManager'), manager), 'manager-as-decided')
        env.check(env.eqv(env.get(c, 'getNewManager'), pending), 'pending-as-decided')
        env.check(env.get(c, 'getOwner') == owner, 'owner-unaffected')


# -- privileged operations -----------------------------------------------------------------------

OWNER_OPS = [
    ('FlexibleToken', 'disableTransfer', ['_disable:bool']),
    ('FlexibleToken', 'issue', ['_to:Address', '_amount:int']),
    ('FlexibleToken', 'transferOwnerShip', ['_newOwner:Address']),
    ('FlexibleToken', 'withdrawTokens', ['_token:Address', '_to:Address', '_amount:int']),
    ('IcxToken', 'transferOwnerShip', ['_newOwner:Address']),
    ('IcxToken', 'withdrawTokens', ['_token:Address', '_to:Address', '_amount:int']),
    ('ScoreRegistry', 'registerAddress', ['_scoreName:str', '_scoreAddress:Address']),
    ('ScoreRegistry', 'unregisterAddress', ['_scoreName:str']),
    ('ScoreRegistry', 'transferOwnerShip', ['_newOwner:Address']),
    ('Network', 'registerIcxToken', ['_icxToken:Address', '_register:bool']),
    ('Network', 'withdrawTokens', ['_token:Address', '_to:Address', '_amount:int']),
    ('Network', 'transferOwnerShip', ['_newOwner:Address']),
    ('Converter', 'addConnector', ['_token:Address', '_weight:int', '_enableVirtualBalance:bool']),
    ('Converter', 'updateConnector', ['_connectorToken:Conn', '_weight:int', '_enableVirtualBalance:bool',
                                      '_virtualBalance:int']),
    ('Converter', 'disableConnectorPurchases', ['_connectorToken:Conn', '_disable:bool']),
    ('Converter', 'withdrawTokens', ['_token:Address', '_to:Address', '_amount:int']),
    ('Converter', 'transferTokenOwnership', ['_newOwner:Address']),
    ('Converter', 'acceptTokenOwnership', []),
    ('Converter', 'disableTokenTransfers', ['_disable:bool']),
    ('Converter', 'withdrawFromToken', ['_token:Address', '_to:Address', '_amount:int']),
    ('Converter', 'transferOwnerShip', ['_newOwner:Address']),
]
MANAGER_OPS = [
    ('Converter', 'restoreRegistry', []),
    ('Converter', 'disableRegistryUpdate', ['_disable:bool']),
    ('Converter', 'disableConversions', ['_disable:bool']),
    ('Converter', 'setConversionFee', ['_conversionFee:int']),
    ('Converter', 'transferManagement', ['_newManager:Address']),
]


def priv_world(env, active):
    m = Market(env, wa=env.int('wa', lo=1, hi=MAX_WEIGHT), reserve_a=1000, stock=1000, supply=1000, activate=False)
    if active == 'active':
        env.must(m.owner, m.F.at, 'transferOwnerShip', dict(_newOwner=m.at))
        env.must(m.owner, m.at, 'acceptTokenOwnership')
    elif active == 'offered':
        env.must(m.owner, m.F.at, 'transferOwnerShip', dict(_newOwner=m.at))
    mgr = env.account('manager')
    env.must(m.owner, m.at, 'transferManagement', dict(_newManager=mgr))
    env.must(mgr, m.at, 'acceptManagement')
    m.manager = mgr
    m.icxt = env.must_deploy('icxt', IcxToken, m.owner, {})
    m.by = {'FlexibleToken': m.F.at, 'IcxToken': m.icxt, 'ScoreRegistry': m.registry, 'Network': m.network,
            'Converter': m.at}
    return m


def pending_offers(env, m):
    """Every role has been offered to somebody who has not accepted it, and so has no say yet."""
    m.pending = env.address('pending')
    env.assume(env.And(m.pending != m.manager, m.pending != m.owner))
    if not env.choice('offers pending', [True, False]):
        return
    for what, c in m.by.items():
        if env.get(c, 'getOwner') == m.owner and env.get(c, 'getNewOwner') == ZERO:
            env.must(m.owner, c, 'transferOwnerShip', dict(_newOwner=m.pending))
    env.must(m.manager, m.at, 'transferManagement', dict(_newManager=m.pending))


def args_for(env, m, spec):
    out = {}
    for s in spec:
        n, t = s.split(':')
        out[n] = {'bool': lambda: env.choice(n, [True, False]),
                  'int': lambda: env.int(n),
                  'Address': lambda: env.address(n, zero=True),
                  'Conn': lambda: m.A.at,
                  'str': lambda: env.choice(n, ['Network', 'ScoreRegistry', 'other'])}[t]()
    return out


@scenario('C10', configs=[{'op': i} for i in range(len(OWNER_OPS))], reach=['refused', 'owner accepted'],
          bound='one call of each owner-only operation by an arbitrary caller with arbitrary arguments, converter '
                'inactive / offered / active')
def owner_only(env):
    what, method, spec = OWNER_OPS[env.config['op']]
    m = priv_world(env, env.choice('phase', ['inactive', 'offered', 'active']))
    c = m.by[what]
    owner = env.get(c, 'getOwner')
    pending_offers(env, m)
    caller = env.address('caller')
    r = env.tx(caller, c, method, args_for(env, m, spec))
    if r.ok:
        env.check(caller == owner, 'owner-only:' + method)
    else:
        env.reach('refused')
    good = {'withdrawTokens': None}
    # the owner is not locked out: with suitable arguments the call is accepted
    good = {'issue': dict(_to=env.account('u'), _amount=1), 'disableTransfer': dict(_disable=True),
            'registerIcxToken': dict(_icxToken=m.icxt, _register=True),
            'registerAddress': dict(_scoreName='Network', _scoreAddress=m.icxt),
            'unregisterAddress': dict(_scoreName='Network'),
            'addConnector': dict(_token=m.icxt, _weight=1, _enableVirtualBalance=False),
            'updateConnector': dict(_connectorToken=m.A.at, _weight=5, _enableVirtualBalance=True, _virtualBalance=7),
            'disableConnectorPurchases': dict(_connectorToken=m.A.at, _disable=True),
            'transferTokenOwnership': dict(_newOwner=env.account('u')), 'acceptTokenOwnership': {},
            'disableTokenTransfers': dict(_disable=True)}.get(method)
    if method in ('withdrawTokens', 'withdrawFromToken'):
        env.reach('owner accepted')     # decided by C12
    elif method == 'transferOwnerShip':
        r = env.tx(owner, c, method, dict(_newOwner=env.account('u')))
        env.reach('owner accepted') if r.ok else None
    elif good is not None:
        r = env.tx(owner, c, method, good)
        env.reach('owner accepted') if r.ok else None


@scenario('C10', configs=[{'op': i} for i in range(len(MANAGER_OPS))], reach=['refused', 'by owner', 'by manager'],
          bound='one call of each owner-or-manager operation by an arbitrary caller with arbitrary arguments')
def owner_or_manager(env):
    what, method, spec = MANAGER_OPS[env.config['op']]
    m = priv_world(env, env.choice('phase', ['inactive', 'active']))
    pending_offers(env, m)
    caller = env.address('caller')
    r = env.tx(caller, m.at, method, args_for(env, m, spec))
    if r.ok:
        env.check(env.Or(caller == m.owner, caller == m.manager), 'owner-or-manager-only:' + method)
        env.reach('by manager' if caller == m.manager else 'by owner')
    else:
        env.reach('refused')


def configuration(env, m):
    """Everything only the owner or manager may change."""
    out = []
    for name, c in sorted(m.by.items()):
        out += [env.get(c, 'getOwner'), env.get(c, 'getNewOwner')]
    for g in ('getManager', 'getNewManager', 'getToken', 'getRegistry', 'getPreviousRegistry', 'isAllowRegistryUpdate',
              'getConnectorTokenCount', 'getMaxConversionFee', 'getConversionFee', 'isConversionsEnabled', 'isActive'):
        out.append(env.get(m.at, g))
    out.append(env.get(m.F.at, 'getTransferPossibility'))
    out.append(m.connector(m.A))
    out += [env.get(m.registry, 'getAddress', _scoreName=k) for k in ('Network', 'ScoreRegistry')]
    out.append(env.get(m.network, 'getIcxTokenRegistered', _icxToken=m.icxt))
    return out


def external_writable(cls):
    """The class's externally callable state-changing methods, discovered from the real decorators."""
    from iconservice.icon_constant import IconScoreFuncType  # noqa: F401
    from iconservice.iconscore.icon_score_constant import CONST_BIT_FLAG, ConstBitFlag
    import inspect
    out = []
    for n, f in sorted(inspect.getmembers(cls, inspect.isfunction)):
        fl = getattr(f, CONST_BIT_FLAG, 0)
        if fl & ConstBitFlag.External and not fl & ConstBitFlag.ReadOnly:
            out.append((n, [(p.name, p.annotation) for p in list(inspect.signature(f).parameters.values())[1:]]))
    return out


@scenario('C10', configs=[{'what': w, 'phase': p} for w in OWNED for p in ('active', 'offered')],
          reach=['refused'], weight=3, formula='uf',
          bound='one call of ANY externally callable state-changing method (discovered from the code) of every '
                'contract by an account that is neither owner nor manager, with arbitrary arguments')
def outsider_any_call(env):
    m = priv_world(env, env.config['phase'])
    what = env.config['what']
    c = m.by[what]
    cls = {'ScoreRegistry': ScoreRegistry, 'Network': Network, 'FlexibleToken': FlexibleToken, 'IcxToken': IcxToken,
           'Converter': Converter}[what]
    methods = external_writable(cls)
    name, params = env.choice('method', methods)
    pending_offers(env, m)
    caller = env.address('outsider')
    if name.startswith('accept'):
        env.assume(caller != m.pending)
    env.assume(env.And(*[caller != x for x in list(m.by.values()) + [m.owner, m.manager, m.A.at]]))
    args = {}
    path = '%s,%s,%s' % (m.A.at, m.F.at, m.F.at)
    for n, t in params:
        if t is int:
            args[n] = env.int(n)
        elif t is bool:
            args[n] = env.choice(n, [True, False])
        elif t is Address:
            args[n] = env.address(n, zero=True)
        elif t is str:
            args[n] = env.choice(n, ['Network', path])
        elif t is bytes:
            args[n] = env.choice(n, [b'x', dumps({'toToken': str(m.F.at), 'minReturn': 1})])
    env.must(m.owner, m.A.at, 'transfer', dict(_to=caller, _value=50))
    before = configuration(env, m)
    r = env.tx(caller, c, name, args)
    if not r.ok:
        env.reach('refused')
    env.check(same(env, before, configuration(env, m)), 'outsider-changes-no-configuration:' + name)


# -- registry ------------------------------------------------------------------------------------

@scenario('C11', configs=[{'n': 2}, {'n': 3, 'thorough': True}],
          reach=['registered', 'unregistered', 'refused', 'overwritten'], weight=3,
          bound='every sequence of 2 (thorough: 3) registry operations by arbitrary callers with arbitrary names and addresses')
def registry_map(env):
    owner = env.account('owner')
    reg = env.must_deploy('registry', ScoreRegistry, owner, {})
    keys = ['ScoreRegistry', 'Network']
    model = {'ScoreRegistry': reg, 'Network': ZERO}
    if env.choice('read by a contract', [False, True]):
        # whoever asks for the names cannot change them
        meddle(env, lambda ask: ask(reg, 'getScoreIds'))

    def agree():
        for k in keys:
            env.check(env.eqv(env.get(reg, 'getAddress', _scoreName=k), model[k]), 'lookup-as-registered')
    agree()
    env.check(env.get(reg, 'getScoreIds') == keys, 'ids')
    for i in range(env.config['n']):
        caller = env.address('caller')
        name = env.string('name', pool=keys + ['other'])
        known = env.Or(name == keys[0], name == keys[1])
        if env.choice('op', ['register', 'unregister']) == 'register':
            a = env.address('addr', zero=True)
            r = env.tx(caller, reg, 'registerAddress', dict(_scoreName=name, _scoreAddress=a))
            allowed = env.And(caller == owner, known, a != ZERO, a.is_contract)
            env.check(allowed if r.ok else env.Not(allowed), 'register-exactly-when-valid')
            if r.ok:
                env.reach('registered')
                k = keys[0] if name == keys[0] else keys[1]
                if k == keys[0] or model[k] != ZERO:
                    env.reach('overwritten')
                model[k] = a
                ev = r.named('AddressUpdate')
                env.check(len(ev) == 1 and is_event(env, ev[0], [name, a]), 'update-event')
        else:
            r = env.tx(caller, reg, 'unregisterAddress', dict(_scoreName=name))
            if r.ok:
                env.check(env.And(caller == owner, known), 'unregister-only-owner-known')
                env.reach('unregistered')
                k = keys[0] if name == keys[0] else keys[1]
                env.check(model[k] != ZERO, 'unregister-only-registered')
                model[k] = ZERO
                ev = r.named('AddressUpdate')
                env.check(len(ev) == 1 and is_event(env, ev[0], [name, ZERO]), 'update-event')
            else:
                ok = env.And(caller == owner, env.Or(env.And(name == keys[0], env.Not(model[keys[0]] == ZERO)),
                                                     env.And(name == keys[1], env.Not(model[keys[1]] == ZERO))))
                env.check(env.Not(ok), 'unregister-accepted-when-valid')
        if not r.ok:
            env.reach('refused')
        agree()
        other = env.string('lookup', pool=keys)
        if env.And(other != keys[0], other != keys[1]):
            env.check(env.get(reg, 'getAddress', _scoreName=other) == ZERO, 'unknown-name-is-unset')


# -- withdrawing tokens from contracts -----------------------------------------------------------

class PlainToken(IconScoreBase):
    """A token that records the transfers it is asked for and refuses when told to."""

    def __init__(self, db):
        super().__init__(db)

    def on_install(self):
        pass

    def on_update(self):
        pass

    def init(self, world, env):
        self.env, self.calls, self.have = env, [], None

    @external
    def transfer(self, _to: Address, _value: int, _data: bytes = None):
        self.calls.append((self.msg.sender, _to, _value))
        if self.env.choice('token_refuses', [False, True]):
            iconservice.revert('refused')

    @external(readonly=True)
    def balanceOf(self, _owner: Address) -> int:
        if self.have is None:
            self.have = self.env.int('have', lo=0)
        return self.have


@scenario('C12', configs=[{'what': w} for w in ('Network', 'FlexibleToken', 'IcxToken', 'Converter', 'viaController')],
          reach=['withdrawn', 'refused'],
          bound='one withdrawal by an arbitrary caller to an arbitrary account of an arbitrary amount')
def withdraw_tokens(env):
    what = env.config['what']
    m = priv_world(env, env.choice('phase', ['active', 'inactive']) if what in ('Converter', 'viaController') else 'inactive')
    p = env.world.place('plain', PlainToken, env)
    tok = env.world.find_score(p)
    c = m.F.at if what == 'viaController' else m.by[what]
    caller = env.address('caller')
    to = env.address('to', zero=True)
    n = env.int('n')
    if what == 'viaController':
        r = env.tx(caller, m.at, 'withdrawFromToken', dict(_token=p, _to=to, _amount=n))
        owner = m.owner
        allowed = env.And(caller == owner, n > 0, to != ZERO, to != c, env.get(m.at, 'isActive'))
    else:
        owner = env.get(c, 'getOwner')
        r = env.tx(caller, c, 'withdrawTokens', dict(_token=p, _to=to, _amount=n))
        allowed = env.And(caller == owner, n > 0, to != ZERO, to != c)
    if r.ok:
        env.reach('withdrawn')
        env.check(allowed, 'withdraw-only-when-allowed')
        env.check(len(tok.calls) == 1 and same(env, list(tok.calls[0]), [c, to, n]), 'withdraws-exactly-as-asked')
    else:
        env.reach('refused')
        env.check(env.Or(env.Not(allowed), len(tok.calls) == 1), 'allowed-withdraw-reaches-token')
        if tok.calls:
            env.check(env.And(allowed, same(env, list(tok.calls[0]), [c, to, n])), 'no-transfer-unless-allowed')


@scenario('C12', configs=[{'what': 'Network', 'kind': k} for k in ('irc', 'flexible', 'icx')] +
          [{'what': 'Converter', 'kind': 'own', 'phase': p} for p in ('active', 'inactive')],
          reach=['withdrawn', 'refused'],
          bound='a contract holding an arbitrary amount of a real token of every kind; one withdrawal by an arbitrary '
                'caller of an arbitrary amount to an arbitrary account')
def withdraw_real_tokens(env):
    what, kind = env.config['what'], env.config['kind']
    m = priv_world(env, env.config.get('phase', 'inactive'))
    c = m.by[what]
    held = env.int('held', lo=1, hi=10 ** 12)
    if kind == 'own':
        t = m.F
        if env.config['phase'] == 'active':
            env.must(m.owner, m.at, 'transferTokenOwnership', dict(_newOwner=m.owner))
            env.must(m.owner, m.F.at, 'acceptOwnerShip')
        env.must(m.owner, t.at, 'issue', dict(_to=c, _amount=held))
        if env.config['phase'] == 'active':
            env.must(m.owner, m.F.at, 'transferOwnerShip', dict(_newOwner=m.at))
            env.must(m.owner, m.at, 'acceptTokenOwnership')
    else:
        t = Tok(env, kind, 10 ** 12, 'stray', m.owner)
        env.must(m.owner, t.at, 'transfer', dict(_to=c, _value=held, _data=b'conversionResult'))
    caller, to, n = env.address('caller'), env.address('to', zero=True), env.int('n')
    env.assume(env.And(to != m.owner, *[to != u for u in t.users]))
    owner = env.get(c, 'getOwner')
    c0, t0, s0 = t.bal(c), t.bal(to), t.supply()
    env.check(c0 == held, 'held-as-received')
    r = env.tx(caller, c, 'withdrawTokens', dict(_token=t.at, _to=to, _amount=n))
    allowed = env.And(caller == owner, n > 0, n <= held, to != ZERO, to != c)
    if r.ok:
        env.reach('withdrawn')
        env.check(allowed, 'withdraw-only-when-allowed')
        env.check(env.And(t.bal(c) == c0 - n, t.bal(to) == t0 + n, t.supply() == s0), 'withdraws-exactly-as-asked')
    else:
        env.reach('refused')
        env.check(env.And(t.bal(c) == c0, t.bal(to) == t0, t.supply() == s0), 'refused-withdrawal-changes-nothing')
        if not to.is_contract:
            env.check(env.Not(allowed), 'allowed-withdrawal-accepted')
