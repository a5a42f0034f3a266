"""Properties that cut across all contracts: reload/upgrade, read-only methods, entry points, ICX payments."""
from symdex.registry import scenario
from iconservice.base.exception import ExceptionCode

from symdex.scen.common import *  # noqa: F401,F403
from symdex.scen.access import OWNED

ALL = ['IRCToken'] + OWNED


class Estate:
    """One contract of the given kind in a non-trivial state reached through its interface, and everything it shows."""

    def __init__(self, env, what):
        self.env, self.what = env, what
        self.owner, self.manager = env.account('owner'), env.account('manager')
        self.who, self.other = env.account('who'), env.account('other')
        self.names = []
        I = env.int
        o = self.owner
        if what in ('IRCToken', 'FlexibleToken', 'IcxToken'):
            self.tok = Tok(env, {'IRCToken': 'irc', 'FlexibleToken': 'flexible', 'IcxToken': 'icx'}[what],
                           I('supply', lo=1), 'c', o)
            self.at = self.tok.at
            self.tok.give(self.who, I('given', lo=1))
            if what == 'FlexibleToken' and env.choice('frozen', [False, True]):
                env.must(o, self.at, 'disableTransfer', dict(_disable=True))
        elif what == 'ScoreRegistry':
            self.at = env.must_deploy('c', ScoreRegistry, o, {})
            self.reg = env.address('registered', 'contract')
            env.must(o, self.at, 'registerAddress', dict(_scoreName='Network', _scoreAddress=self.reg))
            if env.choice('unregister', [False, True]):
                env.must(o, self.at, 'unregisterAddress', dict(_scoreName='ScoreRegistry'))
        elif what == 'Network':
            self.at = env.must_deploy('c', Network, o, {})
            self.icxt = env.address('icxt', 'contract')
            env.must(o, self.at, 'registerIcxToken', dict(_icxToken=self.icxt, _register=True))
        else:
            virt = env.choice('virtual', [True, False])
            m = self.m = Market(env, wb=I('weightB', lo=1, hi=MAX_WEIGHT), virt_a=virt, fee=I('fee', lo=0, hi=MAX_WEIGHT),
                                max_fee=MAX_WEIGHT, real_network=False, activate=env.choice('active', [True, False]))
            self.at = m.at
            if env.choice('connector off', [True, False]):
                env.must(o, self.at, 'disableConnectorPurchases', dict(_connectorToken=m.A.at, _disable=True))
            flags = env.choice('flags', ['none', 'paused', 'registry'])
            if flags == 'paused':
                env.must(o, self.at, 'disableConversions', dict(_disable=True))
            elif flags == 'registry':
                r2 = env.must_deploy('registry2', ScoreRegistry, o, {})
                env.must(o, m.registry, 'registerAddress', dict(_scoreName='ScoreRegistry', _scoreAddress=r2))
                env.must(o, self.at, 'updateRegistry')
                env.must(o, self.at, 'disableRegistryUpdate', dict(_disable=True))
            if env.choice('manager handed over', [True, False]):
                env.must(o, self.at, 'transferManagement', dict(_newManager=self.manager))
                env.must(self.manager, self.at, 'acceptManagement')
                env.must(self.manager, self.at, 'transferManagement', dict(_newManager=self.other))
        if what != 'IRCToken':
            env.must(o, self.at, 'transferOwnerShip', dict(_newOwner=self.other))

    def queries(self):
        """(method, args): every read-only method, arguments as general as the scenario allows."""
        w, m = self.what, getattr(self, 'm', None)
        q = []
        if w in ('IRCToken', 'FlexibleToken', 'IcxToken'):
            q += [('name', {}), ('symbol', {}), ('decimals', {}), ('totalSupply', {}),
                  ('balanceOf', dict(_owner=self.owner)), ('balanceOf', dict(_owner=self.who)),
                  ('balanceOf', dict(_owner=self.other))]
        if w == 'FlexibleToken':
            q += [('getFlexibleTokenVersion', {}), ('getTransferPossibility', {})]
        if w == 'ScoreRegistry':
            q += [('getScoreIds', {})] + [('getAddress', dict(_scoreName=n)) for n in ('ScoreRegistry', 'Network', '?')]
        if w == 'Network':
            q += [('getIcxTokenRegistered', dict(_icxToken=a)) for a in (self.icxt, self.who, self.at)]
        if w == 'Converter':
            q += [(n, {}) for n in ('isAllowRegistryUpdate', 'isActive', 'getPreviousRegistry', 'getRegistry',
                                    'getConnectorTokenCount', 'getMaxConversionFee', 'getConversionFee',
                                    'isConversionsEnabled', 'getToken', 'getManager', 'getNewManager')]
            q += [('getConnectorAt', dict(_index=i)) for i in (0, 1)]
            q += [('getConnector', dict(_address=t.at)) for t in (m.A, m.B)]
            q += [('getConnectorBalance', dict(_connectorToken=t.at)) for t in (m.A, m.B)]
        if w != 'IRCToken':
            q += [('getOwner', {}), ('getNewOwner', {})]
        return q

    def snapshot(self):
        out = []
        for n, p in self.queries():
            r = self.env.q(self.at, n, p)
            out.append((r.ok, r.ret if r.ok else None))
        out.append((True, self.env.icx(self.at)))
        return out


def unchanged(env, a, b, label):
    for (ok0, v0), (ok1, v1) in zip(a, b):
        env.check(ok0 == ok1, label)
        if ok0:
            env.check(same(env, v0, v1), label)


@scenario('C37', configs=[{'what': w, 'how': h} for w in ALL for h in ('restart', 'upgrade')], reach=['compared'],
          weight=3, bound='each contract in a state with arbitrary amounts, addresses and settings; one reload from '
                          'storage or one on_update, by any deployer')
def state_survives(env):
    """State lives in storage only, and the upgrade hook neither loses nor resets any of it."""
    e = Estate(env, env.config['what'])
    before = e.snapshot()
    if env.config['how'] == 'restart':
        for a, _ in list(env.world.scores):
            env.world.reload(a) if a is e.at else None
    else:
        r = env.update(e.at, env.address('updater'))
        env.check(r.ok, 'upgrade-hook-succeeds')
        env.check(not r.events, 'upgrade-emits-nothing')
    unchanged(env, before, e.snapshot(), 'state-survives')
    if e.what != 'IRCToken':
        who = env.address('claimant')
        r = env.tx(who, e.at, 'acceptOwnerShip')
        env.check((who == e.other) if r.ok else (who != e.other), 'pending-ownership-survives')
    if e.what == 'Converter':
        who = env.address('feesetter')
        r = env.tx(who, e.at, 'setConversionFee', dict(_conversionFee=1))
        mg = env.get(e.at, 'getManager')
        ow = env.get(e.at, 'getOwner')
        ok = env.Or(who == mg, who == ow)
        env.check(ok if r.ok else env.Not(ok), 'authority-survives')
    env.reach('compared')


@scenario('C38', configs=[{'what': w} for w in ALL], reach=['queried', 'called'], weight=3, formula='uf',
          bound='every read-only method, as a query and as a transaction by any caller, in a state with arbitrary '
                'amounts and settings')
def reading_is_pure(env):
    e = Estate(env, env.config['what'])
    qs = e.queries()
    if e.what == 'Converter':
        qs += [('getReturn', dict(_fromToken=a.at, _toToken=b.at, _amount=0))
               for a in (e.m.A, e.m.F) for b in (e.m.B, e.m.F)]
        qs += [('getFinalAmount', dict(_amount=env.int('amount', lo=0), _magnitude=i)) for i in (1, 2)]
    before = e.snapshot()
    how = env.choice('how', ['query', 'transaction'])
    who = env.address('reader')
    for n, p in qs:
        if how == 'query':
            env.q(e.at, n, p)
        else:
            r = env.tx(who, e.at, n, p)
            if r.ok:
                env.check(not r.events, 'reading-emits-nothing')
    env.check(env.query_effects == 0, 'queries-write-nothing')
    unchanged(env, before, e.snapshot(), 'reading-changes-nothing')
    env.reach('queried' if how == 'query' else 'called')


HOOKS = ['on_install', 'on_update', '__init__', '_transfer', '_set_owner', 'require_owner_only', '_convert', '_buy',
         '_sell', '_convert_cross_connector', 'get_purchase_return', 'get_sale_return', 'get_cross_connector_return',
         '_convert_for_internal', '_convert_by_path', '_convert_path', '_is_active', 'require_transfer_allowed']
INTERNAL = ['_convert_bytes_data', '_require_valid_path', '_require_conversions_allowed', '_require_max_total_weight_only',
            '_require_valid_connector', '_require_valid_connector_weight', '_require_valid_conversion_fee',
            '_require_valid_max_conversion_fee', '_require_valid_token', '_require_active', '_require_inactive',
            'require_manager_only', 'require_owner_or_manager_only', 'add_fields', 'create_interface_score', 'call',
            'revert', 'get_owner', '_create_proxy_class', '_get_interface_function', 'Transfer', 'Issuance',
            'Destruction', 'OwnerUpdate', 'ManagerUpdate', 'AddressUpdate', 'Conversion', 'PriceDataUpdate']


@scenario('C39', configs=[{'what': w} for w in ALL], reach=['tried'], weight=2,
          bound='the initialiser, the upgrade hook and the internal helpers named in the scenario, called by anyone '
                'including the owner')
def internal_entry_points(env):
    e = Estate(env, env.config['what'])
    before = e.snapshot()
    who = env.address('who')
    for n in HOOKS:
        for p in ({}, dict(_token=e.at, _registry=e.at, _maxConversionFee=0, _connectorToken=ZERO, _connectorWeight=0),
                  dict(_name='x', _symbol='x', _initialSupply=1, _decimals=1)):
            r = env.tx(who, e.at, n, p)
            env.check(not r.ok, 'internal-functions-cannot-be-called')
    unchanged(env, before, e.snapshot(), 'nothing-reinitialised')
    # reachability alone: whatever arguments or caller it would want, the call finds no such entry point
    for n in HOOKS + INTERNAL:
        for r in (env.tx(who, e.at, n, {}), env.q(e.at, n, {})):
            env.check(not r.ok and (getattr(r.error, 'code', None) == ExceptionCode.METHOD_NOT_FOUND or
                                    isinstance(r.error, AttributeError)),
                      'internal-functions-cannot-be-called', n)
    env.reach('tried')


@scenario('C39', configs=[{'what': w} for w in ALL], reach=['paid', 'refused'], weight=2,
          bound='a payment of any positive amount by anyone, as a plain transfer or along with any non-payable method '
                'of the table')
def payments(env):
    """ICX can only be sent where the system accounts for it."""
    what = env.config['what']
    e = Estate(env, what)
    payer = env.account('payer')
    value = env.int('value', lo=1)
    env.world.fund_icx(payer, value)
    before = e.snapshot()
    opts = [None, 'getOwner', 'balanceOf', 'transfer', 'transferOwnerShip', 'acceptOwnerShip', 'withdrawTokens',
            'tokenFallback', 'withdraw', 'issue', 'destroy', 'registerAddress', 'registerIcxToken',
            'acceptTokenOwnership', 'withdrawTo', 'deposit', 'setConversionFee', 'addConnector']
    m = env.choice('method', opts)
    args = {'balanceOf': dict(_owner=payer), 'transfer': dict(_to=e.who, _value=0),
            'transferOwnerShip': dict(_newOwner=payer),
            'withdrawTokens': dict(_token=e.at, _to=payer, _amount=1),
            'tokenFallback': dict(_from=payer, _value=1, _data=b'conversionResult'),
            'withdraw': dict(_amount=1), 'withdrawTo': dict(_amount=1, _to=payer),
            'issue': dict(_to=payer, _amount=1), 'destroy': dict(_from=payer, _amount=1),
            'registerAddress': dict(_scoreName='Network', _scoreAddress=e.at),
            'registerIcxToken': dict(_icxToken=e.at, _register=True), 'setConversionFee': dict(_conversionFee=1),
            'addConnector': dict(_token=e.at, _weight=1, _enableVirtualBalance=False)}
    r = env.tx(payer, e.at, m, args.get(m, {}), value=value)
    if what == 'IcxToken' and m in (None, 'deposit'):
        env.check(r.ok, 'deposit-accepted')
        env.check(e.tok.bal(payer) == value, 'deposit-credited')
        env.reach('paid')
        return
    env.check(not r.ok, 'payment-refused-where-it-would-be-lost')
    env.check(env.icx(payer) == value, 'refused-payment-stays-with-the-payer')
    unchanged(env, before, e.snapshot(), 'refused-payment-changes-nothing')
    env.reach('refused')
    if what != 'IcxToken':
        env.reach('paid')
