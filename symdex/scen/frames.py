"""Frames: whatever method of whatever contract anyone calls, each part of the state changes only through the
operations meant to change it.  The methods are discovered from the code, so a new or altered entry point is covered."""
import inspect

from symdex.registry import scenario
from symdex.scen.common import *  # noqa: F401,F403
from symdex.scen.access import OWNED, priv_world

CLASSES = {'ScoreRegistry': ScoreRegistry, 'Network': Network, 'FlexibleToken': FlexibleToken, 'IcxToken': IcxToken,
           'Converter': Converter, 'IRCToken': IRCToken}


def entry_points(cls):
    """(method, parameters, payable) of every externally callable method that may change state, and the fallback."""
    from iconservice.iconscore.icon_score_constant import CONST_BIT_FLAG, ConstBitFlag
    out = []
    for n, f in sorted(inspect.getmembers(cls, inspect.isfunction)):
        fl = getattr(f, CONST_BIT_FLAG, 0)
        if n == 'fallback' and fl & ConstBitFlag.Payable:
            out.append((None, [], True))
        elif fl & ConstBitFlag.External and not fl & ConstBitFlag.ReadOnly:
            out.append((n, [(p.name, p.annotation) for p in list(inspect.signature(f).parameters.values())[1:]],
                        bool(fl & ConstBitFlag.Payable)))
    return out


def rich_world(env, switches=False):
    """Every part of the state has been moved away from its initial value, to arbitrary values where possible."""
    m = priv_world(env, env.config.get('phase', 'active'))
    m.irc = m.A.at
    m.by['IRCToken'] = m.irc
    o = m.owner
    m.candidate = env.address('candidate')
    m.registry2 = env.must_deploy('registry2', ScoreRegistry, o, {})
    env.must(o, m.registry2, 'registerAddress', dict(_scoreName='Network', _scoreAddress=m.network))
    env.must(o, m.registry, 'registerAddress', dict(_scoreName='ScoreRegistry', _scoreAddress=m.registry2))
    env.must(o, m.at, 'updateRegistry')
    env.must(o, m.at, 'setConversionFee', dict(_conversionFee=env.int('fee', lo=0, hi=MAX_WEIGHT)))
    env.must(o, m.at, 'updateConnector', dict(
        _connectorToken=m.A.at, _weight=env.int('weight', lo=1, hi=MAX_WEIGHT), _enableVirtualBalance=True,
        _virtualBalance=env.int('virtual', lo=1)))
    env.must(o, m.network, 'registerIcxToken', dict(_icxToken=m.icxt, _register=True))
    for c in (m.registry, m.network, m.icxt, m.at) + ((m.F.at,) if env.get(m.F.at, 'getOwner') == o else ()):
        env.must(o, c, 'transferOwnerShip', dict(_newOwner=m.candidate))
    env.must(m.manager, m.at, 'transferManagement', dict(_newManager=m.candidate))
    # the caller-to-be may hold tokens of every kind, and every contract may have been sent some by mistake
    m.caller = env.address('caller')
    rest = env.int('deposited', lo=2)
    env.world.fund_icx(o, rest)
    env.must(o, m.icxt, 'deposit', {}, value=rest)
    if not m.caller.is_contract:
        for t in (m.A.at, m.F.at, m.icxt):
            env.must(o, t, 'transfer', dict(_to=m.caller, _value=env.int('holds', lo=0)))
    if switches and env.choice('switched off', [False, True]):
        env.must(o, m.at, 'disableConnectorPurchases', dict(_connectorToken=m.A.at, _disable=True))
        env.must(o, m.at, 'disableConversions', dict(_disable=True))
        env.must(o, m.at, 'disableRegistryUpdate', dict(_disable=True))
        if env.config.get('phase') != 'offered':
            env.must(o, m.at, 'disableTokenTransfers', dict(_disable=True))
    return m


def any_call(env, m, what, paying=None, skip=()):
    """One call of any entry point of the given contract by anyone with any arguments."""
    name, params, payable = env.choice('method', [e for e in entry_points(CLASSES[what]) if e[0] not in skip])
    caller = m.caller
    args = {}
    path = '%s,%s,%s' % (m.A.at, m.F.at, m.F.at)
    for n, t in params:
        if t is int:
            args[n] = env.int(n)
        elif t is bool:
            args[n] = env.choice(n, [True, False])
        elif t is Address:
            args[n] = env.address(n, zero=True)
        elif t is str:
            args[n] = env.choice(n, ['Network', 'ScoreRegistry'] if what == 'ScoreRegistry' else [path])
        elif t is bytes:
            args[n] = env.choice(n, [b'', dumps({'toToken': str(m.F.at), 'minReturn': 1})] if what == 'Converter' else
                                 [b'', dumps({'path': path, 'minReturn': 1})])
    value = 0
    if paying if paying is not None else payable and env.choice('paying', [True, False]):
        value = env.int('paid', lo=1)
        env.world.fund_icx(caller, value)
    r = env.tx(caller, m.by[what], name, args, value=value)
    return name, caller, args, r


def getters(m, what, *names, **kw):
    return [(what, n, dict(kw)) for n in names]


TOKENS_ = ('FlexibleToken', 'IcxToken', 'IRCToken')
OWNER = {w: {w + '.transferOwnerShip', w + '.acceptOwnerShip'} for w in OWNED}
OWNER['FlexibleToken'] |= {'Converter.transferTokenOwnership', 'Converter.acceptTokenOwnership'}
# what may lead to a conversion: it moves tokens and virtual balances, nothing else
MOVES = {'Converter.tokenFallback', 'Network.tokenFallback', 'Network.convert', 'Network.convertFor',
         'Converter.withdrawTokens', 'Converter.withdrawFromToken'} | {
             w + '.' + x for w in OWNED + ['IRCToken'] for x in ('transfer', 'withdrawTokens')}


def connector_part(*fields):
    def f(env, m):
        d = m.connector(m.A)
        return [d.get(k) for k in fields]
    return f


def ask(what, method, **kw):
    return lambda env, m: env.get(m.by[what], method, **{k: v(m) for k, v in kw.items()})


# property -> [(name of the part, how to observe it, the operations that may change it)]
PARTS = {
    'C03': [('flexible supply', ask('FlexibleToken', 'totalSupply'),
             {'FlexibleToken.issue', 'FlexibleToken.destroy'} | MOVES)],
    'C04': [('transfer switch', ask('FlexibleToken', 'getTransferPossibility'),
             {'FlexibleToken.disableTransfer', 'Converter.disableTokenTransfers'})],
    'C05': [('icx supply', ask('IcxToken', 'totalSupply'),
             {'IcxToken.deposit', 'IcxToken.None', 'IcxToken.withdraw', 'IcxToken.withdrawTo', 'Network.convert',
              'Network.convertFor'})],
    'C07': [('%s of %s' % (g, w), ask(w, g), set()) for w in TOKENS_ for g in ('name', 'symbol', 'decimals')] +
           [('supply of a plain token', ask('IRCToken', 'totalSupply'), set())],
    'C08': [('%s %s' % (w, g), ask(w, g), OWNER[w]) for w in OWNED for g in ('getOwner', 'getNewOwner')],
    'C09': [('manager', ask('Converter', 'getManager'), {'Converter.acceptManagement'}),
            ('offered manager', ask('Converter', 'getNewManager'),
             {'Converter.acceptManagement', 'Converter.transferManagement'})],
    'C11': [('entry ' + k, (lambda k: ask('ScoreRegistry', 'getAddress', _scoreName=lambda m: k))(k),
             {'ScoreRegistry.registerAddress', 'ScoreRegistry.unregisterAddress'}) for k in ('Network', 'ScoreRegistry')],
    'C13': [('weight and mode', connector_part('weight', 'isVirtualBalanceEnabled', 'isSet'),
             {'Converter.updateConnector'}),
            ('purchase switch', connector_part('isPurchaseEnabled'), {'Converter.disableConnectorPurchases'}),
            ('virtual balance', connector_part('virtualBalance'), {'Converter.updateConnector'} | MOVES),
            ('connector count', ask('Converter', 'getConnectorTokenCount'), {'Converter.addConnector'}),
            ('first connector', ask('Converter', 'getConnectorAt', _index=lambda m: 0), set()),
            ('flexible token', ask('Converter', 'getToken'), set())],
    'C14': [('fee', ask('Converter', 'getConversionFee'), {'Converter.setConversionFee'}),
            ('maximum fee', ask('Converter', 'getMaxConversionFee'), set())],
    'C21': [('pause', ask('Converter', 'isConversionsEnabled'), {'Converter.disableConversions'}),
            ('purchases', connector_part('isPurchaseEnabled'), {'Converter.disableConnectorPurchases'})],
    'C24': [('registry', ask('Converter', 'getRegistry'), {'Converter.updateRegistry', 'Converter.restoreRegistry'}),
            ('previous registry', ask('Converter', 'getPreviousRegistry'), {'Converter.updateRegistry'}),
            ('permission', ask('Converter', 'isAllowRegistryUpdate'),
             {'Converter.disableRegistryUpdate', 'Converter.restoreRegistry'})],
    'C30': [('icx registration', ask('Network', 'getIcxTokenRegistered', _icxToken=lambda m: m.icxt),
             {'Network.registerIcxToken'})],
}
# the contracts whose entry points can matter for the part
CALLED = {'C03': ['FlexibleToken', 'Converter', 'Network'], 'C04': ['FlexibleToken', 'Converter'],
          'C05': ['IcxToken', 'Network'], 'C07': list(TOKENS_), 'C08': OWNED, 'C09': ['Converter'],
          'C11': ['ScoreRegistry', 'Converter'], 'C13': ['Converter', 'FlexibleToken'], 'C14': ['Converter'],
          'C21': ['Converter', 'FlexibleToken'], 'C24': ['Converter', 'ScoreRegistry'], 'C30': ['Network', 'IcxToken']}


def frame(prop):
    parts = PARTS[prop]

    def fn(env):
        m = rich_world(env, prop in ('C04', 'C13', 'C21', 'C24'))
        before = [see(env, m) for _, see, _ in parts]
        what = env.config['what']
        name, caller, args, r = any_call(env, m, what)
        env.reach('accepted' if r.ok else 'refused')
        op = '%s.%s' % (what, name)
        if r.ok:
            env.reach('accepted ' + op)
        for (part, see, allowed), old in zip(parts, before):
            if not r.ok or op not in allowed:
                env.check(same(env, old, see(env, m)), 'changes-only-by-its-own-operations:' + part.replace(' ', '-'))
    fn.__name__ = fn.__qualname__ = 'frame_' + prop
    fn.__module__ = __name__
    return fn


for _p in PARTS:
    scenario(_p, configs=[{'what': w} for w in CALLED[_p]] +
             [{'what': w, 'phase': 'offered'} for w in CALLED[_p]], formula='uf', weight=2,
             reach=['refused'] + ['accepted'],
             bound='a state with arbitrary settings, pending offers and balances; one call of any entry point '
                   '(discovered from the code) of %s by anyone with arbitrary arguments' % ', '.join(CALLED[_p]))(frame(_p))


ACCOUNTED = {'IcxToken': (None, 'deposit'), 'Network': ('convert', 'convertFor')}


@scenario('C39', configs=[{'what': w} for w in OWNED + ['IRCToken']] +
          [{'what': w, 'phase': 'offered', 'thorough': True} for w in OWNED], formula='uf', weight=2, reach=['refused'],
          bound='a state with arbitrary settings and balances; one call of any entry point (discovered from the code) '
                'other than depositing and converting ICX, by anyone, with arbitrary arguments and an arbitrary payment')
def no_stray_payments(env):
    """ICX sent along with any other operation would be lost, so it is refused."""
    m = rich_world(env)
    what = env.config['what']
    name, caller, args, r = any_call(env, m, what, paying=True, skip=ACCOUNTED.get(what, ()))
    env.check(not r.ok, 'payment-refused-where-it-would-be-lost')
    env.reach('refused')
