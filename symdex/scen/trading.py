"""Conversions executed by a converter: pricing, exact accounting, gating, events, round trips."""
from symdex.registry import scenario
from symdex.scen.common import *  # noqa: F401,F403
from contracts.formula import formula

MAX_NUM = 1 << 129


def attempt(env, fn, *args):
    """The value of a formula call, or None where it rejects its arguments."""
    try:
        return fn(*args)
    except env.signals:
        raise
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        return None


class Trade:
    """A funded market and one conversion request against it, with the specified outcome."""

    def __init__(self, env, op, exact=False, virt_from=False, virt_to=False, fee=0, kind='irc', activate=True,
                 amount=None, purchases='on', holder_has=None):
        self.env, self.op = env, op
        I = env.int
        cross = op == 'cross'
        virt_a = virt_from if op in ('buy', 'cross') else virt_to
        virt_b = virt_to if cross else False
        if exact:
            w = I('w', lo=1, hi=MAX_WEIGHT // 2) if cross else MAX_WEIGHT
            wa, wb = w, (w if cross else None)
        else:
            wa = I('wa', lo=1, hi=MAX_WEIGHT)
            wb = I('wb', lo=1, hi=MAX_WEIGHT) if cross else None
            if cross:
                env.assume(wa + wb <= MAX_WEIGHT)
        self.exact = exact
        self.m = m = Market(env, wa=wa, wb=wb, virt_a=virt_a, virt_b=virt_b, fee=fee, real_network=False,
                            kind_a=kind, kind_b=kind, activate=activate, supply=I('supply', lo=1))
        self.frm, self.to = {'buy': (m.A, m.F), 'sell': (m.F, m.A), 'cross': (m.A, m.B)}[op]
        self.conn_from = self.frm if op != 'sell' else None
        self.conn_to = self.to if op != 'buy' else None
        if env.config.get('hist') == 'traded':
            self.trade_before()
        self.hold = I('hold', lo=0)
        self.frm.give(m.network, self.hold)
        self.x = amount if amount is not None else I('x', lo=0)
        self.min = I('min')
        self.virt_from = virt_from if op != 'sell' else None
        self.virt_to = virt_to if op != 'buy' else None

    def trade_before(self):
        """Conversions of any size have been made already, in the same direction or the opposite one."""
        env, m = self.env, self.m
        frm, to = env.choice('before', [(self.frm, self.to), (self.to, self.frm)])
        x0 = env.int('x0', lo=1)
        frm.give(m.network, x0)
        env.must(m.network, frm.at, 'transfer', dict(_to=m.at, _value=x0, _data=dumps({'toToken': str(to.at),
                                                                                      'minReturn': 1})))

    def w(self, tok):
        return self.m.wa if tok is self.m.A else self.m.wb

    def keep(self, y):
        k = MAX_WEIGHT - self.m.fee
        return y * k * k // (MAX_WEIGHT * MAX_WEIGHT) if self.op == 'cross' else y * k // MAX_WEIGHT

    def calc(self):
        """The curve's result for this trade on the present state (before fees); None if there is none."""
        env, m, x = self.env, self.m, self.x
        if self.op == 'buy':
            return attempt(env, formula.calculate_purchase_return, m.F.supply(), m.connector_balance(m.A), m.wa, x)
        if self.op == 'sell':
            return attempt(env, formula.calculate_sale_return, m.F.supply(), m.connector_balance(m.A), m.wa, x)
        return attempt(env, formula.calculate_cross_connector_return, m.connector_balance(m.A), m.wa,
                       m.connector_balance(m.B), m.wb, x)

    def observe(self):
        m = self.m
        toks = [t for t in (m.A, m.C, m.B, m.F) if t]
        self.before = {
            'bal': {(t.at, h): t.bal(h) for t in toks for h in (m.at, m.network, m.owner)},
            'sup': {t.at: t.supply() for t in toks},
            'conn': {t.at: m.connector(t) for t in toks if t is not m.F},
            'cbal': {t.at: m.connector_balance(t) for t in toks if t is not m.F}}
        return self.before

    def quote(self):
        return self.env.q(self.m.at, 'getReturn', dict(_fromToken=self.frm.at, _toToken=self.to.at, _amount=self.x))

    def execute(self, frm=None):
        return self.m.request(self.frm, self.x, self.to, self.min, frm)

    def gain(self):
        m = self.m
        return self.to.bal(m.network) - self.before['bal'][self.to.at, m.network]


def configs(ops, exacts=(False, True), kinds=('irc',), virtuals=True):
    out = []
    for op in ops:
        for exact in exacts:
            for vf in ((False, True) if virtuals and op != 'sell' else (False,)):
                for vt in ((False, True) if virtuals and op != 'buy' else (False,)):
                    for kind in kinds:
                        out.append({'op': op, 'exact': exact, 'vf': vf, 'vt': vt, 'kind': kind})
    return out + [{'op': op, 'exact': False, 'vf': v and op != 'sell', 'vt': v and op != 'buy', 'hist': h}
                  for op in ops for h in ('changed', 'traded', 'attempted', 'restarted', 'moved', 'owns') for v in ((False, True) if virtuals else (False,))]


FEES = [0, 1, 3000, 999999]


def trade_of(env, fee=None, **kw):
    c = env.config
    if fee is None:
        fee = env.choice('fee', FEES if c.get('hist') in (None, 'changed', 'traded') else FEES[2:3])
    return Trade(env, c['op'], c['exact'], c['vf'], c['vt'], fee=fee, kind=c.get('kind', 'irc'), **kw)


# -- quote and execution --------------------------------------------------------------------------

@scenario('C16', configs=configs(['buy', 'sell', 'cross']), reach=['executed', 'refused'], formula='uf', weight=4,
          bound='one conversion from an arbitrary state of reserves, supply, virtual balances, weights; fees 0, 1, '
                '3000, 999999 ppm; any amount and minimum')
def quote_is_execution(env):
    t = trade_of(env)
    t.observe()
    q = t.quote()
    r = t.execute()
    if r.ok:
        env.reach('executed')
        env.check(q.ok, 'executable-trade-is-quoted')
        env.check(t.gain() == q.ret['amount'], 'execution-pays-the-quote')
        ev = r.named('Conversion')
        env.check(len(ev) == 1 and ev[0][5] == q.ret['fee'], 'execution-charges-the-quoted-fee')
    else:
        env.reach('refused')


@scenario('C16', configs=configs(['buy', 'sell', 'cross']), reach=['quoted', 'no quote'], formula='uf', weight=2,
          bound='one quote in an arbitrary state; any fee')
def quote_is_curve_minus_fee(env):
    t = trade_of(env, fee=env.int('fee', lo=0, hi=MAX_WEIGHT))
    c = t.calc()
    q = t.quote()
    env.check(q.ok == (c is not None), 'quoted-exactly-when-priced')
    if q.ok:
        env.reach('quoted')
        final = t.env.get(t.m.at, 'getFinalAmount', _amount=c, _magnitude=2 if t.op == 'cross' else 1)
        env.check(q.ret['amount'] == final, 'quote-is-curve-minus-fee')
        env.check(q.ret['amount'] + q.ret['fee'] == c, 'fee-is-the-difference')
        env.check(env.And(q.ret['amount'] >= 0, q.ret['fee'] >= 0), 'quote-nonnegative')
    else:
        env.reach('no quote')


# -- exact accounting -----------------------------------------------------------------------------

def accounting(env):
    t = trade_of(env)
    m, x = t.m, t.x
    c = t.calc()
    b = t.observe()
    r = t.execute()
    toks = [k for k in (m.A, m.C, m.B, m.F) if k]
    y = t.keep(c) if c is not None else None
    if r.ok:
        env.reach('executed')
        env.check(c is not None, 'only-priced-trades')
        env.check(env.And(x > 0, t.min > 0, x <= b['bal'][t.frm.at, m.network]), 'only-positive-covered-requests')
        env.check(y >= t.min, 'minimum-respected')
        # who holds what
        exp = dict(b['bal'])
        exp[t.frm.at, m.network] = exp[t.frm.at, m.network] - x
        exp[t.to.at, m.network] = exp[t.to.at, m.network] + y
        if t.op != 'sell':
            exp[t.frm.at, m.at] = exp[t.frm.at, m.at] + x
        if t.op != 'buy':
            exp[t.to.at, m.at] = exp[t.to.at, m.at] - y
        for k, v in exp.items():
            tok = next(q for q in toks if q.at is k[0])
            env.check(tok.bal(k[1]) == v, 'holdings-exact')
        sup = dict(b['sup'])
        if t.op == 'buy':
            sup[m.F.at] = sup[m.F.at] + y
        elif t.op == 'sell':
            sup[m.F.at] = sup[m.F.at] - x
        for q in toks:
            env.check(q.supply() == sup[q.at], 'supply-exact')
        # connector records
        for q in toks:
            if q is m.F:
                continue
            want = dict(b['conn'][q.at])
            if want['isVirtualBalanceEnabled']:
                if q is t.conn_from:
                    want['virtualBalance'] = want['virtualBalance'] + x
                if q is t.conn_to:
                    want['virtualBalance'] = want['virtualBalance'] - y
            env.check(same(env, m.connector(q), want), 'connector-records-exact')
        if t.op != 'buy':
            cb = b['cbal'][t.to.at]
            whole = env.And(y == cb, x == b['sup'][m.F.at]) if t.op == 'sell' else False
            env.check(env.Or(y < cb, whole), 'never-more-than-the-connector-balance')
    else:
        env.reach('refused')
        after = t.observe()
        env.check(same(env, [list(b['bal'].values()), list(b['sup'].values()), list(b['conn'].values())],
                       [list(after['bal'].values()), list(after['sup'].values()), list(after['conn'].values())]),
                  'refused-trade-changes-nothing')
        if c is not None and y is not None:
            ok = env.And(x > 0, t.min > 0, x <= b['bal'][t.frm.at, m.network], y >= t.min)
            if t.op == 'sell':
                cb = b['cbal'][t.to.at]
                ok = env.And(ok, env.Or(y < cb, env.And(y == cb, x == b['sup'][m.F.at])), y <= b['bal'][t.to.at, m.at])
            elif t.op == 'cross':
                cb = b['cbal'][t.to.at]
                ok = env.And(ok, (y + y if t.virt_to else y) < cb, y <= b['bal'][t.to.at, m.at])
            env.check(env.Not(ok), 'valid-trade-accepted')


ACC = dict(reach=['executed', 'refused'], formula='uf', weight=4,
           bound='one conversion from an arbitrary state of reserves, supply, virtual balances, weights, holdings; '
                 'fees 0, 1, 3000, 999999 ppm; any amount and minimum')


@scenario('C17', configs=configs(['buy'], kinds=('irc', 'icx')), **ACC)
def buy_accounting(env):
    accounting(env)


@scenario('C18', configs=configs(['sell'], kinds=('irc', 'icx')), **ACC)
def sell_accounting(env):
    accounting(env)


@scenario('C19', configs=configs(['cross'], kinds=('irc', 'icx')), **ACC)
def cross_accounting(env):
    accounting(env)


@scenario('C20', configs=configs(['buy', 'sell', 'cross'], virtuals=False), reach=['executed', 'refused'],
          formula='uf', weight=3, bound='one conversion with any integer minimum; any fee')
def minimum_return(env):
    t = trade_of(env, fee=env.int('fee', lo=0, hi=MAX_WEIGHT))
    t.observe()
    q = t.quote()
    r = t.execute()
    if r.ok:
        env.reach('executed')
        env.check(t.min >= 1, 'minimum-must-be-positive')
        env.check(t.gain() >= t.min, 'at-least-the-minimum-is-paid')
    else:
        env.reach('refused')
        env.check(t.to.bal(t.m.network) == t.before['bal'][t.to.at, t.m.network], 'refused-pays-nothing')
        env.check(t.frm.bal(t.m.network) == t.before['bal'][t.frm.at, t.m.network], 'refused-costs-nothing')


# -- gating ---------------------------------------------------------------------------------------

@scenario('C21', configs=[{'frm': a, 'to': b} for a in 'ABFX' for b in 'ABFX'] +
          [{'frm': a, 'to': b, 'hist': h} for a, b in ('AF', 'FA', 'AB', 'AX', 'FX')
           for h in ('changed', 'attempted', 'restarted', 'moved', 'owns')], reach=['refused'], formula='uf',
          weight=4,
          bound='one request from any sender between any two of: two connector tokens, the flexible token, an '
                'unrelated token; every combination of conversions enabled, converter active, purchases enabled, '
                'network registered')
def gating(env):
    active = env.choice('active', [True, False])
    m = Market(env, wa=env.int('wa', lo=1, hi=400000), wb=env.int('wb', lo=1, hi=400000), reserve_a=10 ** 12,
               reserve_b=10 ** 12, supply=3 * 10 ** 12, stock=10 ** 12, real_network=False, activate=active)
    X = Tok(env, 'irc', 10 ** 12, 'tokenX', m.owner)
    t = {'A': m.A, 'B': m.B, 'F': m.F, 'X': X}
    frm, to = t[env.config['frm']], t[env.config['to']]
    enabled = env.choice('enabled', [True, False])
    if not enabled:
        env.must(m.owner, m.at, 'disableConversions', dict(_disable=True))
    on = {'A': True, 'B': True}
    for k in 'AB':
        if env.choice('purchases' + k, [True, False]) is False:
            on[k] = False
            env.must(m.owner, m.at, 'disableConnectorPurchases', dict(_connectorToken=t[k].at, _disable=True))
    senders = ['network', 'other', 'unregistered', 'replaced', 'replacement']
    sender = env.choice('sender', senders + (['former', 'former registry'] if m.hist else []))
    who = m.network
    if sender == 'former':
        who = m.old_network
    elif sender == 'former registry':
        # back to the former registry: now the network it names is in charge
        env.must(m.owner, m.at, 'restoreRegistry')
    elif sender in ('replaced', 'replacement'):
        new = env.world.place('newnetwork', Sink)
        env.must(m.owner, m.registry, 'registerAddress', dict(_scoreName='Network', _scoreAddress=new))
        who = new if sender == 'replacement' else who
    elif sender == 'other':
        who = env.world.place('other', Sink)
    elif sender == 'unregistered':
        env.must(m.owner, m.registry, 'unregisterAddress', dict(_scoreName='Network'))
    x = env.int('x', lo=1, hi=10 ** 12)
    frm.give(who, 10 ** 12)
    a0 = frm.bal(who)
    b0 = to.bal(who)
    mn = env.int('min', lo=1)
    q = env.q(m.at, 'getReturn', dict(_fromToken=frm.at, _toToken=to.at, _amount=x))
    r = m.request(frm, x, to, mn, who)
    f, g = env.config['frm'], env.config['to']
    may = active and enabled and sender in ('network', 'replacement') and f != g and 'X' not in (f, g)
    may = may and (on[f] if g == 'F' else True) and (on[g] if f in 'AB' and g in 'AB' else True)
    if r.ok:
        env.check(may, 'conversion-only-when-everything-allows-it')
        env.reach('executed')
    else:
        env.reach('refused')
        env.check(env.And(frm.bal(who) == a0, to.bal(who) == b0), 'refused-request-moves-nothing')
        env.check(not (may and q.ok) or mn > q.ret['amount'], 'allowed-conversion-is-executed')
    if may and env.And(x == 10 ** 6):
        env.reach('allowed')


# -- virtual balances -----------------------------------------------------------------------------

@scenario('C22', configs=[{'op': o, 'exact': e} for o in ('buy', 'sell', 'cross') for e in (True, False)] +
          [{'op': o, 'exact': False, 'hist': h} for o in ('buy', 'sell', 'cross') for h in ('changed', 'attempted', 'restarted', 'moved', 'owns')],
          reach=['executed', 'virtual', 'actual'], formula='uf', weight=4,
          bound='virtual balances switched arbitrarily; prices depend on the virtual balance alone when enabled and '
                'on the actual reserve alone when not; one conversion')
def virtual_pricing(env):
    e = env.config
    vf, vt = env.choice('vf', [True, False]), env.choice('vt', [True, False])
    t = Trade(env, e['op'], e['exact'], vf, vt, fee=0)
    m = t.m
    virt = {m.A.at: (vt if e['op'] == 'sell' else vf)}
    vbal = {m.A.at: getattr(m, 'va', 0)}
    if m.B:
        virt[m.B.at], vbal[m.B.at] = vt, getattr(m, 'vb', 0)
    for tok in (m.A, m.B):
        if tok:
            want = vbal[tok.at] if virt[tok.at] else tok.bal(m.at)
            env.check(m.connector_balance(tok) == want, 'priced-balance')
            env.reach('virtual' if virt[tok.at] else 'actual')
    x = t.x
    bal = lambda k: vbal[k.at] if virt[k.at] else k.bal(m.at)
    if e['op'] == 'buy':
        c = attempt(env, formula.calculate_purchase_return, m.F.supply(), bal(m.A), m.wa, x)
    elif e['op'] == 'sell':
        c = attempt(env, formula.calculate_sale_return, m.F.supply(), bal(m.A), m.wa, x)
    else:
        c = attempt(env, formula.calculate_cross_connector_return, bal(m.A), m.wa, bal(m.B), m.wb, x)
    t.observe()
    r = t.execute()
    if r.ok:
        env.reach('executed')
        env.check(c is not None and t.gain() == c, 'trade-priced-on-the-selected-balance')
        for tok in (m.A, m.B):
            if tok:
                d = (x if tok is t.conn_from else 0) - (c if tok is t.conn_to else 0)
                want = vbal[tok.at] + d if virt[tok.at] else tok.bal(m.at)
                env.check(m.connector_balance(tok) == want, 'balance-follows-the-trade')


# -- reserves -------------------------------------------------------------------------------------

@scenario('C23', configs=configs(['buy', 'sell', 'cross']), reach=['executed'], formula='uf', weight=4,
          bound='one conversion from an arbitrary state, fee any: reserves never negative, never emptied unless the '
                'whole supply is sold')
def reserves_survive(env):
    t = trade_of(env, fee=env.int('fee', lo=0, hi=MAX_WEIGHT))
    m = t.m
    b = t.observe()
    r = t.execute()
    if r.ok:
        env.reach('executed')
        for tok in (m.A, m.C, m.B):
            if not tok:
                continue
            env.check(tok.bal(m.at) >= 0, 'reserve-not-negative')
            cb = m.connector_balance(tok)
            left = cb > 0
            if t.op == 'sell':
                left = env.Or(left, env.And(cb == 0, t.x == b['sup'][m.F.at], m.F.supply() == 0))
            elif tok is t.conn_from:
                left = cb > b['cbal'][tok.at]
            env.check(left, 'reserve-only-emptied-by-selling-everything')
        env.check(m.F.bal(m.at) == b['bal'][m.F.at, m.at], 'converter-keeps-no-flexible-token')
        env.check(m.F.supply() >= 0, 'supply-not-negative')


# -- events ---------------------------------------------------------------------------------------

@scenario('C26', configs=configs(['buy', 'sell', 'cross']), reach=['executed', 'refused'], formula='uf', weight=4,
          bound='one conversion from an arbitrary state, any of four fees')
def conversion_events(env):
    t = trade_of(env)
    m = t.m
    b = t.observe()
    c = t.calc()
    r = t.execute()
    conv, price = r.named('Conversion', m.at), r.named('PriceDataUpdate', m.at)
    if not r.ok:
        env.reach('refused')
        env.check(not r.events, 'refused-trade-emits-nothing')
        return
    env.reach('executed')
    y = t.gain()
    env.check(len(conv) == 1 and is_event(env, conv[0], [t.frm.at, t.to.at, m.network, t.x, y, c - y]),
              'conversion-event-reports-the-trade')
    toks = [k for k in (m.A, m.B) if k]
    env.check(len(price) == len(toks), 'one-price-update-per-connector')
    for k in toks:
        ev = [p for p in price if p[0] == k.at]
        env.check(len(ev) == 1 and is_event(env, ev[0], [k.at, m.F.supply(), m.connector_balance(k), t.w(k)]),
                  'price-update-reports-the-state')


# -- round trips ----------------------------------------------------------------------------------

@scenario('C35', configs=[{'trip': t, 'fee': f} for t in ('buy-sell', 'cross-back') for f in (0, 3000)],
          reach=['closed'], weight=5,
          bound='exact-arithmetic markets (weight 100 % for buy/sell, equal weights for cross); one round trip of any '
                'size from any state, through the contract; fees 0 and 3000 ppm')
def round_trip(env):
    cross = env.config['trip'] == 'cross-back'
    t = Trade(env, 'cross' if cross else 'buy', exact=True, fee=env.config['fee'])
    m = t.m
    env.assume(t.x <= t.hold)
    a0 = m.A.bal(m.network)
    mid = m.B if cross else m.F
    f0 = mid.bal(m.network)
    r = m.request(m.A, t.x, mid, 1)
    if not r.ok:
        return
    got = mid.bal(m.network) - f0
    r2 = m.request(mid, got, m.A, 1)
    if r2.ok:
        env.reach('closed')
        env.check(m.A.bal(m.network) <= a0, 'round-trip-never-profits')
        env.check(m.A.bal(m.at) >= m.ra, 'round-trip-never-drains-the-reserve')


# -- splitting an order ---------------------------------------------------------------------------

@scenario('C47', configs=[{'op': o, 'fee': f} for o, f in (('buy', 0), ('buy', 500000), ('sell', 0), ('cross', 0))] +
          [{'op': 'cross', 'fee': 0, 'hist': 'traded', 'thorough': True}],
          reach=['both parts'], weight=3,
          bound='exact-arithmetic markets (weight 100 %, equal weights for cross); one order of any size in two parts of any '
                'size, through the contract; no fee (buying: also 50 %)')
def splitting(env):
    """Two conversions one after the other pay no more than the quote for their sum, and that is no less than the first."""
    op, fee = env.config['op'], env.config['fee']
    t = Trade(env, op, exact=True, fee=fee)
    m = t.m
    y = env.int('y', lo=1)
    env.assume(env.And(t.x >= 1, t.x + y <= t.hold))
    q = env.q(m.at, 'getReturn', dict(_fromToken=t.frm.at, _toToken=t.to.at, _amount=t.x + y))
    if not q.ok:
        return
    whole = q.ret['amount']
    b0 = t.to.bal(m.network)
    r = m.request(t.frm, t.x, t.to, 1)
    if not r.ok:
        return
    part = t.to.bal(m.network) - b0
    env.check(part <= whole, 'more-in-not-less-out')
    r = m.request(t.frm, y, t.to, 1)
    if not r.ok:
        return
    env.reach('both parts')
    env.check(t.to.bal(m.network) - b0 <= whole, 'no-gain-from-splitting')
