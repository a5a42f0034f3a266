"""Tokens: conservation, exact transfers, notification, issue/destroy authority, ICX backing."""
from iconservice import InterfaceScore, interface

from symdex.registry import scenario
from symdex.scen.common import *  # noqa: F401,F403


@scenario('C01', configs=TOKENS, reach=['transferred', 'rejected', 'self transfer', 'to contract', 'third party'],
          bound='one transfer from an arbitrary reachable balance state of three arbitrary accounts (one inductive step)')
def transfer_exact(env):
    kind = env.config['kind']
    t = Tok(env, kind, env.int('supply', lo=0))
    a = env.address('a', zero=True)
    b = env.address('b', zero=True)
    w = env.address('w', zero=True)
    t.give(a, env.int('give_a', lo=0))
    t.give(b, env.int('give_b', lo=0))
    a0, b0, w0, sup = t.bal(a), t.bal(b), t.bal(w), t.supply()
    v = env.int('v')
    n = len(env.ext_calls)
    r = env.tx(a, t.at, 'transfer', dict(_to=b, _value=v))
    a1, b1, w1 = t.bal(a), t.bal(b), t.bal(w)
    env.check(t.supply() == sup, 'supply-unchanged')
    if r.ok:
        env.reach('transferred')
        env.check(env.And(v >= 0, v <= a0), 'amount-covered')
        if a == b:
            env.reach('self transfer')
            env.check(a1 == a0, 'self-transfer-neutral')
        else:
            env.check(env.And(a1 == a0 - v, b1 == b0 + v), 'exact-transfer')
        if b.is_contract:
            env.reach('to contract')
        if env.And(w != a, w != b):
            env.reach('third party')
            env.check(w1 == w0, 'others-untouched')
        ev = r.named('Transfer')
        env.check(len(ev) == 1 and is_event(env, ev[0], [a, b, v, b'None']), 'transfer-event-exact')
    else:
        env.reach('rejected')
        env.check(env.And(a1 == a0, b1 == b0, w1 == w0), 'rejected-no-change')
        if not b.is_contract:
            env.check(env.Or(v < 0, v > a0), 'covered-transfer-accepted')
    # nothing may ever go below zero
    env.check(env.And(a1 >= 0, b1 >= 0, w1 >= 0), 'no-negative-balance')


@scenario('C01', configs=TOKENS, reach=['both'],
          bound='two consecutive transfers between arbitrary accounts, all balances of the holders accounted for')
def transfer_sum(env):
    kind = env.config['kind']
    t = Tok(env, kind, env.int('supply', lo=0))
    a, b, c = env.address('a', 'eoa'), env.address('b', 'eoa'), env.address('c', 'eoa')
    d = t.owner
    env.assume(env.And(a != d, b != d, c != d, a != b, b != c, a != c, *[x != u for u in t.users for x in (a, b, c)]))
    t.give(a, env.int('give', lo=0))
    r1 = env.tx(a, t.at, 'transfer', dict(_to=b, _value=env.int('v1')))
    r2 = env.tx(b, t.at, 'transfer', dict(_to=c, _value=env.int('v2')))
    if r1.ok and r2.ok:
        env.reach('both')
    total = t.bal(a) + t.bal(b) + t.bal(c) + t.bal(d) + t.bal(t.at)
    for u in t.users:
        total = total + t.bal(u)
    env.check(total == t.supply(), 'balances-add-up-to-supply')


class Looker(Sink):
    """A receiver that looks at the token while it is being told, and may pass the amount on at once."""

    def init(self, world, token, frm, forward):
        super().init(world)
        self.token, self.frm, self.forward = token, frm, forward

    @external
    def tokenFallback(self, _from: Address, _value: int, _data: bytes):
        t = self.create_interface_score(self.token, TokenView)
        self.told.append((t.balanceOf(self.address), t.balanceOf(self.frm), t.totalSupply()))
        if self.forward is not None:
            t.transfer(self.forward, _value, b'on')


class TokenView(InterfaceScore):
    @interface
    def balanceOf(self, _owner: Address) -> int:
        pass

    @interface
    def totalSupply(self) -> int:
        pass

    @interface
    def transfer(self, _to: Address, _value: int, _data: bytes = None):
        pass


@scenario(['C02', 'C01'], configs=TOKENS, reach=['accepted', 'passed on'],
          bound='one transfer of any amount, from arbitrary balances, to a contract that reads the balances while it is '
                'told and may pass the amount on in the same call')
def receiver_sees_the_moved_balance(env):
    t = Tok(env, env.config['kind'], env.int('supply', lo=0))
    a, b = env.address('a', 'eoa'), env.address('b', 'eoa')
    env.assume(env.And(a != b, a != t.owner, b != t.owner))
    t.give(a, env.int('give', lo=0))
    on = env.choice('forward', [False, True])
    had = env.int('had', lo=0)
    s = env.world.place('looker', Looker, t.at, a, None)
    t.give(s, had)
    look = env.world.find_score(s)
    look.told.clear()
    look.forward = b if on else None
    a0, b0, sup, v = t.bal(a), t.bal(b), t.supply(), env.int('v', lo=0)
    r = env.tx(a, t.at, 'transfer', dict(_to=s, _value=v))
    env.check((v <= a0) if r.ok else (v > a0), 'accepting-receiver-gets-tokens')
    if r.ok:
        env.reach('passed on' if on else 'accepted')
        env.check(env.And(len(look.told) == 1, look.told[0][0] == had + v, look.told[0][1] == a0 - v,
                          look.told[0][2] == sup), 'told-after-the-balances-moved')
        env.check(env.And(t.bal(a) == a0 - v, t.bal(s) == (had if on else had + v), t.bal(b) == b0 + (v if on else 0),
                          t.supply() == sup), 'nested-transfer-exact')


@scenario(['C02', 'C01'], configs=TOKENS, reach=['accepted', 'refused', 'eoa'],
          bound='one transfer with arbitrary data to an arbitrary contract that accepts or refuses it')
def transfer_notifies(env):
    kind = env.config['kind']
    t = Tok(env, kind, env.int('supply', lo=0))
    a = env.address('a', 'eoa')
    t.give(a, env.int('give', lo=0))
    data = env.choice('data', [b'x', None, b'', b'x' * 5000, b'\x00\xff ', b' x\n', b'None', b'conversionResult'])
    params = dict(_value=env.int('v', lo=0))
    if data is not None:
        params['_data'] = data
    want = b'None' if data is None else data
    if env.choice('receiver', ['sink', 'unknown']) == 'sink':
        s = env.world.place('sink', Sink)
        sink = env.world.find_score(s)
        r = env.tx(a, t.at, 'transfer', dict(params, _to=s))
        if r.ok:
            env.reach('accepted')
            env.check(len(sink.told) == 1 and is_event(env, sink.told[0], [t.at, a, params['_value'], want]),
                      'receiver-told-exactly-once')
            env.check(is_event(env, r.named('Transfer')[0], [a, s, params['_value'], want]), 'event-carries-data')
        else:
            env.check(params['_value'] > t.bal(a), 'accepting-receiver-gets-tokens')
    else:
        b = env.address('b')
        for u in t.users[2:]:
            env.assume(b != u)
        b0, a0 = t.bal(b), t.bal(a)
        r = env.tx(a, t.at, 'transfer', dict(params, _to=b))
        if b.is_contract:
            if b != t.at:
                asked = [c for c in env.ext_calls if c[0] is b and c[1] == 'tokenFallback']
                if r.ok:
                    env.check(len(asked) == 1, 'contract-receiver-is-asked')
                elif asked:
                    env.reach('refused')
                    env.check(env.And(t.bal(a) == a0, t.bal(b) == b0), 'refusal-undoes-transfer')
        elif r.ok:
            env.reach('eoa')
            env.check(not env.ext_calls, 'no-call-for-ordinary-account')


NAMES = [('N', 'S'), ('x' * 300, 'Y' * 300), (' a  b ', ' s '), ('', ''), ('nAmE\n', 'sYmBoL'), ('\u00c4\u0130\u00df', '\U0001f4b0\u0301'),
         ('symbol', 'name'), ('None', '0')]


@scenario('C07', configs=[{'kind': 'irc'}, {'kind': 'flexible'}], reach=['ok', 'bad supply', 'bad decimals'],
          bound='any initial supply; decimals -1..30; 8 pairs of name and symbol (empty, long, padded, mixed case, not ASCII)')
def initial_supply(env):
    d = env.account('deployer')
    w = env.address('w')
    s = env.int('initial')
    dec = env.choice('dec', [0, 1, 2, 8, 18, 30, -1])
    cls = IRCToken if env.config['kind'] == 'irc' else FlexibleToken
    name, symbol = env.choice('names', NAMES) if dec == 2 else NAMES[0]
    t, r = env.deploy('token', cls, d, dict(_name=name, _symbol=symbol, _initialSupply=s, _decimals=dec))
    env.check(env.Not(env.Or(s < 0, dec < 0)) if r.ok else env.Or(s < 0, dec < 0), 'valid-exactly-when-nonnegative')
    if not r.ok:
        env.reach('bad decimals' if dec < 0 else 'bad supply')
        return
    env.reach('ok')
    total = s * 10 ** dec
    bal = lambda x: env.get(t, 'balanceOf', _owner=x)
    env.check(env.get(t, 'totalSupply') == total, 'supply-is-initial-times-unit')
    env.check(bal(d) == total, 'deployer-holds-all')
    env.check(env.And(env.get(t, 'name') == name, env.get(t, 'symbol') == symbol, env.get(t, 'decimals') == dec), 'metadata')
    if w != d:
        env.check(bal(w) == 0, 'nobody-else-holds')
    if env.config['kind'] == 'flexible':
        env.check(env.And(env.get(t, 'getOwner') == d, env.get(t, 'getTransferPossibility') == True), 'owner-and-switch')  # noqa


def offered(env, t):
    """The token has been offered to somebody who has not accepted; that alone gives no right."""
    if env.config.get('hist') != 'used':
        c = env.address('candidate')
        env.assume(c != t.owner)
        env.must(t.owner, t.at, 'transferOwnerShip', dict(_newOwner=c))


@scenario('C03', configs=[{}, {'hist': 'used'}], reach=['issued', 'refused', 'destroyed', 'destroy refused', 'by owner', 'by holder'],
          bound='one issue or destroy by an arbitrary caller from an arbitrary balance state (one inductive step)')
def issue_destroy(env):
    t = Tok(env, 'flexible', env.int('supply', lo=0))
    owner = t.owner
    h = env.address('holder')
    env.must(owner, t.at, 'transfer', dict(_to=h, _value=env.int('give', lo=0)))
    if env.choice('disabled', [False, True]):
        env.must(owner, t.at, 'disableTransfer', dict(_disable=True))
    offered(env, t)
    caller = env.address('caller')
    x = env.address('x', zero=True)
    w = env.address('w')
    n = env.int('n')
    s0, x0, w0 = t.supply(), t.bal(x), t.bal(w)
    if env.choice('op', ['issue', 'destroy']) == 'issue':
        r = env.tx(caller, t.at, 'issue', dict(_to=x, _amount=n))
        allowed = env.And(caller == owner, n > 0, x != ZERO, x != t.at)
        env.check(allowed if r.ok else env.Not(allowed), 'issue-exactly-when-allowed')
        sign = 1
    else:
        r = env.tx(caller, t.at, 'destroy', dict(_from=x, _amount=n))
        allowed = env.And(env.Or(caller == owner, caller == x), n > 0, n <= x0)
        env.check(allowed if r.ok else env.Not(allowed), 'destroy-exactly-when-allowed')
        sign = -1
    if r.ok:
        env.reach('issued' if sign > 0 else 'destroyed')
        env.check(t.supply() == s0 + sign * n, 'supply-changes-by-amount')
        env.check(t.bal(x) == x0 + sign * n, 'holder-changes-by-amount')
        if w != x:
            env.check(t.bal(w) == w0, 'others-untouched')
        if sign < 0:
            env.reach('by owner' if caller == owner else 'by holder')
        ev = r.named('Issuance' if sign > 0 else 'Destruction')
        tr = r.named('Transfer')
        env.check(len(ev) == 1 and is_event(env, ev[0], [n]), 'event-amount')
        env.check(len(tr) == 1 and is_event(env, tr[0], [t.at, x, n, b'None'] if sign > 0 else [x, t.at, n, b'None']),
                  'transfer-event')
    else:
        env.reach('refused' if sign > 0 else 'destroy refused')
        env.check(env.And(t.supply() == s0, t.bal(x) == x0, t.bal(w) == w0), 'rejected-no-change')


@scenario('C04', configs=[{}, {'hist': 'used'}], reach=['blocked', 'allowed', 'switch refused', 'switched'],
          bound='two arbitrary switch attempts by arbitrary callers followed by one arbitrary transfer, issue or destroy')
def transfer_switch(env):
    t = Tok(env, 'flexible', env.int('supply', lo=0))
    a = env.address('a', 'eoa')
    t.give(a, env.int('give', lo=0))
    offered(env, t)
    off = False
    for i in range(2):
        caller = env.address('caller')
        want = env.choice('want', [True, False])
        before = env.get(t.at, 'getTransferPossibility')
        r = env.tx(caller, t.at, 'disableTransfer', dict(_disable=want))
        env.check((caller == t.owner) if r.ok else (caller != t.owner), 'only-owner-switches')
        if r.ok:
            off = want
            env.reach('switched')
        else:
            env.reach('switch refused')
        env.check(env.get(t.at, 'getTransferPossibility') == (not off), 'switch-state')
    op = env.choice('op', ['transfer', 'issue', 'destroy'])
    if op != 'transfer':
        v = env.int('v')
        a = env.choice('holder', [lambda: a, lambda: env.address('x')])()
        by = env.choice('by', ['owner', 'holder']) if op == 'destroy' else 'owner'
        a0, s0 = t.bal(a), t.supply()
        r = env.tx(t.owner if by == 'owner' else a, t.at, op, {'_to' if op == 'issue' else '_from': a, '_amount': v})
        ok = env.And(v > 0, a != t.at) if op == 'issue' else env.And(v > 0, v <= a0)
        env.check(ok if r.ok else env.Not(ok), 'issuing-and-destroying-ignore-the-switch')
        if r.ok:
            d = v if op == 'issue' else -v
            env.check(env.And(t.bal(a) == a0 + d, t.supply() == s0 + d), 'supply-operations-unaffected')
        return
    b = env.address('b', 'eoa')
    v = env.int('v', lo=0)
    a0 = t.bal(a)
    sender = env.choice('sender', ['holder', 'owner'])
    r = env.tx(a if sender == 'holder' else t.owner, t.at, 'transfer', dict(_to=b, _value=v))
    if off:
        env.check(not r.ok, 'no-transfer-while-disabled')
        env.check(t.bal(a) == a0, 'nothing-moves')
        env.reach('blocked')
    elif sender == 'holder':
        env.check((v <= a0) if r.ok else (v > a0), 'transfer-works-while-enabled')
        env.reach('allowed')


# -- ICX token ---------------------------------------------------------------------------------

def icx_state(env, t, *who):
    return [t.supply(), env.icx(t.at)] + [t.bal(x) for x in who] + [env.icx(x) for x in who]


@scenario(['C05', 'C06'], reach=['deposit', 'fallback', 'withdraw', 'withdrawTo', 'transfer', 'withdraw rejected', 'self'],
          bound='one operation of any kind from an arbitrary reachable state (one inductive step of: supply == ICX held)')
def icx_backing(env):
    d = env.account('deployer')
    t = env.must_deploy('icxt', IcxToken, d, {})
    bal = lambda x: env.get(t, 'balanceOf', _owner=x)
    sup = lambda: env.get(t, 'totalSupply')
    other = env.account('other')
    rest = env.int('rest', lo=0)
    env.world.fund_icx(other, rest)
    env.must(other, t, 'deposit', {}, value=rest)
    a = env.address('a', 'eoa')
    env.assume(a != other)
    dep, spare = env.int('dep', lo=0), env.int('spare', lo=0)
    env.world.fund_icx(a, dep + spare)
    env.must(a, t, 'deposit', {}, value=dep)
    env.check(env.And(sup() == env.icx(t), sup() == rest + dep, bal(a) == dep, bal(other) == rest), 'backed-before')
    w = env.address('w')
    n = env.int('n')
    s0, w0, a0 = sup(), bal(w), bal(a)
    ia, iw = env.icx(a), env.icx(w)
    op = env.choice('op', ['deposit', 'fallback', 'withdraw', 'withdrawTo', 'transfer'])
    if op in ('deposit', 'fallback'):
        env.assume(n >= 0)
        r = env.tx(a, t, 'deposit' if op == 'deposit' else None, {}, value=n)
        env.check((n <= spare) if r.ok else (n > spare), 'deposit-accepted-when-funded')
        if r.ok:
            env.reach(op)
            env.check(env.And(sup() == s0 + n, bal(a) == a0 + n, env.icx(a) == ia - n), 'deposit-exact')
            iss, tr = r.named('Issuance'), r.named('Transfer')
            env.check(len(iss) == 1 and is_event(env, iss[0], [n]), 'issuance-event')
            env.check(len(tr) == 1 and is_event(env, tr[0], [t, a, n, b'None']), 'issue-transfer-event')
            if w != a:
                env.check(bal(w) == w0, 'others-untouched')
    elif op in ('withdraw', 'withdrawTo'):
        to = a
        if op == 'withdraw':
            r = env.tx(a, t, 'withdraw', dict(_amount=n))
        else:
            to = w
            r = env.tx(a, t, 'withdrawTo', dict(_amount=n, _to=w))
        valid = env.And(n > 0, n <= a0)
        if r.ok:
            env.reach(op)
            env.check(valid, 'withdraw-covered')
            env.check(bal(a) == a0 - n, 'withdraw-burns-exactly')
            if to == t:
                # paying the token contract itself: the ICX never leaves
                env.reach('self')
            else:
                env.check(sup() == s0 - n, 'withdraw-supply')
                if to == a:
                    env.check(env.icx(a) == ia + n, 'withdraw-pays-exactly')
                else:
                    env.check(env.And(env.icx(w) == iw + n, env.icx(a) == ia), 'withdraw-pays-recipient')
            if env.And(w != a, w != t):
                env.check(bal(w) == w0, 'others-untouched')
            de = r.named('Destruction')
            env.check(len(de) == 1 and is_event(env, de[0], [n]), 'destruction-event')
        else:
            env.reach('withdraw rejected')
            if not to.is_contract:
                env.check(env.Not(valid), 'covered-withdraw-accepted')
            env.check(env.And(bal(a) == a0, env.icx(a) == ia, sup() == s0, env.icx(w) == iw), 'rejected-no-change')
    else:
        r = env.tx(a, t, 'transfer', dict(_to=w, _value=n))
        if r.ok:
            env.reach('transfer')
            env.check(w != t, 'not-to-the-token-itself')
        env.check(sup() == s0, 'transfer-keeps-supply')
    env.check(sup() == env.icx(t), 'supply-equals-icx-held')


class IcxCalls(InterfaceScore):
    @interface
    def withdraw(self, _amount: int): pass

    @interface
    def withdrawTo(self, _amount: int, _to: Address): pass

    @interface
    def transfer(self, _to: Address, _value: int): pass


class Reenter(IconScoreBase):
    """A contract that, when paid ICX, calls back into the token (an arbitrary operation)."""

    def __init__(self, db):
        super().__init__(db)

    def on_install(self):
        pass

    def on_update(self):
        pass

    def init(self, world, token, env):
        self.world, self.token, self.env, self.depth = world, token, env, 0

    @external(readonly=True)
    def ping(self) -> int:
        return 1

    @payable
    def fallback(self):
        env = self.env
        if self.depth >= env.config.get('depth', 1):
            return
        self.depth += 1
        t = self.create_interface_score(self.token, IcxCalls)
        act = env.choice('react', ['withdraw', 'nothing', 'withdrawTo', 'transfer', 'redeposit', 'withdraw-caught'])
        m = env.int('m')
        if act == 'withdraw':
            t.withdraw(m)
        elif act == 'withdraw-caught':
            from iconservice.base.exception import IconServiceBaseException
            try:
                t.withdraw(m)
            except IconServiceBaseException:
                pass
        elif act == 'withdrawTo':
            t.withdrawTo(m, env.account('friend'))
        elif act == 'transfer':
            t.transfer(env.account('friend'), m)
        elif act == 'redeposit':
            self.icx.transfer(self.token, m)


@scenario(['C06', 'C05'], configs=[{'depth': 1}, {'depth': 2, 'thorough': True}],
          reach=['withdrawn', 'rejected'],
          bound='one withdrawal whose recipient re-enters the token with an arbitrary operation (nesting 1; thorough: 2)')
def icx_reentrancy(env):
    d = env.account('deployer')
    t = env.must_deploy('icxt', IcxToken, d, {})
    other = env.account('other')
    rest, dep = env.int('rest', lo=0), env.int('dep', lo=0)
    env.world.fund_icx(other, rest)
    env.must(other, t, 'deposit', {}, value=rest)
    x = env.world.place('attacker', Reenter, t, env)
    env.world.fund_icx(x, dep)
    env.must(x, t, 'deposit', {}, value=dep)
    friend = env.account('friend')
    bal = lambda w: env.get(t, 'balanceOf', _owner=w)
    n = env.int('n')
    if env.choice('via', ['withdraw', 'withdrawTo']) == 'withdraw':
        r = env.tx(x, t, 'withdraw', dict(_amount=n))
    else:
        r = env.tx(x, t, 'withdrawTo', dict(_amount=n, _to=x))
    env.reach('withdrawn' if r.ok else 'rejected')
    env.check(env.get(t, 'totalSupply') == env.icx(t), 'supply-equals-icx-held')
    env.check(bal(other) == rest, 'other-holders-untouched')
    env.check(env.icx(t) >= rest, 'other-holders-stay-backed')
    env.check(env.icx(x) + env.icx(friend) + bal(x) + bal(friend) == dep, 'attacker-group-gains-nothing')
    env.check(env.And(bal(x) >= 0, bal(friend) >= 0), 'no-negative-balance')
