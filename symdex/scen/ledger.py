"""What the whole system owes its users, whoever does whatever: the event log accounts for every change, and nobody's
tokens move without them."""
from symdex.registry import scenario
from symdex.scen.common import *  # noqa: F401,F403
from symdex.scen.frames import any_call, rich_world
from symdex.scen.access import OWNED
from symdex.scen.twins import Story, N


def entries(env, r, name, at):
    """The events of the given name logged by the given contract, in order."""
    return r.named(name, at)


def total(env, terms):
    s = 0
    for t in terms:
        s = s + t
    return s


def moved(env, transfers, who):
    return total(env, [env.If(to == who, v, 0) - env.If(frm == who, v, 0) for frm, to, v, _ in transfers])


class Books:
    """Balances, supplies and announced settings before and after something happened."""

    def __init__(self, env, plain, minted, owned, convs, regs, who):
        self.env, self.plain, self.minted, self.owned, self.convs, self.regs = env, plain, minted, owned, convs, regs
        self.who = who
        self.before = self.read()

    def read(self):
        env = self.env
        s = {}
        for t in self.plain + self.minted:
            s[t, 'supply'] = env.get(t, 'totalSupply')
            for i, w in enumerate(self.who):
                s[t, i] = env.get(t, 'balanceOf', _owner=w)
        for c in self.owned:
            s[c, 'owner'] = env.get(c, 'getOwner')
        for c in self.convs:
            s[c, 'manager'], s[c, 'fee'] = env.get(c, 'getManager'), env.get(c, 'getConversionFee')
            s[c, 'on'] = env.get(c, 'isConversionsEnabled')
        for g in self.regs:
            for k in ('Network', 'ScoreRegistry'):
                s[g, k] = env.get(g, 'getAddress', _scoreName=k)
        return s

    def chain(self, label, old, new, steps):
        """old, then each (previous, next), ends in new."""
        env = self.env
        at = old
        for prev, nxt in steps:
            if prev is not None:
                env.check(env.eqv(prev, at), label)
            at = nxt
        env.check(env.eqv(at, new), label)

    def close(self, r):
        env, b, a = self.env, self.before, self.read()
        for t in self.plain + self.minted:
            tr = entries(env, r, 'Transfer', t)
            burnt = total(env, [e[0] for e in entries(env, r, 'Destruction', t)])
            made = total(env, [e[0] for e in entries(env, r, 'Issuance', t)])
            env.check(a[t, 'supply'] - b[t, 'supply'] == made - burnt, 'supply-as-announced')
            # what is issued comes from, and what is destroyed goes to, the token's own address
            announced = any(True for _ in entries(env, r, 'Destruction', t))
            for i, w in enumerate(self.who):
                if w is t:
                    continue
                out = moved(env, tr, w) - (a[t, i] - b[t, i])
                if t in self.minted[1:] and announced:
                    # ICX withdrawn is announced as destroyed, not as transferred
                    env.check(env.Implies(w != t, env.And(out >= 0, out <= burnt)), 'balances-as-announced')
                else:
                    env.check(env.Implies(w != t, out == 0), 'balances-as-announced')
        for c in self.owned:
            self.chain('owner-as-announced', b[c, 'owner'], a[c, 'owner'], entries(env, r, 'OwnerUpdate', c))
        for c in self.convs:
            self.chain('manager-as-announced', b[c, 'manager'], a[c, 'manager'], entries(env, r, 'ManagerUpdate', c))
            self.chain('fee-as-announced', b[c, 'fee'], a[c, 'fee'], entries(env, r, 'ConversionFeeUpdate', c))
            self.chain('pause-as-announced', b[c, 'on'], a[c, 'on'],
                       [(None, e[0]) for e in entries(env, r, 'ConversionsEnable', c)])
        for g in self.regs:
            for k in ('Network', 'ScoreRegistry'):
                steps = [(None, e[1]) for e in entries(env, r, 'AddressUpdate', g) if bool(e[0] == k)]
                self.chain('registry-as-announced', b[g, k], a[g, k], steps)


@scenario(['C44', 'C01'], configs=[{'what': w} for w in OWNED + ['IRCToken']] + [{'what': w, 'phase': 'offered'} for w in OWNED],
          formula='uf', weight=2, reach=['accepted', 'refused'],
          bound='a state with arbitrary settings, pending offers and balances; one call of any entry point (discovered from '
                'the code) by anyone with arbitrary arguments; the balances of every party and of an arbitrary address')
def log_accounts_for_everything(env):
    m = rich_world(env, True)
    anyone = env.address('anyone')
    who = [anyone, m.caller, m.owner, m.manager, m.candidate, m.at, m.network]
    b = Books(env, [m.A.at], [m.F.at, m.icxt], [m.by[w] for w in OWNED], [m.at], [m.registry, m.registry2], who)
    name, caller, args, r = any_call(env, m, env.config['what'])
    env.reach('accepted' if r.ok else 'refused')
    if r.ok:
        b.close(r)


@scenario(['C44', 'C26'], configs=[{}, {'virtual': True}, {'kind': 'icx'}], formula='uf', weight=2, reach=['converted'],
          bound='one conversion along every route of a market with arbitrary weights and fee, for any beneficiary; the '
                'balances of every party and of an arbitrary address')
def log_accounts_for_conversions(env):
    s = Story(env)
    m = s.m
    anyone = env.address('anyone')
    ben = env.address('beneficiary')
    icx = env.config.get('kind') == 'icx'
    b = Books(env, [t.at for t in (m.A, m.B) if t.kind != 'icx'], [m.F.at] + ([m.A.at] if icx else []),
              [m.at, m.network, m.registry, m.F.at], [m.at], [m.registry], [anyone, ben, s.u, m.at, m.network])
    A, B, F = m.A, m.B, m.F
    route = env.choice('route', [(A, F, F), (F, F, A), (F, F, B), (B, F, F), (A, F, B), (B, F, A)])
    if icx and route[0] is A and env.choice('paid in ICX', [True, False]):
        r = env.tx(s.u, m.network, 'convertFor', dict(_path=s.path(*route), _minReturn=1, _for=ben), value=N)
    else:
        r = s.convert(s.u, route, ben=ben)
    if r.ok:
        env.reach('converted')
        b.close(r)


@scenario('C45', configs=[{'what': w} for w in OWNED + ['IRCToken']] + [{'what': w, 'phase': 'offered'} for w in OWNED],
          formula='uf', weight=2, reach=['accepted', 'refused'],
          bound='a state with arbitrary settings, pending offers and balances; one call of any entry point (discovered from '
                'the code) by anyone with arbitrary arguments; the holdings of an account that is not the caller, and, when the '
                'caller has no role, those of the contracts')
def holdings_of_others(env):
    """A bystander's tokens and ICX never decrease, except that the owner of a flexible token may destroy it."""
    m = rich_world(env)
    o = m.owner
    b = env.account('bystander')
    env.assume(m.caller != b)
    toks = [m.A.at, m.F.at, m.icxt]
    env.world.fund_icx(b, env.int('icx held', lo=1))
    for t in toks:
        env.must(o, t, 'transfer', dict(_to=b, _value=env.int('held', lo=1)))
        # the network has been sent some by mistake
        env.tx(o, t, 'transfer', dict(_to=m.network, _value=env.int('stray', lo=1), _data=b'conversionResult'))
    roles = [o, m.manager, m.candidate, m.A.at, m.registry2] + list(m.by.values())
    stray = [m.at, m.network]
    before = [env.get(t, 'balanceOf', _owner=b) for t in toks] + [env.icx(b)]
    strays = [env.get(t, 'balanceOf', _owner=w) for t in toks for w in stray]
    owner = env.get(m.F.at, 'getOwner')
    name, caller, args, r = any_call(env, m, env.config['what'])
    env.reach('accepted' if r.ok else 'refused')
    after = [env.get(t, 'balanceOf', _owner=b) for t in toks] + [env.icx(b)]
    for i, (x, y) in enumerate(zip(before, after)):
        ok = y >= x
        if i == 1 and env.config['what'] == 'FlexibleToken' and name == 'destroy':
            ok = env.Or(ok, caller == owner)
        env.check(ok, 'nobody-else-moves-them')
    outsider = env.And(*[caller != w for w in roles])
    for x, (t, w) in zip(strays, [(t, w) for t in toks for w in stray]):
        env.check(env.Implies(outsider, env.get(t, 'balanceOf', _owner=w) >= x), 'what-contracts-hold-stays')
