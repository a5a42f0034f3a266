"""The pricing formula: domain, exact special cases, ranges, integer helpers."""
from symdex.registry import scenario
from symdex.scen.common import *  # noqa: F401,F403
from contracts.formula import formula
from symdex.exact import power
from symdex.scen.trading import attempt

D6 = MAX_WEIGHT
MAX_NUM = 1 << 129


@scenario('C32', configs=[{'fn': f} for f in ('purchase', 'sale', 'cross')], formula='uf',
          reach=['accepted', 'refused'],
          bound='all integer arguments (also negative, zero, out of range)')
def domain(env):
    I = env.int
    fn = env.config['fn']
    if fn == 'purchase':
        s, b, w, x = I('s'), I('b'), I('w'), I('x', lo=0)
        ok = env.And(s > 0, b > 0, w > 0, w <= D6)
        power = env.And(x != 0, w != D6)
        r = attempt(env, formula.calculate_purchase_return, s, b, w, x)
        big = x + b >= MAX_NUM
    elif fn == 'sale':
        s, b, w, x = I('s'), I('b'), I('w'), I('x', lo=0)
        ok = env.And(s > 0, b > 0, w > 0, w <= D6, x <= s)
        power = env.And(x != 0, x != s, w != D6)
        r = attempt(env, formula.calculate_sale_return, s, b, w, x)
        big = s >= MAX_NUM
    else:
        s, w, b, w2, x = I('s'), I('w'), I('b'), I('w2'), I('x', lo=0)
        ok = env.And(s > 0, b > 0, w > 0, w <= D6, w2 > 0, w2 <= D6)
        power = w != w2
        r = attempt(env, formula.calculate_cross_connector_return, s, w, b, w2, x)
        big = s + x >= MAX_NUM
    ok = env.And(ok, env.Not(env.And(power, big)))
    env.check(ok if r is not None else env.Not(ok), 'priced-exactly-on-the-domain')
    env.reach('accepted' if r is not None else 'refused')


@scenario('C32', configs=[{'case': c} for c in ('buy 0', 'buy 100%', 'sell 0', 'sell all', 'sell 100%', 'cross 0',
                                                'cross equal')], formula='uf', reach=['priced'],
          bound='all valid arguments of the special cases that need no power series')
def special_cases(env):
    I = env.int
    c = env.config['case']
    s, b = I('s', lo=1), I('b', lo=1)
    w, w2, x = I('w', lo=1, hi=D6), I('w2', lo=1, hi=D6), I('x', lo=0)
    P, S, X = (formula.calculate_purchase_return, formula.calculate_sale_return,
               formula.calculate_cross_connector_return)

    def floor_of(r, num, den):
        env.check(env.And(r * den <= num, num < (r + 1) * den), 'exact-floor')
    if c == 'buy 0':
        r = attempt(env, P, s, b, w, 0)
        env.check(r is not None and r == 0, 'nothing-buys-nothing')
    elif c == 'sell 0':
        r = attempt(env, S, s, b, w, 0)
        env.check(r is not None and r == 0, 'nothing-sells-for-nothing')
    elif c == 'sell all':
        r = attempt(env, S, s, b, w, s)
        env.check(r is not None and r == b, 'whole-supply-sells-for-whole-reserve')
    elif c == 'buy 100%':
        r = attempt(env, P, s, b, D6, x)
        env.check(r is not None, 'priced')
        floor_of(r, s * x, b)
    elif c == 'sell 100%':
        env.assume(x <= s)
        r = attempt(env, S, s, b, D6, x)
        env.check(r is not None, 'priced')
        floor_of(r, b * x, s)
    elif c == 'cross equal':
        r = attempt(env, X, s, w, b, w, x)
        env.check(r is not None, 'priced')
        floor_of(r, b * x, s + x)
    else:
        r = attempt(env, X, s, w, b, w, 0)
        env.check(r is not None and r == 0, 'nothing-converts-to-nothing')
    env.reach('priced')


@scenario('C33', configs=[{'fn': f, 'p': p} for f in ('purchase', 'sale', 'cross')
                          for p in (127, 126, 100, 80, 64, 48, 33, 32, 0)], formula='power', reach=['priced'], weight=2,
          bound='all valid arguments; the power series is replaced by an arbitrary result >= 1 (established for the '
                'real one by the other C33 obligations) at precisions 127, 126, 100, 80, 64, 48, 33, 32, 0')
def range_of_returns(env):
    I = env.int
    fn, p = env.config['fn'], env.config['p']
    if env.symbolic:
        env.path.power_precision = p
    s, b, x = I('s', lo=1), I('b', lo=1), I('x', lo=0)
    w, w2 = I('w', lo=1, hi=D6), I('w2', lo=1, hi=D6)
    env.hint(s >= 10 ** 14, s <= 10 ** 17, b >= 10 ** 14, b <= 10 ** 17, x * 3 <= s, x * 3 <= b, w >= 300000, w2 >= 300000)
    # where the power is as close to one as it can be
    env.hint(x == 1, s >= 1 << 127, s <= 1 << 128, b >= 1 << 127, b <= 1 << 128)
    env.hint(x == 1, s >= 10 ** 14, b >= 1 << 127, b <= 1 << 128, w <= 10)
    if fn == 'purchase':
        r = attempt(env, formula.calculate_purchase_return, s, b, w, x)
        if r is None:
            return
        env.check(r >= 0, 'purchase-never-negative')
    elif fn == 'sale':
        r = attempt(env, formula.calculate_sale_return, s, b, w, x)
        if r is None:
            return
        env.check(r >= 0, 'sale-never-negative')
        env.check(env.If(x == s, r == b, r < b) if env.symbolic else (r == b if x == s else r < b),
                  'sale-leaves-reserve-unless-everything-is-sold')
    else:
        r = attempt(env, formula.calculate_cross_connector_return, s, w, b, w2, x)
        if r is None:
            return
        env.check(env.And(r >= 0, r < b), 'cross-within-target-reserve')
    env.reach('priced')


@scenario('C34', configs=[{'fn': f, 'p': p} for f in ('purchase', 'sale', 'cross') for p in (127, 61, 48, 32, 0)],
          formula='power', reach=['priced'], weight=2,
          bound='all valid arguments; the power function is replaced by any result within 2^-90 of the exact power of '
                'the documented ratio (precision 127), or not above it (lower precisions), and arbitrary for any '
                'other ratio or exponent')
def follows_the_curve(env):
    """Returns are those of the documented constant-reserve-ratio curve, rounded in favour of the pool."""
    I = env.int
    fn, p = env.config['fn'], env.config['p']
    s, b, x = I('s', lo=1), I('b', lo=1), I('x', lo=1)
    w, w2 = I('w', lo=1, hi=D6), I('w2', lo=1, hi=D6)
    g = I('g', lo=1 << 200)
    env.assume(w != D6 if fn != 'cross' else w != w2)
    if fn == 'purchase':
        truth = (b + x, b, w, D6)
    elif fn == 'sale':
        env.assume(x < s)
        truth = (s, s - x, D6, w)
    else:
        truth = (s + x, s, w, w2)
    for k in (10, 10 ** 3, 10 ** 6):
        env.hint(s >= 10 ** 14, s <= 10 ** 17, b >= 10 ** 19, b <= 10 ** 22, x * k <= s if fn != 'purchase' else x * k <= b,
                 x * k * 100 >= s, w >= 300, w2 >= 300)
    env.hint(s >= 100, s <= 1000, b >= 10 ** 18, b <= 10 ** 22, w >= 400000, w2 >= 400000, x <= 10 ** 6)
    env.hint(s >= 10 ** 18, s <= 10 ** 22, b >= 100, b <= 1000, w >= 400000, w2 >= 400000, x <= 10 ** 6)
    if env.symbolic:
        env.path.power_precision = p
        env.path.power_truth = [truth + (g, p == 127)]
    r = attempt(env, {'purchase': formula.calculate_purchase_return, 'sale': formula.calculate_sale_return,
                      'cross': formula.calculate_cross_connector_return}[fn],
                *((s, w, b, w2, x) if fn == 'cross' else (s, b, w, x)))
    if r is None:
        return
    env.reach('priced')
    E, one = 1 << 90, 1 << 200
    if env.symbolic:
        lo, hi, accurate = g, g, p == 127
    else:
        # the exact power, enclosed by rational arithmetic
        lo, hi = power(*truth)
        accurate = hi is not None and hi < 8886110
        lo, hi = lo * one, None if hi is None else hi * one
    up = lo if hi is None else hi
    if fn == 'purchase':
        # r <= s (G (1 + 2^-90) - 1),  r + 1 > s (G (1 - 2^-90) - 1)
        if hi is not None:
            env.check((r + s) * (one * E) <= s * (up * (E + 1)), 'purchase-never-above-the-curve')
        if accurate:
            env.check((r + s + 1) * (one * E) > s * (lo * (E - 1)), 'purchase-accurate')
    else:
        # r <= b (1 - 1/(G (1 + 2^-90))),  r + 1 > b (1 - 1/(G (1 - 2^-90)))
        name = fn
        env.check((b - r) * (up * (E + 1)) >= b * (one * E) if hi is not None else r <= b,
                  name + '-never-above-the-curve')
        if accurate:
            env.check((b - r - 1) * (lo * (E - 1)) < b * (one * E), name + '-accurate')


@scenario('C35', configs=[{'trip': t, 'p': p} for t in ('buy-sell', 'sell-buy', 'cross-back') for p in ([127], [48, 127], [127, 48], [0, 0])],
          formula='power', reach=['there and back'],
          bound='every supply, balances, weights below 100 % and amount; the power function is replaced by any result '
                'not above the exact power by more than a relative 2^-90; gain at most 2^-68 of the pool')
def round_trip_any_weight(env):
    I = env.int
    trip = env.config['trip']
    s, b, x = I('s', lo=1), I('b', lo=1), I('x', lo=1)
    w, w2 = I('w', lo=1, hi=D6), I('w2', lo=1, hi=D6)
    g, h = I('g', lo=1 << 200), I('h', lo=1 << 200)
    env.hint(s >= 10 ** 14, s <= 10 ** 17, b >= 10 ** 14, b <= 10 ** 17, x * 3 <= s, x * 3 <= b, w >= 300000, w2 >= 300000)
    S, T = 1 << 200, 1 << 90
    first = {'buy-sell': (b + x, b, w, D6), 'sell-buy': (s, s - x, D6, w), 'cross-back': (s + x, s, w, w2)}[trip]
    env.assume(env.And(x < s, w != D6) if trip == 'sell-buy' else w != D6 if trip == 'buy-sell' else w != w2)
    if env.symbolic:
        env.path.power_precision = list(env.config['p'])
        env.path.power_truth = [first + (g, False)]
    P, Q, X = (formula.calculate_purchase_return, formula.calculate_sale_return,
               formula.calculate_cross_connector_return)
    a = attempt(env, *((P, s, b, w, x) if trip == 'buy-sell' else (Q, s, b, w, x) if trip == 'sell-buy' else
                       (X, s, w, b, w2, x)))
    if a is None or a == 0:
        return
    back = {'buy-sell': (s + a, s, D6, w), 'sell-buy': (b, b - a, w, D6), 'cross-back': (b, b - a, w2, w)}[trip]
    if trip != 'buy-sell' and a >= b:
        return                  # C33 rules this out
    if env.symbolic:
        # mathematics: if n/d <= G (1 + e) with G = (N/D)^q then (n/d)^(1/q) <= (N/D) (1 + e)^(1/q),
        # and (1 + 2^-90)^(10^6) <= 1 + 2^-70
        env.assume(env.Implies(back[0] * S * T <= back[1] * g * (T + 1),
                               h * first[1] * (1 << 70) <= first[0] * S * ((1 << 70) + 1)))
        env.path.power_truth = env.path.power_truth + [back + (h, False)]
    r = attempt(env, *((Q, s + a, b + x, w, a) if trip == 'buy-sell' else (P, s - x, b - a, w, a) if trip == 'sell-buy' else
                       (X, b - a, w2, s + x, w, a)))
    if r is None:
        return
    env.reach('there and back')
    pool = {'buy-sell': b + x, 'sell-buy': s, 'cross-back': s + x}[trip]
    env.check((r - x) * (1 << 68) <= pool, 'no-gain-beyond-the-precision')


# -- integer helpers ------------------------------------------------------------------------------

@scenario('C36', reach=['small', 'large'], bound='every n in [1, 2^256)')
def floor_log2(env):
    f = getattr(formula, '_floor_log2', None)
    n = env.int('n', lo=1, hi=2 ** 256 - 1)
    r = f(n) if f else env.choice('none', [0])
    if f:
        k = int(r)
        env.check(env.And(n >= 2 ** k, n < 2 ** (k + 1)), 'floor-of-log2-exact')
    else:
        env.check(True, 'no such helper')
    env.reach('small' if n < 256 else 'large')


@scenario('C36', reach=['found', 'none'], bound='every x in [0, 2^140)')
def max_exp_position(env):
    """The highest precision >= 32 whose limit admits x (0: none)."""
    f = getattr(formula, '_find_position_in_max_exp_array', None)
    arr = getattr(formula, '_max_exp_array', None)
    x = env.int('x', lo=0, hi=2 ** 140)
    if f and arr:
        r = f(x)
        k = int(r)
        if k == 0:
            env.reach('none')
            env.check(x > arr[32], 'no-position-only-beyond-the-table')
        else:
            env.reach('found')
            env.check(32 <= k <= 127, 'position-in-table')
            env.check(x <= arr[k], 'position-admits-the-exponent')
            if k < 127:
                env.check(x > arr[k + 1], 'highest-admitting-position')
    else:
        env.reach('found')
        env.reach('none')
        env.check(True, 'no such helper')


@scenario('C36', bound='table entries 32..127 (constants)', reach=['table'])
def max_exp_table(env):
    """The table is descending, so the search over it is meaningful."""
    arr = getattr(formula, '_max_exp_array', None)
    ok = True
    if arr:
        k = env.choice('i', list(range(32, 127)))
        ok = arr[k] > arr[k + 1] > 0
    env.check(ok, 'limits-strictly-descending')
    env.reach('table')


# -- splitting an order ---------------------------------------------------------------------------

@scenario('C47', configs=[{'fn': f, 'p': p} for f in ('purchase', 'sale', 'cross') for p in (127, 61)], formula='power',
          reach=['split'],
          bound='every supply, balances, weights and any two amounts; the power function is replaced by any result within 2^-90 of '
                'the exact power (127 bits) or not above it (lower precisions, for the parts); gain at most 2^-80 of the pool')
def splitting_any_weight(env):
    """Selling or buying in two steps yields no more than in one, up to the precision of the power function."""
    I = env.int
    fn = env.config['fn']
    s, b, x, y = I('s', lo=1), I('b', lo=1), I('x', lo=1), I('y', lo=1)
    w, w2 = I('w', lo=1, hi=D6), I('w2', lo=1, hi=D6)
    g, h, k = I('g', lo=1 << 200), I('h', lo=1 << 200), I('k', lo=1 << 200)
    env.assume(w != D6 if fn != 'cross' else w != w2)
    S, T = 1 << 200, 1 << 90
    if fn == 'purchase':
        ratio = lambda n, d: (n, d, w, D6)                              # noqa: E731
        one, two, both = ratio(b + x, b), ratio(b + x + y, b + x), ratio(b + x + y, b)
        f = lambda sup, bal, n: attempt(env, formula.calculate_purchase_return, sup, bal, w, n)      # noqa: E731
    elif fn == 'sale':
        env.assume(x + y < s)
        ratio = lambda n, d: (n, d, D6, w)                              # noqa: E731
        one, two, both = ratio(s, s - x), ratio(s - x, s - x - y), ratio(s, s - x - y)
        f = lambda sup, bal, n: attempt(env, formula.calculate_sale_return, sup, bal, w, n)          # noqa: E731
    else:
        ratio = lambda n, d: (n, d, w, w2)                              # noqa: E731
        one, two, both = ratio(s + x, s), ratio(s + x + y, s + x), ratio(s + x + y, s)
        f = lambda sup, bal, n: attempt(env, formula.calculate_cross_connector_return, sup, w, bal, w2, n)   # noqa: E731
    env.hint(s >= 10 ** 14, s <= 10 ** 17, b >= 10 ** 14, b <= 10 ** 17, x * 30 <= s, x * 30 <= b, y * 30 <= s, y * 30 <= b,
             w >= 300000, w2 >= 300000)
    p = env.config['p']
    if env.symbolic:
        env.path.power_precision = [p, p, 127]
        env.path.power_truth = [one + (g, False), two + (h, False), both + (k, True)]
        # the exact powers of the parts multiply to the power of the whole
        env.assume(env.And(g * h * T <= k * S * (T + 1), k * S * T <= g * h * (T + 1)))
    r1 = f(s, b, x)
    if r1 is None:
        return
    if fn != 'purchase' and r1 >= b:
        return                  # C33 rules this out
    r2 = f(s + r1, b + x, y) if fn == 'purchase' else f(s - x, b - r1, y) if fn == 'sale' else f(s + x, b - r1, y)
    r12 = f(s, b, x + y)
    if r2 is None or r12 is None:
        return
    env.reach('split')
    if fn == 'purchase':
        pool = s + r12 + 1
    else:
        pool = b
    env.check((r1 + r2 - r12 - 2) * (1 << 80) <= pool, 'no-gain-from-splitting')
