"""Abstraction of the power-series part of the pricing formula, for the contract-level scenarios.

The real `calculate_*` methods run on the symbolic values: input validation, the zero / whole-supply / 100 % /
equal-weight special cases are the code's own.  Only when the code reaches `_power` does the wrapper return an
uninterpreted result instead, constrained by the range facts that the formula properties establish on the real
`_power` (F-range): 0 <= purchase return, 0 <= sale return < connector balance, 0 <= cross return < target
connector balance, and the documented domain limit base_n < 2^129.
Counterexamples are replayed on the real formula; guessed results are corrected by `pins` (CEGAR).
"""
import z3

from . import core as C
from iconservice.base.exception import IconServiceBaseException

MAX_NUM = 0x200000000000000000000000000000000
_real = {}
_instance = {}


class _PowerReached(Exception):
    pass


def refuses(power):
    """Whether the real function has the documented limit on the base.  That it has, for every base, is what the C32
    obligations on the real function decide; where it visibly has not, the abstraction must not pretend it has."""
    from contracts.formula import formula
    for n, d, en, ed in ((MAX_NUM, MAX_NUM - 1, 1, 2), (MAX_NUM, MAX_NUM >> 1, 1, 1), (MAX_NUM << 40, MAX_NUM << 39, 1, 3),
                         (MAX_NUM + 1, 1, 1, 10 ** 6)):
        try:
            power(formula, n, d, en, ed)
            return False
        except (Exception, IconServiceBaseException):
            pass
    return True


def install(F=None, tag=''):
    """F, tag: another copy of the formula, with function symbols of its own where its code differs."""
    if F is None:
        from contracts.formula.fixed_map_formula import FixedMapFormula as F
    from contracts.utility.utils import require

    real_power = F._power
    guarded = refuses(real_power)

    def power(self, base_n, base_d, exp_n, exp_d):
        if C.CURRENT is None:
            return real_power(self, base_n, base_d, exp_n, exp_d)
        if guarded:
            require(base_n < MAX_NUM, 'Invalid input')
        raise _PowerReached()

    def wrap(name, lemmas):
        real = getattr(F, name)
        name = tag + name
        _real[name] = real
        if tag:
            _instance[name] = F()

        def f(self, *args, **kw):
            if C.CURRENT is None or kw:
                if kw:
                    import inspect
                    ba = inspect.signature(real).bind(self, *args, **kw)
                    return f(*ba.args)
                return real(self, *args)
            try:
                return real(self, *args)
            except _PowerReached:
                return C.uf(name, args, lo=0, result_lemmas=lemmas)
        setattr(F, name[len(tag):], f)
    F._power = power
    wrap('calculate_purchase_return', lambda v, a: [])
    wrap('calculate_sale_return', lambda v, a: [v < a[1]])
    wrap('calculate_cross_connector_return', lambda v, a: [v < a[2]])


def install_power():
    """Only `_power` is abstract: an arbitrary result >= 2^precision (for a base >= 1), at the precision the
    scenario selects.  Everything around it is the real code."""
    from contracts.formula.fixed_map_formula import FixedMapFormula as F
    from contracts.utility.utils import require
    real_power = F._power
    guarded = refuses(real_power)

    def power(self, *args, **kw):
        if C.CURRENT is None:
            return real_power(self, *args, **kw)
        if kw:
            import inspect
            args = inspect.signature(real_power).bind(self, *args, **kw).args[1:]
        base_n, base_d, exp_n, exp_d = args
        if guarded:
            require(base_n < MAX_NUM, 'Invalid input')
        p = C.CURRENT.power_precision
        if isinstance(p, list):
            p = p.pop(0) if len(p) > 1 else p[0]

        def lemmas(v, a):
            out = [z3.Implies(a[0] >= a[1], v >= 1 << p)]
            for truth in getattr(C.CURRENT, 'power_truth', ()):
                # g / 2^200 is the exact power of the documented ratio and exponent
                n, d, en, ed, g, accurate = [C.CURRENT.z(C.to_poly(t)) for t in truth[:5]] + [truth[5]]
                same = [C._cmp(C.to_poly(x * y).add(C.to_poly(z * w), -1), '==') for x, y, z, w in
                        ((args[0], truth[1], args[1], truth[0]), (args[2], truth[3], args[3], truth[2]))]
                if False not in same:
                    k = 1 << (290 - p)
                    near = [v * k <= g * ((1 << 90) + 1)] + ([v * k >= g * ((1 << 90) - 1)] if accurate else [])
                    conds = [e._e for e in same if e is not True]
                    out.append(z3.Implies(z3.And(*conds), z3.And(*near)) if conds else z3.And(*near))
            return out
        r = C.uf('_power@%d' % p, args, lo=0, result_lemmas=lemmas)
        return r, p
    _real['_power'] = real_power
    F._power = power


from symdex.scen.common import HELPERS  # noqa: E402


def install_helpers():
    """Only the logarithms and exponentials are abstract; what is assumed about their results, and which arguments
    they may be given, comes from the scenario (`path.helper`) and is what the kernel obligations establish."""
    from contracts.formula.fixed_map_formula import FixedMapFormula as F

    def wrap(name):
        real = getattr(F, name)

        def f(self, *args, **kw):
            if C.CURRENT is None or not hasattr(C.CURRENT, 'helper'):
                return real(self, *args, **kw)
            if kw:
                import inspect
                args = inspect.signature(real).bind(self, *args, **kw).args[1:]
            return C.CURRENT.helper(name, *args)
        setattr(F, name, f)
    for n in HELPERS:
        if getattr(F, n, None) is not None:
            wrap(n)


def evaluate(name, args):
    from contracts.formula import formula
    cur, C.CURRENT = C.CURRENT, None
    try:
        if name.startswith('_power@'):
            r, p = _real['_power'](formula, *args)
            return r if p == int(name[7:]) else None
        return _real[name](_instance.get(name, formula), *args)
    except (Exception, IconServiceBaseException):
        return None
    finally:
        C.CURRENT = cur


def pins(path, val):
    """Constraints fixing the arguments seen in the valuation and the real results for them."""
    fixed, facts = [], []
    for (name, ps), i in path.ufs.items():
        args = [p.eval(lambda a: val['atoms'][a]) for p in ps]
        r = evaluate(name, args)
        eqs = [path.z(p) == v for p, v in zip(ps, args) if not p.is_const()]
        if r is None:
            facts.append(z3.Not(z3.And(*eqs)) if eqs else z3.BoolVal(False))
            continue
        facts.append(z3.Implies(z3.And(*eqs) if eqs else z3.BoolVal(True), path.atoms[i].var == r))
        if r == val['atoms'][i]:
            fixed += eqs
        else:
            fixed += eqs + [path.atoms[i].var == r]
            break
    return fixed, facts
