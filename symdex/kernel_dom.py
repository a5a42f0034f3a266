"""Symbolic integers for the fixed-point kernel of the formula (logarithm and exponential).

A value stands for an integer that depends on one symbolic integer input u.  Up to four descriptions are carried
along, each sound on its own:

  interval    lo <= value <= hi
  polynomial  value = P(u) + n,  nlo <= n <= nhi        (n collects what the floor divisions cut off)
  linear      value = sum c_i v_i + n                   over real unknowns v_i (used where paths are merged)
  logarithm   log2(value) = sum c_i v_i + n

Comparisons fork (both outcomes are explored unless an interval decides them) and narrow the range of u.
Obligations over the resulting descriptions are decided by z3.
"""
from fractions import Fraction as Fr

from .core import EngineSignal, PathPruned, Unsupported

CUR = None
LOG2E_UP = Fr(14427, 10000)      # > 1 / ln 2


class KPath:
    def __init__(self, prefix, lo, hi, merge=False):
        self.prefix, self.trace, self.alts = list(prefix), [], []
        self.ulo, self.uhi = lo, hi
        self.merge = merge
        self.bits = 0
        self.watch = []      # (log form, lo, hi) of values whose range was learnt by a merged branch

    def fork(self, n=2):
        i = len(self.trace)
        if i < len(self.prefix):
            k = self.prefix[i]
        else:
            k = 0
            for a in range(1, n):
                self.alts.append(self.trace + [a])
        self.trace.append(k)
        return k

    def narrow(self, lo=None, hi=None):
        if lo is not None and lo > self.ulo:
            self.ulo = lo
        if hi is not None and hi < self.uhi:
            self.uhi = hi
        if self.ulo > self.uhi:
            raise PathPruned()


def explore(fn, lo, hi, merge=False, limit=100000):
    """Runs fn(u) on every path; yields (path, result or exception)."""
    global CUR
    work, n = [[]], 0
    while work:
        n += 1
        if n > limit:
            raise Unsupported('too many paths in the kernel')
        p = KPath(work.pop(), lo, hi, merge)
        CUR = p
        try:
            try:
                r = fn(K.input(p))
                ok = True
            except PathPruned:
                ok = False
            work += p.alts
        finally:
            CUR = None
        if ok:
            yield p, r


def fdiv(a, b):
    return a // b


def padd(a, b, k=1):
    n = max(len(a), len(b))
    return [(a[i] if i < len(a) else 0) + k * (b[i] if i < len(b) else 0) for i in range(n)]


def pmul(a, b):
    out = [Fr(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                if y:
                    out[i + j] += x * y
    return out


def imul(a, b, c, d):
    v = (a * c, a * d, b * c, b * d)
    return min(v), max(v)


def ladd(a, b, k=1):
    d = dict(a[0])
    for v, c in b[0].items():
        d[v] = d.get(v, 0) + k * c
    lo, hi = (b[1], b[2]) if k > 0 else (b[2], b[1])
    return d, a[1] + k * lo, a[2] + k * hi


def lscale(a, c):
    lo, hi = sorted((a[1] * c, a[2] * c))
    return {v: x * c for v, x in a[0].items()}, lo, hi


class K:
    __slots__ = ('lo', 'hi', 'p', 'nlo', 'nhi', 'fl', 'lin', 'log')

    def __init__(self, lo, hi, p=None, nlo=0, nhi=0, fl=None, lin=None, log=None):
        self.lo, self.hi, self.p, self.nlo, self.nhi = lo, hi, p, Fr(nlo), Fr(nhi)
        self.fl, self.lin, self.log = fl, lin, log

    @property
    def __class__(self):
        return int

    @staticmethod
    def input(path):
        return K(path.ulo, path.uhi, [Fr(0), Fr(1)], fl=1, lin=({'u': Fr(1)}, Fr(0), Fr(0)),
                 log=({'L0': Fr(1)}, Fr(0), Fr(0)))

    @staticmethod
    def const(c):
        c = int(c)
        lg = None
        if c > 0 and c & (c - 1) == 0:
            lg = ({}, Fr(c.bit_length() - 1), Fr(c.bit_length() - 1))
        return K(c, c, [Fr(c)], lin=({}, Fr(c), Fr(c)), log=lg)

    def copy(self):
        return K(self.lo, self.hi, self.p, self.nlo, self.nhi, self.fl, self.lin, self.log)

    @staticmethod
    def of(o):
        if type(o) is K:
            return o.tight()
        if isinstance(o, int):
            return K.const(o)
        raise Unsupported('%s in the kernel' % type(o))

    def tight(self):
        if self.fl and CUR is not None:
            self.lo, self.hi = max(self.lo, CUR.ulo // self.fl), min(self.hi, CUR.uhi // self.fl)
        return self

    def done(self):
        if self.lo == self.hi:
            return self.lo
        return self

    # -- arithmetic
    def _add(self, o, k):
        self.tight()
        o = K.of(o)
        lo, hi = (o.lo, o.hi) if k > 0 else (-o.hi, -o.lo)
        r = K(self.lo + lo, self.hi + hi)
        if self.p is not None and o.p is not None:
            r.p = padd(self.p, o.p, k)
            a, b = (o.nlo, o.nhi) if k > 0 else (-o.nhi, -o.nlo)
            r.nlo, r.nhi = self.nlo + a, self.nhi + b
        if self.lin and o.lin:
            r.lin = ladd(self.lin, o.lin, k)
        return r.done()

    def __add__(self, o):
        return self._add(o, 1)
    __radd__ = __add__

    def __sub__(self, o):
        return self._add(o, -1)

    def __rsub__(self, o):
        return K.of(o)._add(self, -1)

    def __neg__(self):
        return K.const(0)._add(self, -1)

    def __pos__(self):
        return self

    def __mul__(self, o):
        self.tight()
        o = K.of(o)
        lo, hi = imul(self.lo, self.hi, o.lo, o.hi)
        if o is self and lo < 0:
            lo = 0
        r = K(lo, hi)
        if self.p is not None and o.p is not None:
            r.p = pmul(self.p, o.p)
            # (P+n)(Q+m) = PQ + n*w + P*m  with  w = Q+m,  P = v-n
            a = imul(self.nlo, self.nhi, o.lo, o.hi)
            b = imul(self.lo - self.nhi, self.hi - self.nlo, o.nlo, o.nhi)
            if o is self:
                # v^2 - P^2 = n (2 v - n)
                c = imul(self.nlo, self.nhi, 2 * self.lo - self.nhi, 2 * self.hi - self.nlo)
                r.nlo, r.nhi = c
            else:
                r.nlo, r.nhi = a[0] + b[0], a[1] + b[1]
        if o.lo == o.hi and self.lin:
            r.lin = lscale(self.lin, o.lo)
        elif self.lo == self.hi and o.lin:
            r.lin = lscale(o.lin, self.lo)
        if self.log and o.log and self.lo > 0 and o.lo > 0:
            r.log = ladd(self.log, o.log)
        return r.done()
    __rmul__ = __mul__

    def __pow__(self, e, mod=None):
        if not type(e) is int or e < 0 or mod is not None:
            raise Unsupported('power in the kernel')
        r = 1
        for _ in range(e):
            r = self if _ == 0 else self * r
        return r

    def __floordiv__(self, o):
        self.tight()
        o = K.of(o)
        if o.lo != o.hi:
            raise Unsupported('division by a symbolic kernel value')
        d = o.lo
        if d == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if d < 0:
            raise Unsupported('division by a negative kernel value')
        if d == 1:
            return self
        r = K(self.lo // d, self.hi // d)
        cut = Fr(d - 1, d)
        if self.p is not None:
            r.p = [c / d for c in self.p]
            r.nlo, r.nhi = self.nlo / d - cut, self.nhi / d
        if self.fl:
            r.fl = self.fl * d
        if self.lin:
            l = lscale(self.lin, Fr(1, d))
            r.lin = (l[0], l[1] - cut, l[2])
        if self.log and d & (d - 1) == 0 and r.lo > 0:
            k = d.bit_length() - 1
            r.log = (self.log[0], self.log[1] - k - LOG2E_UP / r.lo, self.log[2] - k)
        return r.done()

    def __rfloordiv__(self, o):
        raise Unsupported('division by a symbolic kernel value')

    def __rshift__(self, k):
        if not type(k) is int:
            raise Unsupported('symbolic shift')
        return self // (1 << k)

    def __lshift__(self, k):
        if not type(k) is int:
            raise Unsupported('symbolic shift')
        return self * (1 << k)

    def __rlshift__(self, o):
        raise Unsupported('symbolic shift')
    __rrshift__ = __rlshift__

    def __mod__(self, o):
        if type(o) is not int or o <= 0:
            raise Unsupported('kernel modulus')
        q = self // o
        q = q if type(q) is int else q.enumerate()
        self.tight()
        r = self - q * o
        if type(r) is int:
            return r
        r.lo, r.hi = max(r.lo, 0), min(r.hi, o - 1)
        return r.done()

    def __divmod__(self, o):
        return self // o, self % o

    def enumerate(self):
        """Forks over the possible values of an exact quotient of the input."""
        if not self.fl:
            raise Unsupported('kernel value used where a concrete one is needed')
        lo, hi = CUR.ulo // self.fl, CUR.uhi // self.fl
        if hi - lo > 4096:
            raise Unsupported('kernel value with too many cases')
        q = lo + CUR.fork(hi - lo + 1)
        CUR.narrow(q * self.fl, (q + 1) * self.fl - 1)
        self.lo = self.hi = q
        return q

    def __and__(self, m):
        if type(m) is not int or m < 0:
            raise Unsupported('kernel bit mask')
        if m == 0:
            return 0
        a = (m & -m).bit_length() - 1
        b = m.bit_length()
        if (1 << b) - (1 << a) != m:
            raise Unsupported('kernel bit mask with holes')
        t = (self >> a) % (1 << (b - a)) if a else self % (1 << b)
        return t << a if a else t
    __rand__ = __and__

    def __or__(self, o):
        """Only where it is an addition: a value that is a multiple of 2^k with a constant below 2^k."""
        if type(o) is int and type(self) is K and o >= 0 and self.lin and not CUR.merge is False:
            if all(c.denominator == 1 and int(c) % (1 << o.bit_length()) == 0 for c in self.lin[0].values()) \
                    and self.lin[1] == self.lin[2] and self.lin[1].denominator == 1 \
                    and int(self.lin[1]) % (1 << o.bit_length()) == 0:
                return self + o
        raise Unsupported('bitwise or in the kernel')
    __ror__ = __or__

    def __xor__(self, o):
        raise Unsupported('bitwise xor in the kernel')
    __rxor__ = __xor__

    def __truediv__(self, o):
        raise Unsupported('true division in the kernel')
    __rtruediv__ = __truediv__

    # -- comparisons
    def _ge(self, c, flip=False):
        """self >= c, as True / False / KBool"""
        if type(c) is K:
            d = self - c
            return K.of(d)._ge(0) if type(d) is K else d >= 0
        self.tight()
        if self.lo >= c:
            return True
        if self.hi < c:
            return False
        return KBool(self, c)

    def __ge__(self, o):
        return self._ge(o)

    def __lt__(self, o):
        return knot(self._ge(o))

    def __gt__(self, o):
        return self._ge(o + 1)

    def __le__(self, o):
        return knot(self._ge(o + 1))

    def __eq__(self, o):
        if type(o) is not int and type(o) is not K:
            return False
        if type(o) is int and (self.lo > o or self.hi < o):
            return False
        return bool(self >= o) and bool(self <= o)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        raise Unsupported('hash of a kernel value')

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        if self.lo == self.hi:
            return self.lo
        return self.enumerate()
    __int__ = __index__

    def bit_length(self):
        if self.lo < 0:
            raise Unsupported('bit_length of a negative kernel value')
        n = 0
        while bool(self >= (1 << n)):
            n += 1
        return n

    def bound(self, c, ge):
        """Take note that value >= c (ge) or value < c; narrows the value and the input."""
        if ge:
            self.lo = max(self.lo, c)
        else:
            self.hi = min(self.hi, c - 1)
        if self.lo > self.hi:
            raise PathPruned()

    def narrow_input(self, c, ge):
        if self.fl:
            if ge:
                CUR.narrow(lo=c * self.fl)
            else:
                CUR.narrow(hi=c * self.fl - 1)
        elif self.p is not None and len(self.p) == 2 and self.p[1] > 0:
            # a u + b + n >= c   =>   u >= (c - b - nhi) / a
            a, b = self.p[1], self.p[0]
            if ge:
                q = (c - b - self.nhi) / a
                CUR.narrow(lo=-((-q.numerator) // q.denominator))
            else:
                q = (c - b - self.nlo) / a
                CUR.narrow(hi=q.numerator // q.denominator)


class KBool:
    """An undecided `value >= const` (or its negation)."""
    __slots__ = ('v', 'c', 'neg', 'bit')

    def __init__(self, v, c, neg=False):
        self.v, self.c, self.neg, self.bit = v, c, neg, None

    def __bool__(self):
        if self.v.lo >= self.c:
            return not self.neg
        if self.v.hi < self.c:
            return self.neg
        ge = CUR.fork() == 0
        self.v.bound(self.c, ge)
        self.v.narrow_input(self.c, ge)
        return ge != self.neg


def knot(b):
    if type(b) is KBool:
        return KBool(b.v, b.c, not b.neg)
    return not b


# -- merging the two sides of a simple if ---------------------------------------------------------

def kq(c):
    """Should this condition be merged rather than forked over?"""
    return type(c) is KBool and CUR is not None and CUR.merge and c.v.lo < c.c <= c.v.hi


def kenter(c, side):
    v = c.v
    saved = (v.lo, v.hi)
    v.bound(c.c, side != c.neg)
    return saved


def kleave(c, saved):
    c.v.lo, c.v.hi = saved


def kload(names, env):
    return {n: env.get(n) for n in names}


def kcopy(names, env):
    return {n: (env[n].copy() if type(env.get(n)) is K else env.get(n)) for n in names}


def kmerge(c, t, f):
    if t is f or (type(t) is int and type(f) is int and t == f):
        return t
    if not isinstance(t, int) or not isinstance(f, int):
        raise Unsupported('merge of non-integers')
    if c.bit is None:
        CUR.bits += 1
        c.bit = 'b%d' % CUR.bits
    t, f = K.of(t), K.of(f)
    r = K(min(t.lo, f.lo), max(t.hi, f.hi))
    for what in ('lin', 'log'):
        a, b = getattr(t, what), getattr(f, what)
        if not a or not b:
            continue
        d = {v: a[0].get(v, 0) - b[0].get(v, 0) for v in set(a[0]) | set(b[0])}
        if any(d.values()):
            continue
        # a = base + A, b = base + B with A in [a1,a2], B in [b1,b2]: value = base + bit*k + noise
        k = a[2] - b[2]
        out = dict(b[0])
        out[c.bit] = out.get(c.bit, Fr(0)) + k
        setattr(r, what, (out, min(a[1] - k, b[1]), max(a[2] - k, b[2])))
    if r.log:
        CUR.watch = CUR.watch[-1:] + [(r.log, r.lo, r.hi)]
    return r


def if_convert(tree):
    """AST transformation: `if c: <simple assignments> [else: <simple assignments>]` becomes mergeable."""
    import ast

    def names(stmts):
        out = []
        for s in stmts:
            if isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets):
                out += [t.id for t in s.targets]
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                out.append(s.target.id)
            else:
                return None
        return out

    class T(ast.NodeTransformer):
        n = 0

        def visit_If(self, node):
            a, b = names(node.body), names(node.orelse)
            self.generic_visit(node)
            if a is None or b is None:
                return node
            T.n += 1
            i = T.n
            ns = sorted(set(a + b))
            src = '''
__kc{i} = 0
if __kq__(__kc{i}):
    __ks{i} = __kload__({ns}, locals())
    __ke{i} = __kenter__(__kc{i}, True)
    BODY
    __kt{i} = __kcopy__({ns}, locals())
    __kleave__(__kc{i}, __ke{i})
{restore}
    __ke{i} = __kenter__(__kc{i}, False)
    ELSE
    __kf{i} = __kcopy__({ns}, locals())
    __kleave__(__kc{i}, __ke{i})
{merge}
elif __kc{i}:
    BODY
else:
    ELSE
'''.format(i=i, ns=repr(ns), restore='\n'.join('    %s = __ks%d[%r]' % (x, i, x) for x in ns),
                merge='\n'.join('    %s = __kmerge__(__kc%d, __kt%d[%r], __kf%d[%r])' % (x, i, i, x, i, x) for x in ns))
            new = ast.parse(src).body
            new[0].value = node.test

            class Fill(ast.NodeTransformer):
                def visit_Expr(self, e):
                    if isinstance(e.value, ast.Name) and e.value.id in ('BODY', 'ELSE'):
                        import copy
                        part = node.body if e.value.id == 'BODY' else node.orelse
                        return [copy.deepcopy(s) for s in part] or ast.Pass()
                    return e
            out = [Fill().visit(s) for s in new]
            for s in out:
                ast.copy_location(s, node)
                ast.fix_missing_locations(s)
            return out
    return T().visit(tree)


def install(builtins):
    builtins.__kq__, builtins.__kload__, builtins.__kenter__, builtins.__kcopy__ = kq, kload, kenter, kcopy
    builtins.__kleave__, builtins.__kmerge__ = kleave, kmerge
