"""Abstract interpretation of elementwise formulas in the domain of intervals with first derivatives.

The paths of a function (refine.summarise, everything inlined) are formulas over its parameters.  They are evaluated on
boxes: a parameter is an interval of values, each with the derivative with respect to one input; every operation rounds
outwards, so the true value (and the floating point one) lies inside of the result.  Nothing of the package is executed.
"""
import math

INF = float('inf')
TINY = 5e-324


class GiveUp(Exception):
    """the formula uses something this domain does not model"""


def dn(x):
    return x if x in (INF, -INF) else x - abs(x) * 4.5e-16 - TINY


def up(x):
    return x if x in (INF, -INF) else x + abs(x) * 4.5e-16 + TINY


class Iv(object):
    """values [lo, hi], derivatives [a, b]"""
    __slots__ = ('lo', 'hi', 'a', 'b')

    def __init__(self, lo, hi=None, a=0.0, b=None):
        self.lo = float(lo)
        self.hi = self.lo if hi is None else float(hi)
        self.a = float(a)
        self.b = self.a if b is None else float(b)
        if self.lo != self.lo or self.hi != self.hi:
            self.lo, self.hi = -INF, INF
        if self.a != self.a or self.b != self.b:
            self.a, self.b = -INF, INF

    def __repr__(self):
        return '[%.12g, %.12g | %.6g, %.6g]' % (self.lo, self.hi, self.a, self.b)

    def point(self):
        return self.lo == self.hi

    def der(self):
        return Iv(self.a, self.b)


def hull(*vs):
    vs = [v for v in vs if v is not None]
    if not vs:
        raise GiveUp('no value')
    if any(isinstance(v, frozenset) for v in vs):
        return frozenset().union(*[boolean(v) for v in vs])
    return Iv(min(v.lo for v in vs), max(v.hi for v in vs), min(v.a for v in vs), max(v.b for v in vs))


def _mul(a, b, c, d):
    ps = [0.0 if 0.0 in (x, y) else x * y for x in (a, b) for y in (c, d)]
    return dn(min(ps)), up(max(ps))


def _add(a, b, c, d):
    lo, hi = a + c, b + d
    return (-INF if lo != lo else dn(lo)), (INF if hi != hi else up(hi))


def add(x, y):
    return Iv(*(_add(x.lo, x.hi, y.lo, y.hi) + _add(x.a, x.b, y.a, y.b)))


def neg(x):
    return Iv(-x.hi, -x.lo, -x.b, -x.a)


def mul(x, y):
    v = _mul(x.lo, x.hi, y.lo, y.hi)
    d = _add(*(_mul(x.a, x.b, y.lo, y.hi) + _mul(y.a, y.b, x.lo, x.hi)))
    return Iv(*(v + d))


def inv(y):
    if y.lo <= 0.0 <= y.hi:
        if y.lo == 0.0 < y.hi:
            return Iv(dn(1 / y.hi), INF, -INF, INF)
        if y.hi == 0.0 > y.lo:
            return Iv(-INF, up(1 / y.lo), -INF, INF)
        return Iv(-INF, INF, -INF, INF)
    lo, hi = dn(1 / y.hi), up(1 / y.lo)
    q = _mul(lo, hi, lo, hi)
    d = _mul(y.a, y.b, *q)
    return Iv(lo, hi, -d[1], -d[0])


def power(x, n):
    if isinstance(n, float) and not n.is_integer():
        if n == 0.5:
            return mono(x, SQRT)
        raise GiveUp('power %r' % n)
    n = int(n)
    if n < 0:
        return inv(power(x, -n))
    if n == 0:
        return Iv(1)

    def p(v, k):
        try:
            return v ** k
        except OverflowError:
            return INF if v > 0 or k % 2 == 0 else -INF
    ends = [p(x.lo, n), p(x.hi, n)]
    lo, hi = min(ends), max(ends)
    if n % 2 == 0 and x.lo < 0 < x.hi:
        lo = 0.0
    if n == 1:
        return x
    q = power(Iv(x.lo, x.hi), n - 1)
    d = _mul(*(_mul(n, n, q.lo, q.hi) + (x.a, x.b)))
    # several roundings
    for _ in range(min(n, 8)):
        lo, hi = dn(lo), up(hi)
    if n % 2 == 0:
        lo = max(lo, 0.0)
    return Iv(lo, hi, *d)


def safe(f):
    def g(v):
        try:
            return f(v)
        except OverflowError:
            return INF
    return g


def _exp(v):
    return 0.0 if v == -INF else INF if v > 709.79 else math.exp(v)


def _log(v):
    return -INF if v <= 0 else INF if v == INF else math.log(v)


def _log1p(v):
    return -INF if v <= -1 else INF if v == INF else math.log1p(v)


def _expm1(v):
    return -1.0 if v == -INF else INF if v > 709.79 else math.expm1(v)


def _sqrt(v):
    return 0.0 if v <= 0 else INF if v == INF else math.sqrt(v)


# increasing functions: value, derivative as a function of the interval of arguments, least value, domain
EXP = (_exp, lambda x: Iv(max(dn(_exp(x.lo)), 0.0), up(_exp(x.hi))), 0.0, -INF)
LOG = (_log, lambda x: inv(Iv(max(x.lo, 0.0), max(x.hi, 0.0))), -INF, 0.0)
LOG1P = (_log1p, lambda x: inv(Iv(max(dn(x.lo + 1), 0.0), max(up(x.hi + 1), 0.0))), -INF, -1.0)
EXPM1 = (_expm1, lambda x: Iv(max(dn(_exp(x.lo)), 0.0), up(_exp(x.hi))), -1.0, -INF)
SQRT = (_sqrt, lambda x: inv(mul(Iv(2), Iv(max(dn(_sqrt(x.lo)), 0.0), up(_sqrt(x.hi))))), 0.0, 0.0)
TANH = (math.tanh, lambda x: Iv(0.0, 1.0) if x.lo < 0 < x.hi else Iv(max(dn(1 - math.tanh(min(abs(x.lo), abs(x.hi)) * 0 + max(abs(x.lo), abs(x.hi))) ** 2) - 4e-16, 0.0),
                                                                  up(1 - math.tanh(min(abs(x.lo), abs(x.hi))) ** 2) + 4e-16), -1.0, -INF)
ARCTANH = (lambda v: -INF if v <= -1 else INF if v >= 1 else math.atanh(v), lambda x: inv(add(Iv(1), neg(power(Iv(max(x.lo, -1.0), min(x.hi, 1.0)), 2)))), -INF, -1.0)
MONO = {'numpy.exp': EXP, 'numpy.log': LOG, 'numpy.log1p': LOG1P, 'numpy.expm1': EXPM1, 'numpy.sqrt': SQRT, 'numpy.tanh': TANH,
        'math.exp': EXP, 'math.log': LOG, 'math.log1p': LOG1P, 'math.expm1': EXPM1, 'math.sqrt': SQRT, 'math.tanh': TANH, 'numpy.arctanh': ARCTANH}


def mono(x, m):
    f, df, least, dom = m
    if x.hi < dom:
        raise Undefined('argument %r' % x)
    lo = max(dn(f(x.lo)), least) if x.lo >= dom else -INF if least == -INF else least
    hi = up(f(x.hi))
    if x.lo < dom:
        # may be undefined
        return Iv(lo, hi, -INF, INF)
    d = df(x)
    return Iv(lo, hi, *_mul(d.lo, d.hi, x.a, x.b))


class Undefined(Exception):
    """certainly not a number"""


T_, F_ = frozenset([True]), frozenset([False])
TF = T_ | F_


def boolean(v):
    if isinstance(v, frozenset):
        return v
    if isinstance(v, Iv):
        if v.lo == v.hi == 0:
            return F_
        if v.lo <= 0 <= v.hi:
            return TF
        return T_
    raise GiveUp('truth of %r' % (v,))


def num(v):
    if isinstance(v, Iv):
        return v
    if isinstance(v, frozenset):
        return Iv(min(v), max(v))
    raise GiveUp('number of %r' % (v,))


def lt(x, y):
    if x.hi < y.lo:
        return T_
    if x.lo >= y.hi:
        return F_
    return TF


def le(x, y):
    if x.hi <= y.lo:
        return T_
    if x.lo > y.hi:
        return F_
    return TF


def eq(x, y):
    if x.hi < y.lo or y.hi < x.lo:
        return F_
    if x.lo == x.hi == y.lo == y.hi:
        return T_
    return TF


def vmin(x, y):
    if x.hi <= y.lo:
        return x
    if y.hi <= x.lo:
        return y
    h = hull(x, y)
    return Iv(min(x.lo, y.lo), min(x.hi, y.hi), h.a, h.b)


def vmax(x, y):
    return neg(vmin(neg(x), neg(y)))


def vabs(x):
    if x.lo >= 0:
        return x
    if x.hi <= 0:
        return neg(x)
    h = hull(x, neg(x))
    return Iv(0.0, max(-x.lo, x.hi), h.a, h.b)


GLOBALS = {'numpy.inf': INF, 'math.inf': INF, 'numpy.pi': math.pi, 'math.pi': math.pi, 'numpy.e': math.e, 'math.e': math.e,
           'numpy.euler_gamma': 0.5772156649015329}
# one element in, the same element out
SAME = {'numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.atleast_1d', 'float', 'numpy.float64', 'numpy.copy', 'copy.copy', 'copy.deepcopy',
        'numpy.ravel', 'numpy.squeeze', 'numpy.ascontiguousarray', 'numpy.nan_to_num_'}
SAME_METH = {'copy', 'view', 'ravel', 'flatten', 'squeeze', 'item', '__copy__', '__deepcopy__', 'astype_'}
FLOAT = ((('global', 'numpy.float64'),), (('global', 'float'),), (('class', 'float'),))
FINFO = {'max': 1.7976931348623157e308, 'min': -1.7976931348623157e308, 'eps': 2.0 ** -52, 'tiny': 2.0 ** -1022, 'resolution': 1e-15}
MAX = 1.7976931348623157e308


class Eval(object):
    """one path of a function on one box"""
    def __init__(self, prog, env, attrs=None, consts=None):
        self.prog, self.env, self.attrs = prog, env, attrs or {}
        self.consts = consts
        self.memo = {}
        self.mutated = {}

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.mutated.get(t)
            if r is None:
                r = self.memo[t] = self.ev(t)
        return r

    def setitem(self, target, mask, val):
        """target[mask] = val; where target is used, it may be the array before or after that"""
        old = self(target)
        new = self.val_at(val, mask)
        m = boolean(self(mask)) if mask is not None else T_
        res = []
        if True in m:
            res.append(new)
        if False in m:
            res.append(old)
        after = hull(*res)
        self.memo.clear()
        self.mutated[target] = hull(old, after)

    def val_at(self, v, mask):
        from . import terms as T
        if mask is not None:
            v = T.subst(v, lambda t: t[1] if t[0] == 'sub' and t[2] == mask else None)
        return num(self(v))

    def poly(self, ms):
        tot = None
        for m, c in ms:
            x = Iv(c) if isinstance(c, (int, float)) else None
            if x is None:
                raise GiveUp('coefficient %r' % (c,))
            for k, n in m:
                p = power(num(self(k)), n)
                x = p if (x.lo == x.hi == 1.0 and x.a == x.b == 0) else mul(x, p)
            tot = x if tot is None else add(tot, x)
        return tot if tot is not None else Iv(0)

    def moebius(self, n, d):
        """(p + q e) / (r + s e) in one unknown e: monotone, so its values lie between those at the ends"""
        free, parts = None, []
        for q in (n, d):
            c, k = Iv(0), Iv(0)
            for m, co in q:
                x, e = Iv(co), None
                for at, pw in m:
                    v = num(self(at))
                    if not v.point() and (max(abs(v.lo), abs(v.hi)) == INF or (v.hi - v.lo) > 1e-9 * max(abs(v.lo), abs(v.hi))):
                        if e is not None or pw != 1 or free not in (None, at):
                            return None
                        free = e = at
                    else:
                        x = mul(x, power(Iv(v.lo, v.hi), pw))
                if e is None:
                    c = add(c, x)
                else:
                    k = add(k, x)
            parts.append((c, k))
        if free is None:
            return None
        e = num(self(free))
        (p, q), (r, s) = parts
        den = add(r, mul(s, Iv(e.lo, e.hi)))
        if den.lo <= 0 <= den.hi:
            return None
        ends = []
        for x in (e.lo, e.hi):
            if abs(x) == INF:
                if s.lo <= 0 <= s.hi:
                    return None
                ends.append(mul(q, inv(s)))
            elif abs(x) > 1e100:
                y = Iv(dn(1 / x), up(1 / x))
                ends.append(mul(add(mul(p, y), q), inv(add(mul(r, y), s))))
            else:
                ends.append(mul(add(p, mul(q, Iv(x))), inv(add(r, mul(s, Iv(x))))))
        return Iv(min(v.lo for v in ends), max(v.hi for v in ends))

    def ev(self, t):
        o = t[0]
        if o == 'const':
            v = t[1]
            if isinstance(v, bool):
                return frozenset([v])
            if isinstance(v, (int, float)):
                if v != v:
                    raise Undefined('nan')
                return Iv(v)
            raise GiveUp('constant %r' % (v,))
        if o == 'param':
            if t[1] in self.env:
                return self.env[t[1]]
            raise GiveUp('parameter %s' % t[1])
        if o == 'attr':
            if t[1] == ('param', 'self') and t[2] in self.attrs:
                return self.attrs[t[2]]
            if t[1][0] == 'call' and t[1][1] == 'numpy.finfo' and t[1][2] in FLOAT and t[2] in FINFO:
                return Iv(FINFO[t[2]])
            if t[2] == 'size' and self.elementwise(t[1]):
                return Iv(1)
            if t[2] in ('T', 'values', 'flat') and self.elementwise(t[1]):
                return self(t[1])
            raise GiveUp('attribute %s' % t[2])
        if o == 'global':
            if t[1] in GLOBALS:
                return Iv(GLOBALS[t[1]])
            v = self.consts(t[1]) if self.consts else None
            if v is not None and v != t:
                return self(v)
            raise GiveUp('global %s' % t[1])
        if o == 'lin':
            tot = Iv(t[2])
            for k, c in t[1]:
                tot = add(tot, mul(Iv(c), num(self(k))))
            return tot
        if o == 'mul':
            tot = Iv(1)
            for k in t[1]:
                tot = mul(tot, num(self(k)))
            return tot
        if o == 'poly':
            return self.poly(t[1])
        if o == 'rat':
            r = mul(self.poly(t[1]), inv(self.poly(t[2])))
            m = self.moebius(t[1], t[2])
            if m is not None:
                lo, hi = max(r.lo, m.lo), min(r.hi, m.hi)
                r = Iv(lo, hi, r.a, r.b) if lo <= hi else Iv(m.lo, m.hi, r.a, r.b)
            return r
        if o == 'lt':
            return lt(num(self(t[1])), num(self(t[2])))
        if o == 'le':
            return le(num(self(t[1])), num(self(t[2])))
        if o == 'eq':
            return eq(num(self(t[1])), num(self(t[2])))
        if o in ('truth', 'pos'):
            return boolean(self(t[1]))
        if o == 'not':
            return frozenset(not v for v in boolean(self(t[1])))
        if o == 'band' or o == 'bor':
            vs = [boolean(self(x)) for x in t[1]]
            stop = o == 'bor'
            if any(v == frozenset([stop]) for v in vs):
                return frozenset([stop])
            out = set()
            if any(stop in v for v in vs):
                out.add(stop)
            if all((not stop) in v for v in vs):
                out.add(not stop)
            return frozenset(out)
        if o == 'call':
            return self.call(t[1], t[2], dict(t[3]) if len(t) > 3 and t[3] else {})
        if o == 'meth' or o == 'res':
            name, recv = t[1], t[2]
            a, kw = (t[3][1], t[3][2]) if isinstance(t[3], tuple) and t[3] and t[3][0] in ('raw', 'bound') else (t[3], ())
            if recv is None:
                raise GiveUp('call of %s' % name)
            if name in ('any', 'all', 'min', 'max', 'sum', 'mean', 'prod') and not a and not kw:
                v = self(recv)
                return boolean(v) if name in ('any', 'all') else v
            if name in SAME_METH:
                return self(recv)
            if name == 'astype' and a and a[0] in (('global', 'float'), ('global', 'numpy.float64'), ('const', 'float'), ('class', 'float')):
                return self(recv)
            if name == 'clip' and len(a) == 2:
                return self.clip(self(recv), a)
            if name == 'reshape':
                return self(recv)
            raise GiveUp('method %s' % name)
        if o == 'ite':
            return self.where(t[1], t[2], t[3])
        if o == 'sub' and t[2] in (('FULL',), ('const', Ellipsis)):
            return self(t[1])
        raise GiveUp('term %s' % o)

    def elementwise(self, t):
        try:
            self(t)
            return True
        except GiveUp:
            return False

    def where(self, c, x, y):
        m = boolean(self(c))
        out = []
        if True in m:
            out.append(num(self(x)))
        if False in m:
            out.append(num(self(y)))
        return hull(*out)

    def clip(self, v, a):
        v = num(v)
        if a[0] != ('const', None):
            v = vmax(v, num(self(a[0])))
        if a[1] != ('const', None):
            v = vmin(v, num(self(a[1])))
        return v

    def call(self, f, a, kw):
        if any(x and x[0] in ('star', 'kw') for x in a):
            raise GiveUp('star')
        if kw and not (f in ('numpy.any', 'numpy.all')):
            if set(kw) - {'dtype', 'copy', 'subok'} or f not in SAME | {'numpy.zeros_like', 'numpy.ones_like'}:
                raise GiveUp('keywords of %s' % f)
        g = f.split('.')[-1]
        ext = f.startswith(('numpy.', 'math.')) or '.' not in f
        if not ext:
            raise GiveUp('call of %s' % f)
        if f in MONO and len(a) == 1:
            return mono(num(self(a[0])), MONO[f])
        if f == 'numpy.where' and len(a) == 3:
            return self.where(*a)
        if f == 'numpy.select' and len(a) == 3 and a[0][0] in ('list', 'tuple') and a[1][0] in ('list', 'tuple') and len(a[0][1]) == len(a[1][1]):
            r = None
            out, more = [], True
            for c, v in zip(a[0][1], a[1][1]):
                m = boolean(self(c))
                if True in m:
                    out.append(num(self(v)))
                if False not in m:
                    more = False
                    break
            if more:
                out.append(num(self(a[2])))
            return hull(*out)
        if g in ('any', 'all') and len(a) == 1:
            return boolean(self(a[0]))
        if f in ('numpy.minimum', 'min', 'numpy.fmin') and len(a) == 2:
            return vmin(num(self(a[0])), num(self(a[1])))
        if f in ('numpy.maximum', 'max', 'numpy.fmax') and len(a) == 2:
            return vmax(num(self(a[0])), num(self(a[1])))
        if f == 'numpy.clip' and len(a) == 3:
            return self.clip(self(a[0]), a[1:])
        if f in ('numpy.abs', 'abs', 'numpy.absolute', 'numpy.fabs', 'math.fabs') and len(a) == 1:
            return vabs(num(self(a[0])))
        if f == 'numpy.square' and len(a) == 1:
            return power(num(self(a[0])), 2)
        if f == 'numpy.reciprocal' and len(a) == 1:
            return inv(num(self(a[0])))
        if f == 'numpy.negative' and len(a) == 1:
            return neg(num(self(a[0])))
        if f == 'numpy.sign' and len(a) == 1:
            v = num(self(a[0]))
            return Iv(1) if v.lo > 0 else Iv(-1) if v.hi < 0 else Iv(0) if v.lo == v.hi == 0 else Iv(-1, 1, -INF, INF)
        if f == 'numpy.copysign' and len(a) == 2:
            v, s = vabs(num(self(a[0]))), num(self(a[1]))
            return v if s.lo > 0 else neg(v) if s.hi < 0 else hull(v, neg(v))
        if f in ('numpy.logaddexp',) and len(a) == 2:
            x, y = num(self(a[0])), num(self(a[1]))
            m = vmax(x, y)
            s = vmin(x, y)
            e = mono(add(s, neg(m)), EXP)
            r = add(m, mono(Iv(max(e.lo, 0), min(e.hi, 1), e.a, e.b), LOG1P))
            # derivative: weighted mean of both
            return Iv(r.lo, r.hi, min(x.a, y.a), max(x.b, y.b)) if not (x.point() and y.point()) else self._lae(x, y, r)
        if f in ('numpy.power', 'pow') and len(a) == 2:
            n = num(self(a[1]))
            if n.point():
                return power(num(self(a[0])), n.lo)
            raise GiveUp('power')
        if f in ('numpy.multiply', 'numpy.add', 'numpy.subtract', 'numpy.divide', 'numpy.true_divide') and len(a) == 2:
            x, y = num(self(a[0])), num(self(a[1]))
            return mul(x, y) if g == 'multiply' else add(x, y) if g == 'add' else add(x, neg(y)) if g == 'subtract' else mul(x, inv(y))
        if f in ('numpy.logical_or', 'numpy.logical_and', 'numpy.bitwise_or', 'numpy.bitwise_and') and len(a) == 2:
            return self(('bor' if g.endswith('or') else 'band', tuple(a)))
        if f in ('numpy.logical_not', 'numpy.invert') and len(a) == 1:
            return frozenset(not v for v in boolean(self(a[0])))
        if f in ('numpy.less', 'numpy.greater', 'numpy.less_equal', 'numpy.greater_equal', 'numpy.equal') and len(a) == 2:
            x, y = num(self(a[0])), num(self(a[1]))
            return {'less': lt, 'less_equal': le, 'equal': eq, 'greater': lambda p, q: lt(q, p), 'greater_equal': lambda p, q: le(q, p)}[g](x, y)
        if f == 'numpy.isfinite' and len(a) == 1:
            v = num(self(a[0]))
            return T_ if -MAX <= v.lo and v.hi <= MAX else TF
        if f in ('numpy.isnan', 'numpy.isinf') and len(a) == 1:
            v = num(self(a[0]))
            return F_ if -MAX <= v.lo and v.hi <= MAX else TF
        if f in ('numpy.zeros_like', 'numpy.zeros'):
            return Iv(0)
        if f in ('numpy.ones_like', 'numpy.ones'):
            return Iv(1)
        if f in ('numpy.full_like',) and len(a) == 2:
            return num(self(a[1]))
        if f in ('numpy.empty_like', 'numpy.empty'):
            return Iv(-INF, INF, -INF, INF)
        if f in ('len', 'numpy.size', 'numpy.ndim') and len(a) == 1:
            return Iv(1)
        if f in SAME and len(a) >= 1:
            x = a[0]
            if x[0] in ('list', 'tuple') and len(x[1]) == 1:
                x = x[1][0]
            return self(x)
        if f == 'numpy.einsum' and len(a) >= 2 and a[0][0] == 'const':
            lhs, _, rhs = str(a[0][1]).replace(' ', '').partition('->')
            ops = lhs.split(',')
            if len(ops) == len(a) - 1 and set(ops) <= {rhs, ''} and len(rhs) == 1 or (rhs == '...' and set(ops) <= {'...', ''}):
                tot = Iv(1)
                for x in a[1:]:
                    tot = mul(tot, num(self(x)))
                return tot
        raise GiveUp('call of %s' % f)

    def _lae(self, x, y, r):
        wx = mono(add(Iv(x.lo, x.hi), neg(Iv(r.lo, r.hi))), EXP)
        wy = mono(add(Iv(y.lo, y.hi), neg(Iv(r.lo, r.hi))), EXP)
        d = _add(*(_mul(x.a, x.b, wx.lo, wx.hi) + _mul(y.a, y.b, wy.lo, wy.hi)))
        return Iv(r.lo, r.hi, *d)


QUIET = ('logger', 'logging', 'warnings', 'print')


class Formula(object):
    """a method of a class, as the formulas of its paths"""
    def __init__(self, prog, cls, name, consts=None):
        from . import refine as R
        from .src import Func
        self.prog, self.cls, self.name, self.consts = prog, cls, name, consts
        f = prog.find(prog.cls(cls), name)
        if not isinstance(f, Func) or f.kind == 'decorated':
            raise GiveUp('%s.%s is not a function' % (cls, name))
        self.f = f
        self.params = [p.arg for p in f.node.args.args][1:]
        self.an, self.paths = R.summarise(prog, cls, f, opaque=frozenset(), baseline=frozenset(['__init__']), forks=frozenset(), types=instance_types(prog, cls))
        for p in self.paths:
            if p.unk:
                raise GiveUp('%s.%s: %s' % (cls, name, 'an unmodelled statement'))

    def __call__(self, args, attrs=None, default=None):
        """hull of the values of all paths that are feasible on the box; None if it certainly raises or is undefined"""
        env = dict(zip(self.params, args))
        out, undef = [], 0
        for p in self.paths:
            e = Eval(self.prog, env, attrs, self.consts)
            ok = True
            seen = {}
            for ev in p.ev:
                k = ev.key[0]
                if k == 'setitem':
                    pass
                elif k == 'ext' and any(q in str(ev.key[1]) for q in QUIET) or k == 'ext' and ev.key[1] in ('warn',):
                    pass
                elif k == 'call' and ev.key[1] in ('copy', 'astype', 'any', 'all', 'clip', 'warning', 'info', 'debug', 'warn'):
                    pass
                else:
                    raise GiveUp('effect %s %s' % (k, ev.key[1]))
            sure = True
            for t, v in p.g.items():
                try:
                    b = boolean(e(t))
                except Undefined:
                    b = TF
                if v not in b:
                    ok = False
                    break
                if len(b) > 1:
                    sure = False
            if not ok:
                continue
            if p.exit != 'return':
                if sure:
                    undef += 1
                else:
                    out.append(None)
                continue
            try:
                for ev in p.ev:
                    if ev.key[0] == 'setitem':
                        i = ev.key[2]
                        e.setitem(ev.key[1], None if i[0] in (('FULL',), ('const', Ellipsis)) else i[0], ev.key[3])
                out.append(num(e(p.val)))
            except Undefined as u:
                if sure:
                    undef += 1
                else:
                    out.append(None)
        if not out:
            return None
        if any(v is None for v in out) or undef:
            raise GiveUp('%s.%s may be undefined' % (self.cls, self.name))
        return hull(*out)


def instance_types(prog, cls):
    """class attributes which hold an instance of a class of the package"""
    import ast
    out = {}
    for k in prog.mro(prog.cls(cls)):
        if getattr(k, 'ext', False):
            continue
        for n, e in k.attrs.items():
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in prog.classes and not e.args and not e.keywords:
                out.setdefault(('attr', ('param', 'self'), n, 0), prog.classes[e.func.id])
    return out
