"""Term difference: are two value-number terms the same value, different values, or not decidably either?

SAME / DIFFERENT / MAYBE.  Two terms DIFFER only if they share one structure and disagree at
positions where the disagreement is between things that denote different values (two
parameters, two attributes, two constants, two functions of the package, a polynomial and
another polynomial over the same atoms, a value and the same value indexed / copied / negated).
Everything else - a value computed by different means - is MAYBE, and never reported.
"""
import builtins

from . import terms as T

SAME, DIFFERENT, MAYBE = 0, 1, 2
LEAF = ('const', 'param', 'global', 'func', 'class')
# attributes that alias each other (depending on the class)
VIEWS = [{'values', 'param_array', '_param_array_', 'flat'}, {'gradient', 'gradient_full', '_gradient_array_'}, {'observers', '_poc'}]
FAMILIES = [
    {'numpy.minimum', 'numpy.maximum'}, {'numpy.min', 'numpy.max', 'min', 'max'}, {'numpy.any', 'numpy.all', 'any', 'all'},
    {'numpy.sum', 'numpy.prod', 'numpy.mean'}, {'numpy.zeros', 'numpy.ones', 'numpy.empty'}, {'numpy.floor', 'numpy.ceil', 'numpy.round'},
    {'numpy.log', 'numpy.log1p', 'numpy.log2', 'numpy.log10', 'numpy.exp', 'numpy.expm1', 'numpy.sqrt', 'numpy.abs', 'numpy.sign', 'numpy.square'},
    {'numpy.intersect1d', 'numpy.union1d', 'numpy.setdiff1d', 'numpy.setxor1d'}, {'numpy.argmin', 'numpy.argmax'},
    {'numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like'}, {'numpy.isfinite', 'numpy.isnan', 'numpy.isinf'},
    {'numpy.array', 'numpy.asarray', 'numpy.asanyarray'}, {'min', 'max'}, {'sum', 'len'}, {'str', 'repr'}, {'numpy.hstack', 'numpy.vstack'},
    {'strip', 'lstrip', 'rstrip'}, {'lower', 'upper'}, {'startswith', 'endswith'}, {'match', 'search', 'fullmatch'}, {'keys', 'values', 'items'},
    {'numpy.cumsum', 'numpy.cumprod'}, {'numpy.argmin', 'numpy.argmax', 'numpy.nanargmin', 'numpy.nanargmax'}, {'numpy.min', 'numpy.nanmin'}, {'numpy.max', 'numpy.nanmax'}, {'numpy.cumsum', 'numpy.sum'}, {'split', 'rsplit'}, {'partition', 'rpartition'}, {'isdigit', 'isalpha', 'isalnum'},
]
STRICT_CALL = {'numpy.abs', 'numpy.exp', 'numpy.log', 'numpy.log1p', 'numpy.expm1', 'numpy.sqrt', 'numpy.sign', 'numpy.sum', 'numpy.prod', 'numpy.cumsum',
               'numpy.rollaxis', 'numpy.moveaxis', 'numpy.swapaxes', 'numpy.transpose', 'numpy.min', 'numpy.max', 'numpy.any', 'numpy.all', 'numpy.nan_to_num', 'numpy.unique', 'numpy.sort', 'numpy.array', 'len', 'sorted', 'reversed',
               'copy.copy', 'copy.deepcopy', 'abs', 'numpy.isfinite', 'numpy.minimum', 'numpy.maximum', 'numpy.mean', 'numpy.round', 'numpy.floor', 'numpy.ceil', 'round'}
WEAK_METH = {'view', 'ravel', 'flatten', 'astype', 'squeeze', 'reshape', 'tolist'}
TRANSC = {'numpy.exp', 'numpy.log', 'numpy.log1p', 'numpy.expm1', 'numpy.sqrt', 'numpy.power', 'numpy.abs', 'numpy.where', 'numpy.sign', 'numpy.maximum',
          'numpy.minimum', 'numpy.dot', 'numpy.inner', 'numpy.sum', 'numpy.prod', 'numpy.mean', 'numpy.square', 'numpy.tanh', 'numpy.logaddexp'}
# digest of a loop-carried variable -> its updates [(condition, value)]
LVS = {}
# parameters which take numbers or arrays: 0 and None are not the same thing
NUMERIC = frozenset('which min_priority index priority x X value val values name size offset start target_param seed xtol ftol gtol bfgs_factor step tolerance maxiters max_iters max_f_eval max_nb_eval_optim ind s i'.split())
ARITH = ('lin', 'mul', 'poly', 'rat')


def distinct_calls(a, b):
    return any(a in f and b in f for f in FAMILIES)


def covers(names):
    """the standard exception classes a handler for these names catches"""
    out = set()
    for n in names:
        if not isinstance(n, str):
            return None
        n = n.split('.')[-1]
        c = getattr(builtins, n, None)
        if n == 'LinAlgError':
            out.add(n)
        elif isinstance(c, type) and issubclass(c, BaseException):
            out.update(k for k, v in vars(builtins).items() if isinstance(v, type) and issubclass(v, c))
            if issubclass(ValueError, c):
                out.add('LinAlgError')
        else:
            return None
    return out


def combine(rs):
    r = SAME
    for x in rs:
        if x == MAYBE:
            return MAYBE
        if x == DIFFERENT:
            r = DIFFERENT
    return r


def unversioned(t):
    return T.subst(t, lambda x: x[:3] + (0,) if x[0] == 'attr' and len(x) == 4 and x[3] else None)


class Differ(object):
    def __init__(self, progfuncs=frozenset(), closures=None, void=None, piecewise=False):
        self.piecewise = piecewise      # the implementation makes no further case distinction
        self.void = void or (lambda name: True)      # may every function of that name return None?
        self.progfuncs = progfuncs          # functions of the package known to both sides
        self.closures = closures            # callback comparing two closure terms
        self.memo = {}

    def __call__(self, a, b):
        return self.t(a, b, 0)

    def t(self, a, b, d):
        if a == b:
            return SAME
        if not isinstance(a, tuple) or not isinstance(b, tuple):
            if a is None or b is None or isinstance(a, tuple) != isinstance(b, tuple):
                return MAYBE
            return DIFFERENT
        if d > 30:
            return MAYBE
        k = (a, b)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self._t(a, b, d + 1)
        return r

    def seq(self, xs, ys, d):
        if xs is None or ys is None:
            return SAME if xs is ys else MAYBE
        for p, q in ((xs, ys), (ys, xs)):
            # f(*x) and f(x[0], x[1], ..)
            if p and isinstance(p[-1], tuple) and p[-1][:1] == ('star',) and len(q) >= len(p):
                n = len(p) - 1
                if tuple(q[n:]) == tuple(('sub', p[-1][1], ('const', i)) for i in range(len(q) - n)):
                    return combine(self.t(x, y, d) for x, y in zip(p[:n], q[:n]))
        if len(xs) != len(ys):
            for p, q in ((xs, ys), (ys, xs)):
                if len(p) == len(q) + 1 and isinstance(p[-1], tuple) and p[-1][:1] == ('star',) and p[-1][1][0] in ('comp', 'param') and not any(isinstance(x, tuple) and x[:1] in (('star',), ('kw',)) for x in q):
                    return combine([DIFFERENT] + [self.t(x, y, d) for x, y in zip(p, q)])
            if any(isinstance(x, tuple) and x and x[0] in ('star', 'kw') for x in tuple(xs) + tuple(ys)):
                return MAYBE
            return DIFFERENT
        return combine(self.t(x, y, d) for x, y in zip(xs, ys))

    def pairset(self, xs, ys, d):
        """unordered collections"""
        xs, ys = [x for x in xs if x not in ys], [y for y in ys if y not in xs]
        if not xs and not ys:
            return SAME
        if len(xs) == len(ys) == 1:
            return self.t(xs[0], ys[0], d)
        if not xs or not ys:
            return DIFFERENT
        out = []
        for x in xs:
            rs = [self.t(x, y, d) for y in ys]
            if MAYBE in rs:
                return MAYBE
            out.append(SAME if SAME in rs else DIFFERENT)
        return DIFFERENT

    def _t(self, a, b, d):
        if not a or not b or not isinstance(a[0], str) or not isinstance(b[0], str):
            return self.seq(a, b, d)
        oa, ob = a[0], b[0]
        if 'unknown' in (oa, ob):
            return MAYBE
        if oa in ARITH or ob in ARITH:
            return self.arith(a, b, d)
        if oa == ob:
            if oa in LEAF:
                return DIFFERENT
            if oa == 'sub' and (self.strict(a, b) or self.strict(b, a)):
                return DIFFERENT
            if oa == 'attr':
                base = self.t(a[1], b[1], d)
                if a[2] == b[2]:
                    return MAYBE if len(a) == len(b) == 4 and a[3] != b[3] and base == SAME else base
                if base == SAME:
                    return MAYBE if any(a[2] in v and b[2] in v for v in VIEWS) else DIFFERENT
                return MAYBE if base == MAYBE or self.wrapped(a, b) is None else DIFFERENT
            if oa == 'call' and len(a) == len(b) == 7:
                # an event
                if a[1] != b[1]:
                    return DIFFERENT
                return combine(self.t(x, y, d) for x, y in zip(a[2:], b[2:]))
            if oa == 'call':
                if a[1] == b[1]:
                    return combine([self.seq(a[2], b[2], d), self.t(tuple(a[3]) if len(a) > 3 else (), tuple(b[3]) if len(b) > 3 else (), d)])
                if distinct_calls(a[1], b[1]):
                    return DIFFERENT if self.t(a[2], b[2], d) != MAYBE else MAYBE
                return self.wrap(a, b)
            if oa == 'meth':
                if a[1] == b[1]:
                    return combine([self.t(a[2], b[2], d), self.t(a[3], b[3], d)])
                if distinct_calls(a[1], b[1]):
                    return DIFFERENT if self.t(a[2], b[2], d) != MAYBE else MAYBE
                return self.wrap(a, b)
            if oa == 'res':
                if a[1] == b[1]:
                    if a[4:] != b[4:]:
                        return MAYBE
                    return combine([self.opt(a[2], b[2], d), self.t(a[3], b[3], d)])
                if a[1] in self.progfuncs and b[1] in self.progfuncs:
                    return DIFFERENT
                return MAYBE
            if oa in ('bound', 'raw'):
                return combine([self.seq(a[1], b[1], d), self.t(a[2], b[2], d)])
            if oa == 'closure':
                return self.closures(a, b) if self.closures else MAYBE
            if oa in ('band', 'bor', 'set'):
                return self.pairset(a[1], b[1], d)
            if oa in ('eq', 'is'):
                if (T.NONE in a[1:]) != (T.NONE in b[1:]):
                    return DIFFERENT
                return self.pairset(a[1:], b[1:], d)
            if oa in ('comp', 'sum', 'any', 'all', 'prefix') and len(a) == len(b) == 3:
                for x, y in ((a, b), (b, a)):
                    if oa == 'comp' and x[1][0] == 'nest' and len(x[1]) == 2 and len(x[1][1]) > 1 and y[1] == x[1][1][0] and \
                            all(len(z[2]) == 1 and z[2][0][0] == T.TRUE and len(z[2][0][1]) == 1 and z[2][0][1][0][0] != 'star' for z in (x, y)):
                        # something for every element of every collection, and for every collection
                        return DIFFERENT
                if oa == 'comp' and a[1] == b[1] and len(a[2]) == len(b[2]) == 1 and a[2][0][1] == b[2][0][1] and T.TRUE in (a[2][0][0], b[2][0][0]):
                    c = b[2][0][0] if a[2][0][0] == T.TRUE else a[2][0][0]
                    if c[0] in ('not', 'is', 'truth') and all(n[0] in ('not', 'is', 'truth', 'sub', 'elem', 'param', 'const', 'none') or n[:2] == ('call', 'sorted') or not isinstance(n[0], str) for n in T.walk(c)) and \
                            any(n[0] == 'param' and n[1] != 'self' for n in T.walk(c)):
                        # everything the caller gave, and what of it passes a test the caller is free to fail
                        return DIFFERENT
                it = self.t(a[1], b[1], d)
                if it == MAYBE or oa in ('sum', 'any', 'all') and {a[1], b[1]} & {('rev', a[1]), ('rev', b[1])}:
                    return MAYBE
                return combine([it, self.pairset(a[2], b[2], d)])
            if oa in ('list', 'tuple', 'dict'):
                return self.seq(a[1], b[1], d)
            if oa == 'strcat':
                if len(a[1]) == len(b[1]):
                    return self.seq(a[1], b[1], d)
                x, y = (a[1], b[1]) if len(a[1]) < len(b[1]) else (b[1], a[1])
                it = iter(y)
                return DIFFERENT if all(any(p == q for q in it) for p in x) else MAYBE
            if oa == 'lv':
                return self.lv(a, b, d)
            if oa in ('lvend', 'lvref', 'lvrefend', 'while', 'mut', 'reduce', 'fstr', 'localcontainer'):
                return MAYBE
            if oa == 'exctype' and len(a) == len(b) == 3:
                x, y = covers(a[2]), covers(b[2])
                if x is None or y is None:
                    return MAYBE
                return combine([self.t(a[1], b[1], d), SAME if x == y else DIFFERENT])
            if oa in ('hasattr', 'isinstance'):
                return self.seq(a[1:], b[1:], d)
            if oa == 'new':
                if a[1] != b[1]:
                    return DIFFERENT
            if len(a) != len(b):
                return MAYBE
            return combine(self.t(x, y, d) for x, y in zip(a[1:], b[1:]))
        if oa in LEAF and ob in LEAF:
            return DIFFERENT
        if {oa, ob} <= {'lt', 'le', 'eq', 'is', 'in'} and set(a[1:]) == set(b[1:]):
            return DIFFERENT
        if {oa, ob} == {'lt', 'le'}:
            for i, j in ((1, 2), (2, 1)):
                # the same quantity and two bounds: over the integers, < 0 and <= -1 are one condition
                if a[j] == b[j] and T.is_num(a[i]) and T.is_num(b[i]) and (a[j][0] == 'rat' or abs(a[i][1] - b[i][1]) > 1):
                    return DIFFERENT
        for x, y in ((a, b), (b, a)):
            if x[0] == 'eq' and y[0] in ('lt', 'le'):
                # being a number, and being on one side of another one
                for i, j in ((1, 2), (2, 1)):
                    k = x[3 - x.index(y[j], 1)] if y[j] in x[1:] else None
                    if k is not None and T.is_num(k) and T.is_num(y[i]):
                        t = y[i][1] + (1 if (y[0] == 'lt') == (i == 1) else 0)
                        if k[1] not in (t, t - 1):
                            return DIFFERENT
        for x, y in ((a, b), (b, a)):
            if x[0] == 'pos' and y[0] in ('lt', 'le', 'eq') and x[1] in y[1:]:
                c = [z for z in y[1:] if z != x[1]]
                if c and c[0][0] == 'const' and not (y[0] == 'eq' and c[0][1] in (0, False)) and not (y[0] == 'lt' and y[2] == x[1] and c[0][1] in (0, False)) and \
                        not (y[0] == 'le' and y[2] == x[1] and c[0][1] in (1, True)) and not (y[0] == 'lt' and y[1] == x[1] and c[0][1] in (1, True)) and \
                        not (y[0] == 'le' and y[1] == x[1] and c[0][1] in (0, False)):
                    return DIFFERENT
            if x[0] in ('band', 'bor') and y in x[1]:
                return DIFFERENT
            # being None and being false, of something that can be 0 or an array
            if x[0] == 'not' and x[1][0] == 'is' and y[0] in ('truth', 'pos') and self.t(x[1], y, d) == DIFFERENT:
                return DIFFERENT
            if x[0] == 'is' and T.NONE in x[1:] and y[0] in ('truth', 'pos') and y[1] in x[1:] and \
                    (y[1][0] == 'param' and y[1][1] in NUMERIC or y[1][0] == 'attr' and y[1][2] in NUMERIC and y[1][2] != 'name' or y[1][0] == 'sub' and y[1][1][0] == 'param' and y[1][1][1][:1] == '*'):
                return DIFFERENT
            # an instance of a class, and one of a class below it
            if x[0] == 'isinstance' and y[0] == 'is' and ('attr', x[1], '__class__', 0) in y[1:] and any(x[2] in (z, repr(z)) for z in y[1:]):
                return DIFFERENT
            # what an object has, and what is stored in the object itself
            if x[0] == 'call' and x[1] == 'dir' and y[0] == 'attr' and y[2] == '__dict__' and x[2] == (y[1],):
                return DIFFERENT
            # one element, and a value computed from all of them
            if x[0] == 'sub' and x[2][0] == 'const' and y[0] == 'call' and y[2] == (x[1],) and \
                    y[1] in ('min', 'max', 'sum', 'len', 'numpy.min', 'numpy.max', 'numpy.sum', 'numpy.mean') and x[1][0] not in ('call', 'list', 'tuple', 'const'):
                return DIFFERENT
            # all of an array, and the part that an index selects
            if x in (T.FULL, ('const', Ellipsis)) and (y[0] in ('param', 'attr', 'elem', 'idx') or y[0] == 'sub' and not any(z[0] == 'call' and z[1] == 'numpy.ones' for z in T.walk(y))):
                return DIFFERENT
            # the other way round
            if x == ('rev', y) and y[0] == 'attr':
                return DIFFERENT
            # a property and a method of the package
            if x[0] == 'attr' and y[0] == 'res' and x[2] in self.progfuncs and y[1] in self.progfuncs and x[2] != y[1] and y[2] is not None and self.t(x[1], y[2], d) == SAME:
                return DIFFERENT
            if x[0] == 'dict' and y[0] == 'param':
                return DIFFERENT
            # an element of the list that is current in each iteration, instead of one of the list the loop started with
            if x[0] == 'sub' and x[2][0] == 'idx' and y[0] == 'elem' and x[2][1] == y[1] and unversioned(x[1]) == unversioned(y[1]):
                return DIFFERENT
            # a sum over the elements so far, and a variable that is carried in another way
            if x[0] == 'lv' and len(x) == 4 and x[2] == ('const', 0) and y[0] == 'sum' and y[1][0] == 'sub' and y[1][2] == ('slice', T.NONE, ('idx', y[1][1]), T.NONE) and \
                    len(y[2]) == 1 and y[2][0][0] == T.TRUE:
                ups = LVS.get(x[3])
                if ups and len(ups) == 1 and not any(z[0] in ('lv', 'lvref', 'unknown') for z in T.walk(min(ups)[1])):
                    return DIFFERENT
                if ups and len(ups) == 1:
                    from .refine import arith
                    e = T.subst(y[2][0][1], lambda z: ('elem', y[1][1]) if z == ('elem', y[1]) else None)
                    return DIFFERENT if self.t(min(ups)[1], arith(T.add(('lv', 'in', x[2]), e)), d) == DIFFERENT else MAYBE
            # every position in turn, and one position
            if x[0] == 'idx' and len(x) == 2 and y[:2] == ('call', 'len') and y[2] == (x[1],):
                return DIFFERENT    # a position in a sequence is less than its length
            if x[0] == 'const' and isinstance(x[1], int) and y[0] in ('elem', 'idx') and len(y) == 2 and (y[0] == 'idx' or y[1][0] == 'range'):
                return DIFFERENT
            # part of a sequence instead of all of it
            if x[0] == 'range' and self.cut(x, y[1] if y[0] == 'rev' else y):
                return DIFFERENT
            if x[0] == 'sub' and x[2][0] == 'elem' and x[2][1][0] == 'range' and y[0] == 'elem':
                q = y[1][1] if y[1][0] == 'rev' else y[1]
                if q == x[1] and self.cut(x[2][1], q):
                    return DIFFERENT
        if {oa, ob} == {'band', 'bor'} and a[1] == b[1]:
            return DIFFERENT
        if {oa, ob} == {'any', 'all'} and len(a) == len(b) == 3 and self.t(a[1:], b[1:], d) == SAME:
            return DIFFERENT
        return self.wrap(a, b)

    def lv(self, a, b, d):
        """loop-carried variables: entry value and the way an iteration changes them"""
        if len(a) != len(b) or len(a) != 4:
            if len(a) == len(b) == 3:
                return self.t(a[2], b[2], d) if a[1] == b[1] else MAYBE
            return MAYBE
        if a[1] != b[1]:
            return DIFFERENT if a[2:] == b[2:] else MAYBE
        init = self.t(a[2], b[2], d)
        if init == MAYBE or a[3] == b[3]:
            return init
        x, y = LVS.get(a[3]), LVS.get(b[3])
        if x is None or y is None:
            return MAYBE
        xs, ys = [u for u in x if u not in y], [u for u in y if u not in x]
        if not xs or not ys:
            # one side has further ways of changing it
            com = [u for u in x if u in y]
            rs = [combine([self.t(c, c2, d), self.t(v, v2, d)]) if v != v2 else self.t(c, c2, d) for c, v in xs + ys for c2, v2 in com if c != T.TRUE or v != v2]
            return MAYBE if MAYBE in rs or not rs else DIFFERENT
        out = [init]
        for us, vs in ((xs, ys), (ys, xs)):
            for c, v in us:
                rs = []
                for c2, v2 in vs:
                    if c == c2:
                        rs = [self.t(v, v2, d)]
                        break
                    if v == v2:
                        rs.append(self.t(c, c2, d))
                    else:
                        rs.append(combine([self.t(c, c2, d), self.t(v, v2, d)]))
                if MAYBE in rs:
                    return MAYBE
                out.append(SAME if SAME in rs else DIFFERENT)
        return combine(out)

    def cut(self, rng, seq):
        """a range over constants and the length of seq, which is not one of the forms that cover it"""
        n = ('call', 'len', (seq,), ())
        ats = set()
        for x in rng[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], tuple):
                for y in x:
                    self.atoms(y, ats)
            elif isinstance(x, tuple) and x:
                self.atoms(x, ats)
        return {a for a in ats if a[0] != 'const'} == {n}

    def opt(self, a, b, d):
        if a is None and b is None:
            return SAME
        if a is None or b is None:
            return MAYBE
        return self.t(a, b, d)

    def simple(self, t):
        while t[0] in ('attr', 'elem') or t[0] == 'sub' and t[2][0] == 'const':
            t = t[1]
        return t[0] in LEAF

    def wrapped(self, a, b):
        """a, b attribute chains or leaves"""
        return True if self.simple(a) and self.simple(b) else None

    def wrap(self, a, b):
        if self.simple(a) and self.simple(b):
            return DIFFERENT
        for x, y in ((a, b), (b, a)):
            if self.strict(x, y):
                return DIFFERENT
        seqs = ('list', 'tuple', 'dict', 'strcat', 'comp')
        for x, y in ((a, b), (b, a)):
            if x[0] == 'call' and x[1] in ('map', 'filter') and y[0] in ('comp', 'cat', 'list'):
                return MAYBE
            if x == ('const', None) and y[0] in ('meth', 'call', 'new', 'sub', 'band', 'bor', 'not', 'any', 'all', 'eq', 'lt', 'le', 'is') or \
                    x == ('const', None) and y[0] == 'res' and not self.void(y[1]):
                return DIFFERENT
            if x == ('list', ()) and y[0] == 'comp':
                return DIFFERENT
            if x[0] == 'const' and y[0] in ('meth', 'res') and y[1] in ('pop', 'get') and isinstance(y[2], tuple) and y[2][0] == 'param':
                # what the caller asks for
                return DIFFERENT
        if a[0] == 'const' and b[0] in seqs or b[0] == 'const' and a[0] in seqs:
            return DIFFERENT
        return MAYBE

    def strict(self, outer, inner):
        """outer is computed from inner by something that changes it"""
        o = outer[0]
        if o == 'not':
            return outer[1] == inner
        if o == 'call' and outer[1] in ('numpy.minimum', 'numpy.maximum', 'min', 'max') and len(outer[2]) == 2 and any(x[0] == 'const' for x in outer[2]):
            # a value clipped to constant limits
            x = [x for x in outer[2] if x[0] != 'const']
            return bool(x) and (x[0] == inner or self.strict(x[0], inner))
        if o == 'cat' and len(outer) == 3 and outer[1] == inner and outer[2][0] == 'list' and outer[2][1] and not any(x[0] == 'star' for x in outer[2][1]):
            # with further elements
            return True
        if o == 'sub' and outer[1] == inner:
            i = outer[2]
            return not (i == T.FULL or i == ('const', Ellipsis) or i == ('tuple', ()))
        if o == 'attr' and outer[1] == inner:
            return outer[2] not in ('flat', 'values', 'real', 'T', 'x')
        if o == 'call' and outer[1] in ('numpy.union1d', 'numpy.append') and inner in outer[2] and any(x[0] == 'lv' for x in outer[2] if x != inner):
            # what has been collected so far, with it
            return True
        if o in ('res', 'meth') and outer[1] == 'copy' and outer[2] is not None and unversioned(outer[2]) == unversioned(inner):
            return True
        if o == 'getdef' and outer[1] == inner:
            return outer[2] not in ('flat', 'values', 'real', 'T', 'x')
        if o == 'res' and outer[2] == inner:
            return True
        if o == 'res' and outer[2] is None and outer[1] in self.progfuncs and not outer[1].startswith('_') and isinstance(outer[3], tuple) and len(outer[3]) == 3 and \
                any(unversioned(x) == unversioned(inner) for x in outer[3][1] if isinstance(x, tuple)):
            # what a function of the package makes of it
            return True
        if o == 'comp' and len(outer) == 3 and outer[1] == inner and outer[2] and all(c[0] != T.TRUE and c[0] != T.FALSE for c in outer[2]):
            # some of its elements
            return True
        if o == 'meth' and outer[2] == inner:
            return outer[1] not in WEAK_METH
        if o == 'call' and outer[2] and inner in outer[2]:
            if outer[1] == 'numpy.array' and inner[0] in ('elem', 'sub'):
                # what an iteration yields or an index selects may well be an array
                return False
            return outer[1] in STRICT_CALL
        if o == 'sub' and outer[1][0] == 'res' and outer[2][0] == 'const' and inner[0] == 'param' and isinstance(outer[1][3], tuple) and len(outer[1][3]) == 3 and inner in outer[1][3][1]:
            # a component of what an optimiser made of it
            return True
        if o == 'elem':
            return outer[1] == inner or outer[1][0] == 'chain' and outer[1][1] == inner
        return False

    def clamp(self, x):
        """a function of its arguments that is not a polynomial"""
        return x[0] == 'call' and (x[1] == 'len' and x[2][0][0] == 'sub' and x[2][0][2][0] == 'slice' or x[1] in ('numpy.minimum', 'numpy.maximum', 'min', 'max', 'numpy.abs'))

    def plain(self, x):
        """a name, an attribute, or the length of one"""
        return self.simple(x) or x[0] == 'call' and x[1] in ('len', 'numpy.size') and len(x[2]) == 1 and self.simple(x[2][0])

    # ---------------------------------------------------------------- arithmetic
    def atoms(self, t, out):
        o = t[0]
        if T.is_num(t):
            return out
        if o == 'lin':
            for k, _ in t[1]:
                self.atoms(k, out)
        elif o == 'mul':
            for k in t[1]:
                self.atoms(k, out)
        elif o == 'poly':
            for m, _ in t[1]:
                for k, _ in m:
                    out.add(k)
        elif o == 'rat':
            for q in t[1:]:
                for m, _ in q:
                    for k, _ in m:
                        out.add(k)
        else:
            out.add(t)
        return out

    def signed(self, t):
        """a product with an odd power of something that may have either sign"""
        if t[0] == 'poly':
            q = t[1]
        elif t[0] == 'rat':
            q = t[1]
        else:
            return False
        if len(q) != 1 or not isinstance(q[0], tuple) or not isinstance(q[0][0], tuple):
            return False
        return any(isinstance(e, int) and e % 2 and k[0] in ('param', 'lv', 'res', 'attr') for k, e in q[0][0])

    def arith(self, a, b, d):
        for x, y in ((a, b), (b, a)):
            if x[0] == 'call' and x[1] == 'numpy.abs' and self.signed(y):
                return DIFFERENT
        A, B = self.atoms(a, set()), self.atoms(b, set())
        xa, xb = A - B, B - A
        if not xa and not xb:
            return DIFFERENT
        if len(xa) == len(xb) == 1:
            x, y = next(iter(xa)), next(iter(xb))
            r = self.t(x, y, d)
            if r == MAYBE:
                return MAYBE
            if x[0] == 'call' and x[1] in TRANSC or y[0] == 'call' and y[1] in TRANSC:
                # only when nothing else changed
                if x[0] != y[0] or x[1] != y[1] and not (x[0] == 'call' and x[2:] == y[2:] and distinct_calls(x[1], y[1])) or T.subst(a, lambda t: ('const', 'hole') if t == x else None) != T.subst(b, lambda t: ('const', 'hole') if t == y else None):
                    return MAYBE
            return r
        if not xa or not xb:
            if any(x[0] in ('call', 'meth') for x in xa | xb) and A & B:
                return DIFFERENT
        if self.piecewise and xa and xb:
            for p, q in ((xa, xb), (xb, xa)):
                if all(self.clamp(x) for x in p) and all(self.simple(x) or x[0] == 'call' and x[1] == 'len' and self.simple(x[2][0]) for x in q):
                    return DIFFERENT
        if any(x[0] == 'call' for x in xa | xb):
            # the same function of other things, next to values it does not depend on
            cx, cy = [x for x in xa if not self.plain(x)], [x for x in xb if not self.plain(x)]
            if len(cx) == len(cy) == 1 and cx[0][0] == cy[0][0] == 'call' and cx[0][1] == cy[0][1] and self.t(cx[0], cy[0], d) == DIFFERENT and \
                    cx[0][1] in ('numpy.argmin', 'numpy.argmax', 'len', 'numpy.sum'):
                return DIFFERENT
            return MAYBE
        if not xa or not xb:
            return DIFFERENT if all(self.simple(x) or x[0] in ('res', 'sub') for x in xa | xb) else MAYBE
        for x in xa:
            for y in xb:
                if self.t(x, y, d) == MAYBE:
                    return MAYBE
        return DIFFERENT
