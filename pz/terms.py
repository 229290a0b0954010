"""Value-number terms (tuples) and their normal forms.

A term names the value an expression denotes on one path.  Constructors below apply a
fixed, terminating set of rewrite rules, so that differently written expressions of the
same value get the same term (value numbering); nothing is ever executed.
"""
NONE = ('const', None)
TRUE = ('const', True)
FALSE = ('const', False)
FULL = ('FULL',)


def const(v):
    return ('const', v)


def is_const(t, v=Ellipsis):
    return t[0] == 'const' and (v is Ellipsis or (t[1] == v and type(t[1]) is type(v)))


def key(t):
    return repr(t)


def is_num(t):
    return t[0] == 'const' and isinstance(t[1], (int, float)) and not isinstance(t[1], bool)


_SEQ = ('tuple', 'list', 'comp', 'cat', 'dict', 'fstr')


def is_seq(t):
    return t[0] in _SEQ or (t[0] == 'const' and isinstance(t[1], (str, bytes, tuple)))


# ---------------------------------------------------------------- linear arithmetic
def lin_parts(t):
    """-> (dict term->coef, const)"""
    if is_num(t):
        return {}, t[1]
    if t[0] == 'lin':
        return dict(t[1]), t[2]
    return {t: 1}, 0


def lin(d, c):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return const(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return ('lin', tuple(sorted(d.items(), key=lambda kv: key(kv[0]))), c)


def add(a, b, sb=1):
    d1, c1 = lin_parts(a)
    d2, c2 = lin_parts(b)
    d = dict(d1)
    for k, v in d2.items():
        d[k] = d.get(k, 0) + sb * v
    return lin(d, c1 + sb * c2)


def sub(a, b):
    return add(a, b, -1)


def neg(a):
    return sub(const(0), a)


def mul(a, b):
    if is_num(a) and is_num(b):
        return const(a[1] * b[1])
    if is_num(b):
        a, b = b, a
    if is_num(a):
        d, c = lin_parts(b)
        return lin({k: v * a[1] for k, v in d.items()}, c * a[1])
    if is_boolish(a) and is_boolish(b):
        return band(a, b)
    xs = []
    for t in (a, b):
        xs.extend(t[1] if t[0] == 'mul' else [t])
    # pull numeric coefficients out of linear factors with one term
    coef = 1
    ys = []
    for t in xs:
        if t[0] == 'lin' and t[2] == 0 and len(t[1]) == 1:
            coef *= t[1][0][1]
            t = t[1][0][0]
            if t[0] == 'mul':
                ys.extend(t[1])
                continue
        ys.append(t)
    r = ('mul', tuple(sorted(ys, key=key)))
    return r if coef == 1 else lin({r: coef}, 0)


def is_boolish(t):
    return t[0] in ('lt', 'le', 'eq', 'is', 'in', 'not', 'band', 'bor', 'hasattr', 'isinstance', 'truth', 'pos', 'any', 'all') or is_const(t, True) or is_const(t, False)


def band(*ts):
    return _bool('band', ts)


def bor(*ts):
    return _bool('bor', ts)


def _bool(op, ts):
    xs = set()
    for t in ts:
        if t[0] == op:
            xs.update(t[1])
        else:
            xs.add(t)
    # x or (not x and y) = x or y
    other = 'band' if op == 'bor' else 'bor'
    for t in [t for t in xs if t[0] == other]:
        rest = [y for y in t[1] if nott(y) not in xs]
        if len(rest) < len(t[1]):
            xs.discard(t)
            return _bool(op, tuple(xs) + ((_bool(other, rest) if rest else const(op == 'band')),))
    if len(xs) == 1:
        return xs.pop()
    return (op, tuple(sorted(xs, key=key)))


def nott(t):
    if t[0] == 'not':
        return t[1]
    if t[0] == 'const':
        return const(not t[1])
    return ('not', t)


def bnot(t):
    """elementwise / bitwise inversion"""
    return nott(t)


# ---------------------------------------------------------------- comparisons
def pos(t):
    """the count t is > 0"""
    if t[0] == 'call' and t[1] == 'len' and len(t[2]) == 1:
        return ('truth', t[2][0])
    return ('pos', t)


def is_count(t):
    return (t[0] == 'call' and t[1] in ('len',)) or (t[0] == 'attr' and t[2] == 'size') or \
        (t[0] == 'call' and t[1] in ('numpy.size',))


INTS = set()    # attributes which hold nothing but integers, by their stores


def is_int(t):
    o = t[0]
    if o == 'const':
        return isinstance(t[1], int) and not isinstance(t[1], bool)
    if o == 'attr':
        return t[2] in INTS
    return o == 'elem' and len(t) == 2 and t[1][0] == 'range' or o == 'idx' or is_count(t)


def _ints(a, b):
    """a < b of integers; a constant stands on the right"""
    if a[0] == 'const':
        return nott(_ints(b, const(a[1] + 1)))
    if b[0] == 'const' and a[0] == 'elem' and a[1][0] == 'range' and is_num(a[1][1]) and is_num(a[1][3]) and a[1][3][1] > 0 and b[1] <= a[1][1][1]:
        return const(False)
    return ('lt', a, b)


def lt(a, b):
    if is_num(a) and is_num(b):
        return const(a[1] < b[1])
    if is_const(a, 0) and is_count(b):
        return pos(b)
    if is_count(a) and is_const(b, 1):
        return nott(pos(a))
    if is_int(a) and is_int(b):
        return _ints(a, b)
    return ('lt', a, b)


def le(a, b):
    if is_num(a) and is_num(b):
        return const(a[1] <= b[1])
    if is_const(a, 1) and is_count(b):
        return pos(b)
    if is_count(a) and is_const(b, 0):
        return nott(pos(a))
    if is_int(a) and is_int(b):
        return nott(_ints(b, a))
    return ('le', a, b)


def eq(a, b):
    if a[0] == 'const' and b[0] == 'const':
        try:
            return const(a[1] == b[1])
        except Exception:
            pass
    if is_count(a) and is_const(b, 0):
        return nott(pos(a))
    if is_count(b) and is_const(a, 0):
        return nott(pos(b))
    for x, y in ((a, b), (b, a)):
        if x[0] == 'elem' and len(x) == 2 and x[1][0] == 'range' and is_num(x[1][1]) and y == x[1][1] and is_num(x[1][3]) and x[1][3][1] > 0:
            return _ints(x, const(y[1] + 1))
    if is_const(b, True) and is_boolish(a):
        return a
    if is_const(b, False) and is_boolish(a):
        return nott(a)
    return ('eq',) + tuple(sorted((a, b), key=key))


_NN = frozenset(('new', 'tuple', 'list', 'dict', 'comp', 'closure', 'lambda', 'fstr', 'strcat', 'lin', 'mul', 'func', 'class', 'not', 'lt', 'le', 'eq', 'is', 'in',
                 'band', 'bor', 'sum', 'any', 'all', 'cat', 'set', 'truth', 'pos', 'poly', 'rat'))


def notnone(x):
    return x[0] in _NN or is_seq(x) or (x[0] == 'call' and (x[1].startswith('numpy.') or x[1] in ('len', 'str', 'int', 'float', 'list', 'tuple', 'sum', 'repr', 'sorted'))) or \
        (x[0] == 'meth' and x[1] in ('astype', 'copy', 'flatten', 'ravel', 'view', 'format', 'join', 'strip', 'split', 'replace', 'lower', 'upper', 'sum'))


def iss(a, b):
    if a == b:
        return TRUE
    if a[0] == 'const' and b[0] == 'const':
        return const(a[1] is b[1] or (type(a[1]) is type(b[1]) and a[1] == b[1]))
    if (a == NONE and notnone(b)) or (b == NONE and notnone(a)):
        return FALSE
    return ('is',) + tuple(sorted((a, b), key=key))


def inn(a, b):
    return ('in', a, b)


# ---------------------------------------------------------------- traversal helpers
def walk(t):
    stack = [t]
    seen = set()        # the same object is visited once: terms share much of their structure
    while stack:
        x = stack.pop()
        if not isinstance(x, tuple) or not x or id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        for c in x:
            if isinstance(c, tuple):
                stack.append(c)


def ops(t):
    return {x[0] for x in walk(t) if x and isinstance(x[0], str)}


def contains(t, s):
    return any(x == s for x in walk(t))


def subst(t, f):
    """bottom-up rewriting of every subterm by f"""
    memo = {}

    def go(t):
        if not t:
            return t
        m = memo.get(id(t))
        if m is None:
            n = tuple([go(c) if isinstance(c, tuple) else c for c in t])
            if all([a is b for a, b in zip(n, t)]):
                n = t
            r = f(n)
            m = memo[id(t)] = (n if r is None else r, t)
        return m[0]
    return go(t) if isinstance(t, tuple) else t


def strip_versions(t):
    """forget the read versions of attributes"""
    if not isinstance(t, tuple):
        return t
    if len(t) == 4 and t[0] == 'attr':
        return ('attr', strip_versions(t[1]), t[2], 0)
    if len(t) == 5 and t[0] == 'res':
        return ('res', t[1], strip_versions(t[2]), strip_versions(t[3]), 0)
    return tuple(strip_versions(c) for c in t)


def attr(o, n, v=0):
    return ('attr', o, n, v)


def show(t, d=0):
    """human readable rendering of a term"""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if d > 8:
        return '...'
    o = t[0]
    s = lambda x: show(x, d + 1)
    if o == 'const':
        return repr(t[1])
    if o == 'param':
        return t[1]
    if o == 'attr':
        return '%s.%s' % (s(t[1]), t[2])
    if o == 'sub':
        return '%s[%s]' % (s(t[1]), s(t[2]))
    if o == 'FULL':
        return ':'
    if o == 'slice':
        return ':'.join('' if x == NONE else s(x) for x in t[1:3])
    if o == 'lin':
        return '(' + ' + '.join((s(k) if v == 1 else '%s*%s' % (v, s(k))) for k, v in t[1]) + ((' + %s' % t[2]) if t[2] else '') + ')'
    if o == 'mul':
        return '*'.join(s(x) for x in t[1])
    if o in ('band', 'bor'):
        return '(' + (' & ' if o == 'band' else ' | ').join(s(x) for x in t[1]) + ')'
    if o == 'not':
        return 'not ' + s(t[1])
    if o in ('lt', 'le', 'eq', 'is', 'in'):
        return '%s %s %s' % (s(t[1]), {'lt': '<', 'le': '<=', 'eq': '=='}.get(o, o), s(t[2]))
    if o == 'pos':
        return '%s > 0' % s(t[1])
    if o == 'elem':
        return 'each(%s)' % s(t[1])
    if o == 'call':
        return '%s(%s)' % (t[1], ', '.join(s(x) for x in t[2]))
    if o == 'meth':
        return '%s.%s(%s)' % (s(t[2]), t[1], ', '.join(s(x) for x in t[3]))
    if o == 'res':
        return '%s.%s(%s)' % (s(t[2]) if t[2] else '', t[1], ', '.join(s(x) for x in t[3]))
    if o in ('tuple', 'list'):
        return '(%s)' % ', '.join(s(x) for x in t[1])
    if o in ('global', 'func', 'class'):
        return str(t[1])
    if o == 'new':
        return '%s(%s)' % (t[1], ', '.join(s(x) for x in t[2]))
    return '%s<%s>' % (o, ', '.join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:]))
