"""Rules stated directly over the source (no reference model needed)."""
import ast

from . import refine as R
from . import terms as T
from .engine import Analysis, TooComplex


def _paths(prog, cls, name, **cfg):
    an = Analysis(prog, **cfg)
    return an, an.paths(cls, name)


# ------------------------------------------------------------------------------------------------ C17
def view_observers(rf):
    """An array made from another one (a view) must not take over its observer list: the cache recognises its inputs by
    identity, so a view that shares the list is never registered itself and a change of it is not recognised."""
    from .checks import Finding, Outcome
    P = rf.P
    name = 'rule view_observers ObsAr.__array_finalize__'
    try:
        an, ps = _paths(P, 'ObsAr', '__array_finalize__', forks=frozenset())
    except TooComplex as e:
        return [Outcome(name, R.UNKNOWN, str(e))]
    f = P.find(P.classes['ObsAr'], '__array_finalize__')
    w = '%s:%d' % (P.rel(f), f.node.lineno)
    bad, seen = [], False
    obj = ('param', 'obj')
    for p in ps:
        for e in p.events:
            if e.kind == 'store' and e.name == 'observers':
                seen = True
                v = e.val
                if v is not None and v[0] in ('attr', 'getdef') and any(x[:2] == obj for x in T.walk(v) if isinstance(x, tuple)):
                    bad.append(e)
    if bad:
        return [Outcome(name, R.DIFF, findings=[Finding('view_observers', bad[0].where() or w,
                        'a view takes over the observer list of the array it was made from, which the cache takes for its own registration',
                        'view_observers ObsAr.__array_finalize__')], paths=len(ps), where=w)]
    return [Outcome(name, R.EQUAL if seen else R.UNKNOWN, paths=len(ps), where=w)]


# ------------------------------------------------------------------------------------------------ C19
def restored_parts(rf):
    """The state of a part must not lead to the whole while restoring the whole reads its parts: a part that is pickled by
    itself would be read before it has its own state."""
    from .checks import Finding, Outcome
    P = rf.P
    name = 'rule restored_parts Pickleable.__getstate__'
    try:
        an, ps = _paths(P, 'Pickleable', '__getstate__', forks=frozenset())
        an2, qs = _paths(P, 'Parameterized', '__setstate__', forks=frozenset())
    except (TooComplex, KeyError) as e:
        return [Outcome(name, R.UNKNOWN, str(e))]
    f = P.find(P.classes['Pickleable'], '__getstate__')
    w = '%s:%d' % (P.rel(f), f.node.lineno)
    names = {n.value for n in ast.walk(f.node) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
    g = P.find(P.classes['Parameterized'], '__setstate__')
    reads = any(isinstance(n, ast.Attribute) and n.attr == '_connect_parameters' for n in ast.walk(g.node))
    if '_param_array_' not in names or not reads:
        return [Outcome(name, R.UNKNOWN, 'another way of leaving out attributes', where=w)]
    if '_parent_' in names:
        return [Outcome(name, R.EQUAL, paths=len(ps) + len(qs), where=w)]
    return [Outcome(name, R.DIFF, findings=[Finding('restored_parts', w, 'the state of a part holds its parent, and restoring the parent (Parameterized.__setstate__ -> '
                    '_connect_parameters) reads the part, which has no state yet', 'restored_parts Pickleable.__getstate__')], paths=len(ps) + len(qs), where=w)]


# ------------------------------------------------------------------------------------------------ C23, C24
# class -> (domain of the model parameter, points of the optimiser's space at which the formulas are compared)
WIDE = (-30., -10., -3., -1., -.25, .125, .3, 1., 2., 5., 12., 30.)
TRANSFORMS = {
    'Logexp': ((0., None), WIDE + (34., 35., 37.5, 60., 500.)),
    'Exponent': ((0., None), WIDE),
    'NegativeLogexp': ((None, 0.), WIDE + (34., 35., 37.5, 60., 500.)),
    'NegativeExponent': ((None, 0.), WIDE),
    'Square': ((0., None), tuple(x for x in WIDE if x > 0) + (.01, 300.)),
    'Logistic': (('lower', 'upper'), (-12., -5., -2., -.5, -.01, .7, 2., 5., 12.)),
}
BOUNDS = ((0., 1.), (-2., 3.), (5., 5.5), (-1000., 10000.), (-8., -7.))
# boxes that cover all finite numbers
CUTS = (-1.7e308, -1e150, -1e10, -1000., -709., -300., -100., -37., -36., -30., -10., -1., -1e-3, 0., 1e-3, 1., 10., 30., 36., 37., 100., 300., 709., 1000., 1e10, 1e150, 1.7e308)


class Transform(object):
    """the formulas of one transformation, for one choice of its bounds"""
    def __init__(self, rf, cls, bounds=None):
        from . import interval as I
        self.I, self.rf, self.cls, self.bounds = I, rf, cls, bounds
        self.cache = rf.__dict__.setdefault('_formulas', {})
        self.attrs = {}
        if bounds is not None:
            self.init_attrs()

    def consts(self, name):
        m, _, n = name.rpartition('.')
        mod = self.rf.P.mods.get(m)
        if mod is None or n not in mod.consts or n in mod.multi:
            return None
        return self.rf.value(self.rf.P, mod, mod.consts[n])

    def formula(self, name):
        k = (self.cls, name)
        if k not in self.cache:
            try:
                self.cache[k] = self.I.Formula(self.rf.P, self.cls, name, self.consts)
            except (self.I.GiveUp, TooComplex, RecursionError) as e:
                self.cache[k] = self.I.GiveUp('%s' % e)
        r = self.cache[k]
        if isinstance(r, self.I.GiveUp):
            raise r
        return r

    def init_attrs(self):
        I = self.I
        f = self.formula('__init__')
        env = dict(zip(f.params, [I.Iv(x) for x in self.bounds]))
        got = []
        for p in f.paths:
            e = I.Eval(self.rf.P, env, {}, self.consts)
            if any(v not in I.boolean(e(t)) for t, v in p.g.items()):
                continue
            if p.exit != 'return':
                raise I.GiveUp('the bounds are refused')
            a = {}
            for ev in p.ev:
                k = ev.key
                if k[0] == 'store' and k[2] == ('param', 'self'):
                    e2 = I.Eval(self.rf.P, env, dict(a), self.consts)
                    a[k[1]] = e2(k[3])
                elif k[0] != 'ext':
                    raise I.GiveUp('effect %s of the constructor' % k[0])
            got.append(a)
        if len(got) != 1:
            raise I.GiveUp('the constructor has %d outcomes' % len(got))
        self.attrs = got[0]

    def __call__(self, name, *args):
        r = self.formula(name)(args, self.attrs)
        if r is None:
            raise self.I.Undefined('%s raises' % name)
        return r

    def where(self, name):
        f = self.formula(name).f
        return '%s:%d' % (self.rf.P.rel(f), f.node.lineno)

    def label(self):
        return self.cls + ('(%g, %g)' % self.bounds if self.bounds else '')


def transforms(rf):
    """(Transform or None, class, domain, points, reason)"""
    from . import interval as I
    for cls, (dom, pts) in TRANSFORMS.items():
        if cls not in rf.P.classes:
            continue
        if getattr(rf, 'dense', 0):
            # between two neighbours of the table
            xs = sorted(set(pts))
            pts = sorted(set(xs) | {a + (b - a) * k / (rf.dense + 1.) for a, b in zip(xs, xs[1:]) for k in range(1, rf.dense + 1)})
        if dom == ('lower', 'upper'):
            for b in BOUNDS:
                try:
                    yield Transform(rf, cls, b), cls, b, pts, None
                except (I.GiveUp, I.Undefined) as e:
                    yield None, cls, b, pts, '%s' % e
        else:
            yield Transform(rf, cls), cls, dom, pts, None


def _tol(x):
    return 1e-6 * (1 + abs(x))


def transform_range(rf):
    """f and initialize map every finite number into the domain of the transformation.  Alarm: a box whose image lies outside
    of the domain, or is certainly infinite or not a number."""
    from . import interval as I
    from .checks import Finding, Outcome
    out = []
    for t, cls, (lo, hi), pts, why in transforms(rf):
        for name in ('f', 'initialize'):
            ob = 'rule transform_range %s.%s' % (t.label() if t else '%s%r' % (cls, (lo, hi)), name)
            if t is None:
                out.append(Outcome(ob, R.UNKNOWN, why))
                continue
            proved = tried = 0
            bad, note = None, ''
            try:
                w = t.where(name)
                cuts = list(CUTS)
                if cls == 'Square' and name == 'f':
                    cuts = [c for c in cuts if abs(c) <= 1e150]       # beyond, x ** 2 is infinite
                cuts = sorted(set(cuts) | {b for b in (lo, hi) if b is not None})
                # points
                for x in sorted(set(cuts) | set(pts) | {-p for p in pts}):
                    try:
                        v = t(name, I.Iv(x))
                    except I.Undefined as e:
                        bad = bad or (x, 'is undefined (%s)' % e)
                        continue
                    if lo is not None and v.hi < lo - 1e-9 * (1 + abs(lo)) or hi is not None and v.lo > hi + 1e-9 * (1 + abs(hi)):
                        bad = bad or (x, 'is in %r, outside of the domain' % v)
                    elif v.lo == I.INF or v.hi == -I.INF:
                        bad = bad or (x, 'is infinite')
                # boxes
                todo = [(a, b, 0) for a, b in zip(cuts, cuts[1:])]
                while todo and not bad:
                    a, b, d = todo.pop()
                    try:
                        v = t(name, I.Iv(a, b))
                        ok = (lo is None or v.lo >= lo - 1e-9 * (1 + abs(lo))) and (hi is None or v.hi <= hi + 1e-9 * (1 + abs(hi)))
                        off = lo is not None and v.hi < lo - 1e-9 * (1 + abs(lo)) or hi is not None and v.lo > hi + 1e-9 * (1 + abs(hi))
                    except (I.GiveUp, I.Undefined):
                        ok = off = False
                    if off:
                        bad = ((a, b), 'is in %r, outside of the domain' % v)
                    elif ok:
                        proved += 1
                    elif d < 90 and a < (a + b) / 2 < b:
                        m = (a + b) / 2 if a * b > 0 or abs(b - a) < 1 else 0.0 if a < 0 < b else (a + b) / 2
                        todo += [(a, m, d + 1), (m, b, d + 1)]
                    else:
                        tried += 1
                    if proved + tried > 4000:
                        break
                note = '%d boxes proved%s' % (proved, ', %d open' % (tried + len(todo)) if tried or todo else '')
            except I.GiveUp as e:
                out.append(Outcome(ob, R.UNKNOWN, '%s' % e))
                continue
            if bad:
                out.append(Outcome(ob, R.DIFF, note, [Finding('transform_range', w, '%s.%s(%s) %s [%s, %s]' % (t.label(), name, bad[0], bad[1], lo, hi),
                                                              'transform_range %s.%s' % (cls, name))], proved, w))
            elif tried or todo:
                out.append(Outcome(ob, R.UNKNOWN, note, paths=proved, where=w))
            else:
                out.append(Outcome(ob, R.EQUAL, note, paths=proved, where=w))
    return out


def transform_calculus(rf):
    """finv inverts f, gradfactor is f' times the incoming gradient, log_jacobian is log |f'| and log_jacobian_grad its
    derivative, each as a function of the model parameter.  Alarm: enclosures of the two sides that are disjoint."""
    from . import interval as I
    from .checks import Finding, Outcome
    out = []

    def same(v, lo, hi):
        """may the value in v be one of [lo, hi]?"""
        return v.hi >= lo - _tol(lo) and v.lo <= hi + _tol(hi)

    for t, cls, dom, pts, why in transforms(rf):
        def inverse(x):
            y = t('f', I.Iv(x, x, 1.0))
            v = t('finv', I.Iv(y.lo, y.hi))
            return same(v, x, x), 'finv(f(%g)) is in %r' % (x, v)

        def gradient(x):
            y = t('f', I.Iv(x, x, 1.0))
            for df in (1.0, -2.5):
                v = t('gradfactor', I.Iv(y.lo, y.hi), I.Iv(df))
                d = I.mul(y.der(), I.Iv(df))
                if not same(v, d.lo, d.hi):
                    return False, 'gradfactor(f(%g), %g) is in %r, the derivative of f times that in %r' % (x, df, v, d)
            return True, ''

        def natural(x):
            y = t('f', I.Iv(x, x, 1.0))
            for df in (1.0, -2.5):
                v = t('gradfactor_non_natural', I.Iv(y.lo, y.hi), I.Iv(df))
                d = I.mul(y.der(), I.Iv(df))
                if not same(v, d.lo, d.hi):
                    return False, 'gradfactor_non_natural(f(%g), %g) is in %r, the derivative of f times that in %r' % (x, df, v, d)
            return True, ''

        def jacobian(x):
            y = t('f', I.Iv(x, x, 1.0))
            v = t('log_jacobian', I.Iv(y.lo, y.hi))
            d = I.mono(I.vabs(y.der()), I.LOG)
            return same(v, d.lo, d.hi), 'log_jacobian(f(%g)) is in %r, the log of the derivative of f in %r' % (x, v, d)

        def jacgrad(x):
            y = t('f', I.Iv(x, x, 1.0))
            v = t('log_jacobian', I.Iv(y.lo, y.hi, 1.0))
            g = t('log_jacobian_grad', I.Iv(y.lo, y.hi))
            d = v.der()
            return same(g, d.lo, d.hi), 'log_jacobian_grad(f(%g)) is in %r, the derivative of log_jacobian in %r' % (x, g, d)
        todo = [('finv', inverse), ('gradfactor', gradient), ('gradfactor_non_natural', natural)]
        c = rf.P.cls(cls)
        lj = rf.P.find(c, 'log_jacobian')
        if cls in ('Logexp', 'Exponent', 'NegativeExponent'):
            todo += [('log_jacobian', jacobian), ('log_jacobian_grad', jacgrad)]
        for name, fn in todo:
            ob = 'rule transform_calculus %s.%s' % (t.label() if t else '%s%r' % (cls, dom), name)
            if t is None:
                out.append(Outcome(ob, R.UNKNOWN, why))
                continue
            bad, n = None, 0
            try:
                w = t.where(name)
                for x in pts:
                    try:
                        ok, text = fn(x)
                    except I.Undefined as e:
                        ok, text = False, '%s at f(%g) is undefined (%s)' % (name, x, e)
                    if not ok:
                        bad = bad or text
                    n += 1
            except I.GiveUp as e:
                out.append(Outcome(ob, R.UNKNOWN, '%s' % e))
                continue
            if bad:
                out.append(Outcome(ob, R.DIFF, '', [Finding('transform_calculus', w, '%s: %s' % (t.label(), bad), 'transform_calculus %s.%s' % (cls, name))], n, w))
            else:
                out.append(Outcome(ob, R.EQUAL, 'enclosures meet at %d points' % n, paths=n, where=w))
    return out
