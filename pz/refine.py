"""Refinement of a reference contract by value-numbered path summaries.

Both the contract (a reference model of the intended behaviour, /verif/contract, parsed but
never executed) and the package under analysis are abstracted by the same dataflow analysis
(engine.Analysis).  A function refines its contract when every pair of compatible paths -
paths whose branch literals do not contradict each other - has the same effects (calls,
stores, item writes, with their value-numbered operands and the loops they happen in), in
the same order wherever two effects do not commute, and the same outcome.
"""
import ast
import copy
from collections import Counter
import hashlib

from . import terms as T
from .diff import Differ, FAMILIES, LVS, SAME, DIFFERENT, MAYBE
from .engine import Analysis, BASELINE, Path, St, TooComplex, MUT_METH, PURE_METH, PURE_BUILTIN
from .src import Func, Program
from .terms import NONE, TRUE, FALSE, const

ARRAYISH = frozenset('values gradient param_array gradient_full _param_array_ _gradient_array_ optimizer_array full_gradient x x_opt'.split())

METH2CALL = frozenset('sum any all min max mean dot cumsum cumprod argmin argmax ravel reshape nonzero transpose clip round repeat prod std squeeze'.split())


# ------------------------------------------------------------------------------ names
def program_names(prog):
    out = set(prog.by_method) | set(prog.by_prop) | set(prog.classes)
    for m in prog.mods.values():
        out.update(m.funcs)
        for c in m.classes.values():
            out.update(c.setters)
    return out


def vocabulary(prog):
    """every identifier (attribute, name, keyword, argument) in the program"""
    c = prog.__dict__.get('_vocab')
    if c is None:
        c = set()
        for m in prog.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute):
                    c.add(n.attr)
                elif isinstance(n, ast.Name):
                    c.add(n.id)
                elif isinstance(n, ast.arg):
                    c.add(n.arg)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    c.add(n.name)
                elif isinstance(n, ast.keyword) and n.arg:
                    c.add(n.arg)
                elif isinstance(n, ast.alias):
                    c.update(n.name.split('.'))
                elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                    c.add(n.value)
        prog._vocab = c
    return c


def stored_names(prog):
    c = prog.__dict__.get('_storednames')
    if c is None:
        c = set()
        for m in prog.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    c.add(n.attr)
            for k in m.classes.values():
                c.update(k.attrs)
        prog._storednames = c
    return c


def rebound(prog):
    """attributes that are given a new list while the object is in use"""
    c = prog.__dict__.get('_rebound')
    if c is None:
        c = set()
        for m in prog.mods.values():
            for f in ast.walk(m.tree):
                if isinstance(f, ast.FunctionDef) and not f.name.startswith('__'):
                    for n in ast.walk(f):
                        if isinstance(n, ast.Assign) and isinstance(n.value, (ast.List, ast.ListComp, ast.Call)):
                            c.update(t.attr for t in n.targets if isinstance(t, ast.Attribute))
        prog._rebound = c
    return c


# extension points that run code of the user
HOOKS = frozenset(('parameters_changed', 'objective_function', 'objective_function_gradients', 'notify_observers'))
# names shared by unrelated functions, which do not all reach an extension point
GENERIC = frozenset('update copy add run opt f finv gradfactor initialize _parent_changed g visit remove __deepcopy__ items size clear __init__ __call__ __setitem__ __getitem__ __setattr__'.split())


def rwsets(prog):
    """name -> (reads, writes) of attribute names, transitively by name"""
    c = prog.__dict__.get('_rw')
    if c is not None:
        return c
    rd, wr, calls = {}, {}, {}
    for m in prog.mods.values():
        for node in ast.walk(m.tree):
            if isinstance(node, ast.FunctionDef):
                r, w, k = rd.setdefault(node.name, set()), wr.setdefault(node.name, set()), calls.setdefault(node.name, set())
                for x in ast.walk(node):
                    if isinstance(x, ast.Attribute):
                        if isinstance(x.ctx, ast.Load):
                            r.add(x.attr)
                            k.add(x.attr)
                        else:
                            w.add(x.attr)
                            k.add(x.attr)
                    elif isinstance(x, ast.Name):
                        k.add(x.id)
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUT_METH and isinstance(x.func.value, ast.Attribute):
                        w.add(x.func.value.attr)
                    if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Attribute):
                        w.add(x.value.attr)
    for h in HOOKS:
        if h in rd:
            rd[h].add('*')
            wr[h].add('*')
    ch = True
    while ch:
        ch = False
        for f in rd:
            for k in calls[f]:
                if k in rd and k != f:
                    if '*' in rd[k] and (f in GENERIC or k in GENERIC):
                        continue
                    if not rd[k] <= rd[f]:
                        rd[f] |= rd[k]
                        ch = True
                    if not wr[k] <= wr[f]:
                        wr[f] |= wr[k]
                        ch = True
    c = {f: (frozenset(rd[f]), frozenset(wr[f])) for f in rd}
    prog._rw = c
    return c


# ------------------------------------------------------------------------------ canonical terms
class Canon(object):
    def __init__(self, an, prog, pmap, lvmap=None):
        self.an, self.prog, self.pmap = an, prog, pmap
        self.memo = {}
        self.depth = 0
        self.sigs = {}
        self.cands = {}                 # name -> all the signatures functions of that name have
        self.digests = {}
        self.lvmap = lvmap or {}
        self.steps = {}
        self.ranks = {}                 # id of a call -> how often its value may have changed before on its path
        self.unknown = False

    def sig(self, name):
        """common parameter list of all functions of that name: [(param, default)] or None"""
        if name in self.sigs:
            return self.sigs[name]
        fs = list(self.prog.by_method.get(name, ()))
        if not fs:
            for m in self.prog.mods.values():
                if name in m.funcs:
                    fs.append(m.funcs[name])
        r = None
        sigs = set()
        for f in fs:
            a = f.node.args
            if a.vararg or a.kwonlyargs or f.kind == 'decorated':
                sigs.add(None)
                continue
            ps = [x.arg for x in a.args]
            ds = [None] * (len(ps) - len(a.defaults)) + [ast.dump(d) for d in a.defaults]
            if f.cls is not None and f.kind != 'staticmethod':
                ps, ds = ps[1:], ds[1:]
            sigs.add((tuple(zip(ps, ds)), bool(a.kwarg)))
        self.cands[name] = sigs
        if len(sigs) == 1:
            r = next(iter(sigs))
        self.sigs[name] = r
        return r

    def hooked(self):
        """attributes with a setter"""
        r = self.__dict__.get('_hooked')
        if r is None:
            r = self._hooked = frozenset(n for c in self.prog.classes.values() for n in c.setters) | ARRAYISH
        return r

    def bind_any(self, name, args, kw):
        """several functions have that name: as far as those that take these arguments agree"""
        cs = self.cands.get(name, ())
        if len(cs) < 2 or None in cs or any(a[0] == 'star' for a in args) or any(n == '**' for n, _ in kw):
            return None
        names = {n for n, _ in kw}
        cs = [c for c in cs if not c[1] and len(args) <= len(c[0]) and names <= {p for p, _ in c[0][len(args):]}]
        if not cs:
            return None
        args, kwd = list(args), dict(kw)
        while all(len(c[0]) > len(args) for c in cs) and len({c[0][len(args)][0] for c in cs}) == 1:
            p = cs[0][0][len(args)][0]
            ds = {c[0][len(args)][1] for c in cs}
            if p in kwd:
                args.append(kwd.pop(p))
            elif len(ds) == 1 and None not in ds:
                args.append(self.default(ds.pop()))
            else:
                break
        return ('raw', tuple(args), tuple(sorted(kwd.items(), key=repr)))

    def bind(self, name, args, kw):
        """arguments by parameter name with constant defaults filled in"""
        s = self.sig(name) if name else None
        kw = tuple(sorted(kw, key=repr))
        if s is not None and not s[1] and not kw and args and args[-1][0] == 'star' and not any(a[0] == 'star' for a in args[:-1]) \
                and all(d is None for _, d in s[0]) and len(args) <= len(s[0]):
            # f(*x) for a function of fixed arity
            x = args[-1][1]
            args = tuple(args[:-1]) + tuple(('sub', x, const(i)) for i in range(len(s[0]) - len(args) + 1))
        if s is None and name:
            r = self.bind_any(name, args, kw)
            if r is not None:
                return r
        if s is None or any(a[0] == 'star' for a in args) or len(args) > len(s[0]):
            return ('raw', tuple(args), kw)
        d = {}
        kwd = dict(kw)
        for (p, df), a in zip(s[0], args):
            d[p] = a
        for p, df in s[0]:
            if p in d:
                continue
            if p in kwd:
                d[p] = kwd.pop(p)
            elif df is not None and '**' not in kwd:
                d[p] = self.default(df)
        # by position, so that a renamed parameter of a private function does not matter
        return ('bound', tuple(d.get(p, ('absent',)) for p, _ in s[0]), tuple(sorted(kwd.items(), key=repr)))

    def default(self, dump):
        try:
            n = eval(dump, {k: getattr(ast, k) for k in dir(ast)})
            if isinstance(n, ast.Constant):
                return const(n.value)
        except Exception:
            pass
        return ('default', dump)

    def t(self, x):
        """canonical form of a term"""
        if not isinstance(x, tuple) or not x:
            return x
        try:
            m = self.memo.get(x)
        except TypeError:
            m = None
        if m is not None:
            return m
        r = self._t(x)
        self.memo[x] = r
        return r

    def _t(self, x):
        o = x[0]
        if o == 'const':
            if isinstance(x[1], float) and x[1] == int(x[1]) if isinstance(x[1], float) and abs(x[1]) < 1e15 else False:
                return ('const', int(x[1]))
            return x
        if o == 'param':
            return ('param', self.pmap.get(x[1], x[1]))
        if o == 'attr' and len(x) == 4:
            if x[1][0] == 'slice' and x[2] in ('start', 'stop', 'step'):
                return self.t(x[1][1 + ('start', 'stop', 'step').index(x[2])])
            return ('attr', self.t(x[1]), x[2], 1 if isinstance(x[3], int) and x[3] >= 100000 else 0)
        if o == 'getdef':
            return ('getdef', self.t(x[1]), x[2], 0, self.t(x[4]))
        if o == 'res' and x[1] == 'pop' and len(x[3]) == 1 and x[3][0][0] != 'kw' and 'pop' not in self.prog.by_method:
            return ('sub', self.t(x[2]), self.t(x[3][0]))
        if o == 'res':
            return ('res', x[1], self.t(x[2]), self.resargs(x[1], x[3]), self.ranks.get(x[4], 0))
        if o == 'meth':
            a = tuple(self.t(c) for c in x[3])
            r = self.t(x[2])
            if x[1] == 'astype' and len(a) == 1 and r[0] == 'call' and r[1] in ('numpy.ones', 'numpy.zeros') and not r[3]:
                return self.filled(r[1], (r[2][0], a[0]), ())
            if x[1] in METH2CALL:
                return ('call', 'numpy.' + x[1], (r,) + tuple(c for c in a if c[0] != 'kw'), tuple(c for c in a if c[0] == 'kw'))
            return ('meth', x[1], r, self.resargs(x[1], x[3]))
        if o == 'call':
            return self.call(x)
        if o == 'new' and len(x) == 5:
            return ('new', x[1], self.t(x[2]), self.t(x[3]), 0)
        if o in ('lv', 'lvend', 'lvref', 'lvrefend'):
            return self.lv(x)
        if o == 'closure':
            return self.closure(x)
        if o == 'ref':
            return ('ref',)
        if o == 'exc' and len(x) == 3:
            return ('exc', x[1])
        if o == 'exctype':
            return ('exctype', self.t(x[1]), x[2])
        if o == 'unknown':
            self.unknown = True
            return x
        if o in ('lin', 'mul') or (o == 'bin' and x[1] in ('Div', 'Pow', 'Mult', 'Sub', 'Add')):
            return arith(tuple(self.t(c) if isinstance(c, tuple) else c for c in x))
        if o in ('band', 'bor'):
            return (T.band if o == 'band' else T.bor)(*[self.t(c) for c in x[1]])
        if o == 'not':
            return T.nott(self.t(x[1]))
        if o == 'eq':
            return T.eq(self.t(x[1]), self.t(x[2]))
        if o in ('lt', 'le') and len(x) == 3:
            # a copy compares like what it is a copy of
            a, b = self.t(x[1]), self.t(x[2])
            return (o,) + tuple(y[2] if y[0] in ('meth', 'res') and y[1] == 'copy' and isinstance(y[2], tuple) and y[2][0] == 'param' else y for y in (a, b))
        if o == 'is':
            return T.iss(self.t(x[1]), self.t(x[2]))
        if o == 'in' and len(x) == 3 and x[2][0] in ('list', 'tuple', 'set') and len(x[2]) == 2 and all(c[0] == 'const' for c in x[2][1]):
            # the order does not matter
            return ('in', self.t(x[1]), ('tuple', tuple(sorted(set(x[2][1]), key=repr))))
        if o == 'all' and len(x) == 3 and isinstance(x[2], tuple):
            return T.nott(self.t(('any', x[1], tuple((c, T.nott(v)) for c, v in x[2]))))
        if o == 'any' and len(x) == 3 and isinstance(x[2], tuple):
            cs = [self.t(v) if c == TRUE else self.t(c) if v == TRUE else T.band(self.t(c), self.t(v)) for c, v in x[2] if v != FALSE]
            return ('any', self.t(x[1]), ((TRUE, T.bor(*cs)),)) if cs else FALSE
        if o in ('comp', 'sum', 'prefix') and len(x) == 3 and isinstance(x[2], tuple):
            cases = tuple(sorted((self.t(c) for c in x[2]), key=repr))
            it = self.t(x[1])
            if o == 'comp' and cases == ((TRUE, (('elem', it),)),) and it[0] not in ('before', 'range'):
                return ('call', 'list', (it,), ())
            return (o, it, cases)
        if o == 'sub' and len(x) == 3:
            a, i = self.t(x[1]), self.t(x[2])
            if i[0] == 'idx' and unversioned(a) == unversioned(i[1]) and (x[2][0] == 'idx' and x[1] == x[2][1] or inner_attr(a) not in rebound(self.prog)):
                return ('elem', i[1])
            return ('sub', a, i)
        if o == 'strcat':
            return self.an.mkstr([self.t(c) for c in x[1]])
        return tuple(self.t(c) if isinstance(c, tuple) else c for c in x)

    def resargs(self, name, args):
        pos = tuple(self.t(c) for c in args if not (c and c[0] == 'kw'))
        kw = tuple((c[1], self.t(c[2])) for c in args if c and c[0] == 'kw')
        return self.bind(name, pos, kw)

    def call(self, x):
        a = tuple(self.t(c) for c in x[2])
        k = tuple(sorted(self.t(c) for c in x[3])) if len(x) > 3 else ()
        n = x[1]
        if n in ('sum', 'any', 'all', 'min', 'max', 'abs') and len(a) == 1 and n == 'abs':
            n = 'numpy.abs'
        n = {'numpy.absolute': 'numpy.abs', 'numpy.product': 'numpy.prod', 'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min',
             'numpy.around': 'numpy.round', 'numpy.asanyarray': 'numpy.asarray', 'numpy.float64': 'numpy.float64',
             'numpy.matmul': 'numpy.dot', 'numpy.flatnonzero': 'numpy.flatnonzero'}.get(n, n)
        if n == 'map' and len(a) == 2 and not k and a[0] in CLOSURES:
            ps = CLOSURES[a[0]]
            if len(ps) == 1 and not ps[0].ev and not ps[0].g and ps[0].exit == 'return' and ps[0].val and not ps[0].unk:
                put = lambda v: T.subst(ps[0].val, lambda t: v if t == ('param', 'cl0') else None)
                q = a[1]
                if q[0] == 'comp' and len(q) == 3 and not any(isinstance(v, tuple) and v[:1] == ('star',) for c in q[2] for v in c[1]):
                    return ('comp', q[1], tuple((c[0], tuple(put(v) for v in c[1])) for c in q[2]))
                return ('comp', q, ((TRUE, (put(('elem', q)),)),))
        if n == 'numpy.square' and len(a) == 1:
            return arith(('mul', (a[0], a[0])))
        if n in ('numpy.power', 'pow') and len(a) == 2:
            return arith(('bin', 'Pow', a[0], a[1]))
        if n in ('numpy.divide', 'numpy.true_divide') and len(a) == 2 and not k:
            return arith(('bin', 'Div', a[0], a[1]))
        if n == 'numpy.clip' and len(a) == 3 and not k:
            return ('call', 'numpy.minimum', tuple(sorted((('call', 'numpy.maximum', tuple(sorted((a[0], a[1]), key=repr)), ()), a[2]), key=repr)), ())
        if n == 'numpy.einsum' and len(a) == 3 and a[0][0] == 'const' and a[0][1] in ('i,i->i', 'i,i->', 'i,i'):
            a = a[:1] + tuple(sorted(a[1:], key=repr))
        if n in ('numpy.ones', 'numpy.zeros', 'numpy.empty') and a:
            return self.filled(n, a, k)
        if n == 'numpy.full' and len(a) >= 2 and a[1] in (TRUE, FALSE) and (len(a) == 3 or not k or k[0][0] == 'dtype'):
            return self.filled('numpy.ones' if a[1] == TRUE else 'numpy.zeros', (a[0], a[2] if len(a) == 3 else k[0][1] if k else ('global', 'builtins.bool')), ())
        if n in ('numpy.maximum', 'numpy.minimum', 'numpy.intersect1d', 'numpy.union1d') and len(a) == 2:
            a = tuple(sorted(a, key=repr))
        return ('call', n, a, k)

    def filled(self, n, a, k):
        sh = a[0]
        if sh[0] in ('tuple', 'list') and len(sh[1]) == 1:
            sh = sh[1][0]
        if len(a) == 2:
            k = (('dtype', a[1]),)
        k = tuple((x, ('global', 'builtins.bool') if v == ('global', 'numpy.bool_') else v) for x, v in k)
        return ('call', n, (sh,), k)

    def lv(self, x):
        k = (x[1], x[2])
        info = self.an.lvinfo.get(k)
        kind = 'end' if x[0].endswith('end') else 'in'
        if info is None:
            return ('lv', kind, '?')
        if self.depth:
            return ('lv', kind, self.nest(info[0]))
        if k not in self.digests:
            self.depth += 1
            memo, self.memo = self.memo, {}
            try:
                ups = frozenset((self.t(c), self.t(v)) for c, v in info[1])
            finally:
                self.depth -= 1
                self.memo = memo
        d = self.digests.get(k)
        if d is None:
            d = self.digests[k] = hashlib.md5(repr(tuple(sorted(ups, key=repr))).encode()).hexdigest()[:10]
            LVS[d] = ups
            if k in self.an.stepped:
                # matched with the contract's variable: its changes are compared path by path
                self.steps[d] = repr(self.t(info[0]))
                d = self.digests[k] = self.lvmap.get(d, d)
        return ('lv', kind, self.t(info[0]), d)

    def nest(self, t):
        memo, self.memo = self.memo, {}
        try:
            return self.t(t) if self.depth < 3 else ('deep',)
        finally:
            self.memo = memo

    def closure(self, x):
        f, fr = self.an.closures[x]
        c = self.an.__dict__.setdefault('_clsum', {})
        st = self.an.__dict__.get('_cur')
        if st is None or x[2] not in st.envs:
            st = self.an.__dict__.get('_endst', {}).get(x[2]) or St()
        x = (x, self.seen(f, fr, st))
        if x in c:
            return c[x]
        c[x] = ('closure', 'rec')
        a = f.node.args
        names = [p.arg for p in a.args]
        pm = dict(self.pmap)
        env = {}
        for i, p in enumerate(names):
            env[p] = ('param', 'cl%d' % i)
        if a.vararg:
            env[a.vararg.arg] = ('param', 'cl*')
        if a.kwarg:
            env[a.kwarg.arg] = ('param', 'cl**')
        try:
            s = st.copy()
            s.events, s.guards, s.gmap, s.heap, s.loops, s.tries = (), (), {}, {}, (), 0
            from .engine import Frame, Path
            fid = self.an.fresh()
            s.envs = dict(s.envs)
            s.envs[fid] = env
            self.captured(f, fr, st, s)
            fr2 = Frame(fid, f, f.cls, f.mod, fr, None, None, 1, fr)
            keys, ps = [], []
            for b, sig in self.an.run_body(f, s, fr2):
                v = NONE if sig is None else self.an.deref(b, sig[1]) if sig[0] == 'ret' else sig[1]
                p = CPath(self, Path(b, 'raise' if sig and sig[0] == 'exc' else 'return', v))
                ps.append(p)
                keys.append((tuple(sorted(tuple(sorted(a, key=repr)) for a in p.gkey)), p.bkey))
            r = ('closure', tuple(sorted(keys, key=repr)))
            CLOSURES[r] = ps
        except (TooComplex, RecursionError):
            r = ('unknown', 'closure')
            self.unknown = True
        c[x] = r
        return r


    def seen(self, f, fr, st):
        """what the enclosing functions' variables stand for, as the closure reads them on this path"""
        out = []
        for n in sorted({x.id for x in ast.walk(f.node) if isinstance(x, ast.Name)}):
            g = fr
            while g is not None:
                e = st.envs.get(g.fid, {})
                if n in e:
                    out.append((n, self.an.deref(st, e[n]) if isinstance(e[n], tuple) else e[n]))
                    break
                g = g.parent
        return tuple(out)

    def captured(self, f, fr, st, s):
        """containers of the enclosing function, which the closure changes for its caller to see"""
        seen = {}
        for x in ast.walk(f.node):
            if not isinstance(x, ast.Name):
                continue
            g = fr
            while g is not None:
                e = s.envs.get(g.fid, {})
                if x.id in e:
                    v = e[x.id]
                    if v[0] == 'ref' and isinstance(st.refs.get(v[1]), tuple) and st.refs[v[1]][0] in ('list', 'dict', 'set', 'comp', 'cat'):
                        if v not in seen:
                            seen[v] = ('param', 'cap%d' % len(seen))
                        s.envs[g.fid] = dict(e)
                        s.envs[g.fid][x.id] = seen[v]
                    break
                g = g.parent

# canonical closure term -> the paths of its body
CLOSURES = {}


# ------------------------------------------------------------------------------ arithmetic normal form
def arith(t):
    """rational function over opaque atoms, in a normal form"""
    try:
        n, d = _rat(t, 0)
    except (OverflowError, ZeroDivisionError, _Big):
        return t
    return _unrat(n, d)


class _Big(Exception):
    pass


def _pmul(a, b):
    out = {}
    if len(a) * len(b) > 200:
        raise _Big()
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            d = dict(m1)
            for k, e in m2:
                d[k] = d.get(k, 0) + e
            m = tuple(sorted(((k, e) for k, e in d.items() if e), key=repr))
            out[m] = out.get(m, 0) + c1 * c2
    return {m: c for m, c in out.items() if c != 0}


def _padd(a, b):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, 0) + c
    return {m: c for m, c in out.items() if c != 0}


def _rat(t, depth):
    if depth > 12:
        raise _Big()
    o = t[0]
    if T.is_num(t):
        return ({(): t[1]} if t[1] != 0 else {}), {(): 1}
    if o == 'lin':
        n, d = ({(): t[2]} if t[2] else {}), {(): 1}
        for k, c in t[1]:
            kn, kd = _rat(k, depth + 1)
            kn = {m: v * c for m, v in kn.items()}
            if kd == d:
                n = _padd(n, kn)
            else:
                n, d = _padd(_pmul(n, kd), _pmul(kn, d)), _pmul(d, kd)
        return n, d
    if o == 'mul':
        n, d = {(): 1}, {(): 1}
        for k in t[1]:
            kn, kd = _rat(k, depth + 1)
            n, d = _pmul(n, kn), _pmul(d, kd)
        return n, d
    if o == 'poly':
        return dict(t[1]), {(): 1}
    if o == 'rat':
        return dict(t[1]), dict(t[2])
    if o == 'bin' and t[1] == 'Mult':
        return _rat(('mul', (t[2], t[3])), depth + 1)
    if o == 'bin' and t[1] == 'Div':
        an, ad = _rat(t[2], depth + 1)
        bn, bd = _rat(t[3], depth + 1)
        if not bn:
            raise ZeroDivisionError
        return _pmul(an, bd), _pmul(ad, bn)
    if o == 'bin' and t[1] == 'Pow' and T.is_num(t[3]) and isinstance(t[3][1], int) and 0 < abs(t[3][1]) <= 4:
        an, ad = _rat(t[2], depth + 1)
        n, d = {(): 1}, {(): 1}
        for _ in range(abs(t[3][1])):
            n, d = _pmul(n, an), _pmul(d, ad)
        return (n, d) if t[3][1] > 0 else (d, n)
    return {((t, 1),): 1}, {(): 1}


def _unrat(n, d):
    # cancel the common monomial
    def content(p):
        ms = [dict(m) for m in p]
        if not ms:
            return {}
        c = dict(ms[0])
        for m in ms[1:]:
            c = {k: min(e, m.get(k, 0)) for k, e in c.items() if m.get(k, 0) > 0}
        return c
    if not n:
        return const(0)
    cn, cd = content(n), content(d)
    g = {k: min(e, cd[k]) for k, e in cn.items() if k in cd}

    def strip(p):
        out = {}
        for m, c in p.items():
            mm = tuple((k, e - g.get(k, 0)) for k, e in m if e - g.get(k, 0))
            out[mm] = c
        return out
    if g:
        n, d = strip(n), strip(d)
    lead = d[sorted(d, key=repr)[0]]
    if lead != 1:
        n = {m: c / lead for m, c in n.items()}
        d = {m: c / lead for m, c in d.items()}
    if n == d:
        return const(1)

    def num(c):
        return int(c) if isinstance(c, float) and abs(c) < 1e15 and c == int(c) else (round(c, 14) if isinstance(c, float) else c)
    n = tuple(sorted(((m, num(c)) for m, c in n.items()), key=repr))
    d = tuple(sorted(((m, num(c)) for m, c in d.items()), key=repr))
    if d == (((), 1),):
        if len(n) == 1:
            m, c = n[0]
            if m == ():
                return const(c)
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return ('poly', n)
    return ('rat', n, d)


def lengths(g):
    """literals about len(x) in one literal set, as an interval"""
    iv = {}
    drop = []
    inf = float('inf')
    for t, v in g.items():
        if t[0] in ('lt', 'le', 'eq') and len(t) == 3:
            for i in (1, 2):
                x, c = t[i], t[3 - i]
                if x[0] == 'call' and x[1] == 'len' and len(x[2]) == 1 and T.is_num(c) and c[1] == int(c[1]):
                    iv.setdefault(x[2][0], []).append((t[0], i, int(c[1]), v))
                    drop.append(t)
    for t in drop:
        g.pop(t, None)
    for x, cs in iv.items():
        lo, hi = 0, inf
        tv = g.get(('truth', x))
        if tv is True:
            lo = 1
        elif tv is False:
            hi = 0
        ne = set()
        for o, i, c, v in cs:
            if o == 'eq':
                if v:
                    lo, hi = max(lo, c), min(hi, c)
                else:
                    ne.add(c)
            elif i == 1:        # len < c / len <= c
                n = c - 1 if o == 'lt' else c
                if v:
                    hi = min(hi, n)
                else:
                    lo = max(lo, n + 1)
            else:               # c < len / c <= len
                n = c + 1 if o == 'lt' else c
                if v:
                    lo = max(lo, n)
                else:
                    hi = min(hi, n - 1)
        while lo in ne:
            lo += 1
        while hi in ne:
            hi -= 1
        if lo >= 1:
            g[('truth', x)] = True
        if hi <= 0:
            g[('truth', x)] = False
        if (lo, hi) not in ((0, inf), (1, inf), (0, 0)):
            g[('lenin', x, lo, hi)] = True


# ------------------------------------------------------------------------------ canonical paths
IGNORED_EVENTS = frozenset(['break'])


class CEvent(object):
    __slots__ = ('key', 'ev', 'kind', 'name')

    def __init__(self, key, ev):
        self.key, self.ev, self.kind, self.name = key, ev, ev.kind, ev.name


class CPath(object):
    def __init__(self, cn, path):
        self.path = path
        self.ranks(cn, path.events)
        was = cn.unknown
        cn.unknown = False
        bad = set()
        base = self.lits(cn, path.guards, bad)
        self.inexact = path.alts == ()
        if path.alts:
            self.alts = []
            for a in path.alts:
                d = dict(base)
                x = self.lits(cn, a, bad)
                for t, v in x.items():
                    if t in d and d[t] != v:
                        bad.add(t)
                    d[t] = v
                self.alts.append(d)
        else:
            self.alts = [base]
        for b in bad:
            for a in self.alts:
                a.pop(b, None)
        for a in self.alts:
            lengths(a)
        self.bad = bad
        self.g = {}
        for a in self.alts:
            self.g.update(a)
        self.ev = []
        for e in path.events:
            k = self.ekey(cn, e)
            if k is not None:
                if k[0] == 'store' and k[1] not in cn.hooked():
                    # overwritten before anything can see it
                    for i in range(len(self.ev) - 1, -1, -1):
                        x = self.ev[i]
                        if x.kind != 'store' or x.name in cn.hooked() or x.key[5] != k[5]:
                            break
                        if x.name == k[1] and x.key[2] == k[2] and x.key[4] is None:
                            del self.ev[i]
                            break
                self.ev.append(CEvent(k, e))
        self.exit = path.exit
        v = path.val
        if path.exit == 'raise':
            v = cn.t(v)
            if v[0] == 'exc' and len(v) == 2:
                v = ('exc', v[1])
        elif v is not None:
            v = cn.t(v)
        self.val = v
        self.unk = bool(path.flags) or cn.unknown
        cn.unknown = was
        self.masked()
        self.gkey = frozenset(frozenset(a.items()) for a in self.alts)
        self.keys = [e.key for e in self.ev]
        self.bkey = (tuple(self.keys), self.exit, self.val)

    def masked(self):
        """y = x.copy(); y[condition on x] = c  is  y = where(condition, c, x)"""
        i = 0
        while i + 1 < len(self.ev):
            a, b = self.ev[i].key, self.ev[i + 1].key
            i += 1
            if a[0] != 'call' or a[1] != 'copy' or a[2] is None or a[2][0] != 'param' or a[2][1] == 'self' or a[3] != ('raw', (), ()) or a[4] or a[5]:
                continue
            r = ('res', 'copy', a[2], a[3], 0)
            if b[0] != 'setitem' or b[1] != r or b[4] or b[5] or len(b[2]) != 1 or b[2][0][0] not in ('lt', 'le', 'not', 'bor', 'band'):
                continue
            rest = self.ev[:i - 1] + self.ev[i + 1:]
            if any(e.key[0] == 'setitem' and e.key[1] == r or e.key[0] == 'call' and e.key[2] == r for e in rest) or \
                    any(r in T.walk(t) for a in self.alts for t in a):
                continue
            back = lambda t: a[2] if t == r else None
            w = ('call', 'numpy.where', (T.subst(b[2][0], back), T.subst(b[3], back), a[2]), ())
            fwd = lambda t: w if t == r else None
            for e in rest:
                e.key = T.subst(e.key, fwd)
            self.ev = rest
            if self.val is not None:
                self.val = T.subst(self.val, fwd)
                if not rest:
                    self.val = T.subst(self.val, lambda t: t[:3] + (0,) if t[0] == 'attr' and len(t) == 4 and t[3] else None)
            i = 0

    STATEFUL = frozenset('pop popleft popitem next read readline readlines'.split())

    @staticmethod
    def ranks(cn, events):
        """number the calls of one function with one set of arguments along the path: a call that may see another
        state than the call before it yields another value"""
        last = {}
        rw = rwsets(cn.prog)
        for i, e in enumerate(events):
            r = e.res
            if r is None or r[0] != 'res' or e.kind not in ('call', 'callv', 'ext'):
                continue
            if r[4] in cn.ranks and e.kind != 'call':
                n = cn.ranks[r[4]]
                k = (r[1], cn.t(r[2]) if r[2] is not None else None, cn.resargs(r[1], r[3]))
                last[k] = (i, n)
                continue
            k = (r[1], cn.t(r[2]) if r[2] is not None else None, cn.resargs(r[1], r[3]))
            prev = last.get(k)
            n = 0
            if r[4] in cn.ranks:
                n = cn.ranks[r[4]]
            elif prev is not None:
                n = prev[1]
                if e.name in CPath.STATEFUL:
                    n += 1
                elif e.kind == 'call' and e.name in rw:
                    rd, wr = rw[e.name]
                    objs = {root(cn.t(a)) for a in r[3] if isinstance(a, tuple) and a and a[0] != 'kw'} | {root(k[1])}
                    if wr & rd:
                        n += 1
                    else:
                        for x in events[prev[0] + 1:i]:
                            if x.kind in ('store', 'delattr') and x.name in rd:
                                n += 1
                            elif x.kind in ('setitem', 'inplace', 'delitem') and x.recv is not None:
                                q = cn.t(x.recv)
                                if inner_attr(q) in rd or root(q) in objs:
                                    n += 1
                                else:
                                    continue
                            elif x.kind == 'call' and x.name in rw and rw[x.name][1] & rd:
                                n += 1
                            else:
                                continue
                            break
                if n:
                    cn.ranks[r[4]] = n
            last[k] = (i, n)

    @staticmethod
    def lits(cn, guards, bad):
        g = {}
        for t, v in guards:
            c = cn.t(t)
            while c[0] == 'not':
                c, v = c[1], not v
            if c[0] == 'const':
                continue
            if c in g and g[c] != v:
                bad.add(c)
            g[c] = v
        return g

    def ekey(self, cn, e):
        k = e.kind
        loops = tuple(cn.t(l) for l in e.loops)
        recv = cn.t(e.recv) if e.recv is not None else None
        if k == 'break':
            return ('break', loops)
        if k in ('call', 'callv', 'new', 'ext'):
            args = tuple(cn.t(a) for a in e.args)
            kw = tuple((n, cn.t(v)) for n, v in e.kw)
            if k == 'ext' and e.name == 'warnings.warn':
                return (k, e.name, None, (), loops, e.raised)
            if k == 'call' and e.name == 'pop' and len(args) == 1 and not kw and args[0][0] != 'star' and 'pop' not in cn.prog.by_method:
                return ('delitem', '__delitem__', recv, args, None, loops, e.raised)
            b = cn.bind(e.name, args, kw) if k == 'call' else ('raw', args, tuple(sorted(kw, key=repr)))
            return (k, e.name, recv, b, loops, e.raised, e.ext if k == 'call' else None)
        if k == 'store':
            aug = e.ext if e.name in ARRAYISH else None
            return (k, e.name, recv, cn.t(e.val), aug, loops)
        if k == 'setitem':
            return (k, recv, tuple(cn.t(a) for a in e.args), cn.t(e.val), loops, e.raised)
        return (k, e.name, recv, tuple(cn.t(a) for a in e.args), cn.t(e.val) if e.val is not None else None, loops, e.raised)


def summarise(prog, cls, name, setter=False, pmap=None, lvmap=None, **cfg):
    an = Analysis(prog, **cfg)
    ps = an.paths(cls, name, setter=setter)
    an._endst = {}
    for p in ps:
        for fid in p.st.envs:
            an._endst.setdefault(fid, p.st)
    cn = Canon(an, prog, pmap or {}, lvmap)
    an.steps = cn.steps
    out = []
    for p in ps:
        if getattr(an, 'closures', None):
            an._cur = p.st      # a closure sees the variables as they are on this path
            cn.memo = {}
        if p.exit == 'return' and p.val is not None and strictbool(p.val):
            for b, r in an.branch(p.st, p.val):
                out.append(CPath(cn, Path(b, 'return', const(r))))
        else:
            out.append(CPath(cn, p))
    return an, out


def strictbool(t):
    """the term is True or False, never an array or another object"""
    o = t[0]
    if o in ('band', 'bor'):
        return all(strictbool(x) for x in t[1])
    if o == 'not':
        return strictbool(t[1])
    return o in ('any', 'all', 'is', 'in', 'isinstance', 'hasattr', 'truth', 'pos')


def param_map(fs, fp):
    """names of the impl function's parameters -> the contract's, by position"""
    a, b = fs.node.args, fp.node.args
    m = {}
    for x, y in zip(a.args, b.args):
        m[y.arg] = x.arg
    if a.vararg and b.vararg:
        m['*' + b.vararg.arg] = '*' + a.vararg.arg
    if a.kwarg and b.kwarg:
        m['**' + b.kwarg.arg] = '**' + a.kwarg.arg
    return m


# ------------------------------------------------------------------------------ comparison
EQUAL, DIFF, UNKNOWN = 'equal', 'differs', 'unknown'
ANY = frozenset(['*'])


class Delta(object):
    """one difference between a contract path and an implementation path"""
    def __init__(self, kind, s, p, missing=(), extra=(), note=''):
        self.kind, self.s, self.p, self.missing, self.extra, self.note = kind, s, p, missing, extra, note
        self.conf = DIFFERENT

    def where(self):
        for e in self.extra:
            return e.ev.where()
        for e in self.p.ev[::-1]:
            return e.ev.where()
        return None

    def describe(self):
        out = []
        if self.missing:
            out.append('required but absent: ' + '; '.join(repr(e.ev) for e in self.missing[:4]))
        if self.extra:
            out.append('not allowed by the contract: ' + '; '.join(repr(e.ev) for e in self.extra[:4]))
        if self.note:
            out.append(self.note)
        g = '; '.join(('' if v else 'not ') + T.show(t) for t, v in list(self.p.g.items())[:12])
        out.append('on the path with [%s]' % g)
        return ' | '.join(out)


# functions whose meaning is known to the comparison of terms
WORDS = frozenset(w for f in FAMILIES for w in f)


def hidden(t, lost, depth=0, one=False):
    """a loop in t may depend on one of these arguments (one: in this iteration, what the loop carries apart)"""
    for x in T.walk(t):
        if one and x[:2] == ('lv', 'in'):
            continue
        if x[0] in ('lv', 'lvref', 'lvend', 'lvrefend', 'unknown'):
            ups = LVS.get(x[3]) if len(x) > 3 and isinstance(x[3], str) else None
            if ups is None or depth > 4 or any(lost & params(y) or hidden(y, lost, depth + 1) for u in ups for y in u):
                return True
    return False


class Comparer(object):
    def __init__(self, spec, impl, vocab_ops=None):
        self.S, self.P = spec, impl
        self.rwS, self.rwP = rwsets(spec), rwsets(impl)
        self.vocab = vocabulary(spec) | KNOWN_WORDS
        self._lvf = {}
        self.state = stored_names(impl)
        self.specstate = stored_names(spec)
        self.shared = program_names(spec) & program_names(impl)
        self.ops = vocab_ops
        self.kn = Analysis(spec)
        self._pst = {}
        self._inside = {}
        self.tdiff = Differ(self.shared, self.closures, self.void)
        self.tdiff2 = Differ(self.shared, self.closures, self.void, piecewise=True)
        self.AS = frozenset()
        self.shrunk = self.tried = frozenset()
        self._pure = {}

    def closures(self, a, b):
        sa, sb = CLOSURES.get(a), CLOSURES.get(b)
        if sa is None or sb is None:
            return MAYBE
        def strip(ps):
            # what only computes a value may have been computed outside of the closure
            out = []
            for p in ps:
                q = copy.copy(p)
                q.ev = [e for e in p.ev if not (e.kind == 'call' and not e.ev.raised and self.harmless(e.name))]
                out.append(q)
            return out
        st, _ = self.compare(strip(sa), strip(sb))
        return {EQUAL: SAME, DIFF: DIFFERENT}.get(st, MAYBE)

    def void(self, name):
        """may a function of that name return None?"""
        k = ('void', name)
        r = self._pure.get(k)
        if r is None:
            fs = list(self.S.by_method.get(name, ())) + [m.funcs[name] for m in self.S.mods.values() if name in m.funcs]
            r = not fs
            for f in fs:
                rets = [x for x in ast.walk(f.node) if isinstance(x, ast.Return)]
                last = f.node.body[-1]
                if not rets or any(x.value is None or isinstance(x.value, ast.Constant) and x.value.value is None for x in rets) or not isinstance(last, (ast.Return, ast.Raise, ast.If, ast.Try, ast.With)):
                    r = True
            self._pure[k] = r
        return r

    def pure(self, name):
        """every function of that name computes a value and nothing else"""
        r = self._pure.get(name)
        if r is None:
            r = self._pure[name] = name in ('items', 'keys', 'values') or name not in HOOKS and purenames(self.S).get(name, False) and purenames(self.P).get(name, False)
        return r

    def harmless(self, name):
        """every function of that name computes a value or refuses to, and nothing else"""
        k = ('harmless', name)
        r = self._pure.get(k)
        if r is None:
            r = self._pure[k] = name not in HOOKS and purenames(self.S, True).get(name, False) and purenames(self.P, True).get(name, False)
        return r

    # ---------------------------------------------------------------- effects
    def rw(self, e):
        k = e.key
        kind = e.kind
        if kind in ('break', 'carry', 'new'):
            return frozenset(), frozenset()
        if kind in ('callv', 'yield', 'setattr'):
            return ANY, ANY
        if kind == 'store' or kind == 'delattr':
            if e.name is None:
                return ANY, ANY
            r, w = frozenset(), frozenset([e.name])
            for c in self.S.classes.values():
                if e.name in c.setters:
                    r2, w2 = self.node_rw(c.setters[e.name])
                    r, w = r | r2, w | w2
            return r, w
        if kind == 'call':
            x = self.rwS.get(e.name) or self.rwP.get(e.name)
            if x is not None:
                if '*' in x[1]:
                    return ANY, ANY
                return x
            n = inner_attr(k[2])
            return (frozenset(), frozenset([n])) if n else (frozenset(), frozenset([('obj', k[2])]))
        if kind in ('setitem', 'delitem'):
            recv = k[1] if kind == 'setitem' else k[2]
            n = inner_attr(recv)
            return frozenset(), frozenset([n or ('obj', recv)])
        if kind == 'inplace':
            n = inner_attr(k[2])
            return frozenset(), frozenset([n or ('obj', k[2])])
        if kind == 'ext':
            ns = [inner_attr(a) for a in (k[3][1] if k[3] else ())[:1]]
            return frozenset(), frozenset([n for n in ns if n] + [('ext', e.name)])
        return frozenset(), frozenset()

    def node_rw(self, f):
        r, w = set(), set()
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute):
                (r if isinstance(x.ctx, ast.Load) else w).add(x.attr)
                y = self.rwS.get(x.attr)
                if y:
                    r |= y[0]
                    w |= y[1]
        return frozenset(r), frozenset(w)

    def conflict(self, a, b):
        ra, wa = self.rw(a)
        rb, wb = self.rw(b)
        if not (wa or wb):
            return False
        if '*' in wa:
            return bool(rb or wb)
        if '*' in wb:
            return bool(ra or wa)
        return bool(wa & (rb | wb) or wb & (ra | wa))

    # ---------------------------------------------------------------- path relation
    def pst(self, g):
        k = id(g)
        s = self._pst.get(k)
        if s is None:
            st = St()
            st.gmap = g
            s = self._pst[k] = (st, g)
        return s[0]

    def compatible(self, s, p):
        return any(self._compat(a, b) for a in s.alts for b in p.alts)

    def _compat(self, g1, g2):
        a, b = g1, g2
        if len(a) > len(b):
            a, b = b, a
        for t, v in a.items():
            w = b.get(t)
            if w is not None and w != v:
                return False
            if t[0] == 'lenin':
                for u in b:
                    if u[0] == 'lenin' and u[1] == t[1] and (u[2] > t[3] or t[2] > u[3]):
                        return False
                if b.get(('truth', t[1])) is True and t[3] < 1:
                    return False
        for x, y in ((g1, g2), (g2, g1)):
            st = self.pst(x)
            for t, v in y.items():
                if t in x:
                    continue
                if t[0] in ('any', 'all') and v is (t[0] == 'any'):
                    # something in the collection decided it: the collection is not empty
                    if x.get(('truth', t[1])) is False or any(u[0] == 'lenin' and u[1] == t[1] and u[3] < 1 and w for u, w in x.items()):
                        return False
                elif t[0] in ('any', 'all') and self.witness(st, t):
                    return False
                k = self.kn.known(st, t)
                if k is not None and k != v:
                    return False
                if t[0] in ('lt', 'le') and not v and x.get(('le' if t[0] == 'lt' else 'lt', t[2], t[1])) is False:
                    # neither a < b nor b <= a: the numbers do not compare, that is another matter
                    return False
        return True

    def undefined(self, s, p):
        """the conditions of the implementation's path make None what the contract looks inside of: the contract ends
        in a TypeError or AttributeError there and asks for nothing"""
        for t, v in p.g.items():
            if v and t[0] == 'is' and NONE in (t[1], t[2]) and t not in s.g:
                x = t[2] if t[1] == NONE else t[1]
                if x[0] in ('sub', 'attr', 'res', 'meth', 'elem') and x in self.inside(s):
                    return True
        return False

    def inside(self, s):
        r = self._inside.get(id(s))
        if r is None:
            r = set()
            for e in s.ev:
                if e.kind == 'call':
                    r.add(e.key[2])
                for t in T.walk(e.key):
                    if t[0] in ('sub', 'attr') and len(t) > 2:
                        r.add(t[1])
            if s.val:
                r.update(t[1] for t in T.walk(s.val) if t[0] in ('sub', 'attr') and len(t) > 2)
            r = self._inside[id(s)] = (r, s)
        return r[0]

    def witness(self, st, t):
        """the conditions in force say of one element what makes any() true or all() false"""
        want = t[0] == 'any'

        def ev(x):
            if x[0] == 'const':
                return bool(x[1])
            if x[0] == 'not':
                r = ev(x[1])
                return None if r is None else not r
            if x[0] in ('band', 'bor'):
                rs = [ev(y) for y in x[1]]
                if x[0] == 'band':
                    return False if False in rs else None if None in rs else True
                return True if True in rs else None if None in rs else False
            return st.gmap.get(x, self.kn.known(st, x))
        return any(ev(c) is True and ev(v) is want for c, v in t[2] if isinstance(v, tuple) and v and isinstance(v[0], str))

    def view(self, path, proj):
        """projected behaviour of a path"""
        if proj is None:
            return path.ev, path.exit, path.val
        ev = [e for e in path.ev if proj.keep(e)]
        return ev, path.exit if proj.exit else None, path.val if proj.val else None

    def same(self, s, p, proj):
        se, sx, sv = self.view(s, proj)
        pe, px, pv = self.view(p, proj)
        se = [e for e in se if not (e.kind == 'call' and not e.ev.raised and (self.pure(e.name) or self.idlecall(e)))]
        pe = [e for e in pe if not (e.kind == 'call' and not e.ev.raised and (self.pure(e.name) or self.idlecall(e)))]
        sk, pk = [e.key for e in se], [e.key for e in pe]
        if sx != px:
            return Delta('exit', s, p, note='ends with %s instead of %s' % (px, sx), missing=[], extra=[])
        c = {}
        for k in sk:
            c[k] = c.get(k, 0) + 1
        extra = []
        for e in pe:
            if c.get(e.key, 0) > 0:
                c[e.key] -= 1
            else:
                extra.append(e)
        missing = []
        for e in reversed(se):
            if c.get(e.key, 0) > 0:
                c[e.key] -= 1
                missing.append(e)
        if missing or extra:
            d = Delta('effects', s, p, missing[::-1], extra)
            d.conf, ren = self.effdiff(d.missing, d.extra, s, p)
            if d.conf != SAME:
                return d
            pk = [ren.get(id(e), e.key) for e in pe]
        if sv != pv:
            r = self.pdiff(s, p)(sv, pv) if sv and pv else DIFFERENT
            if r == MAYBE and (self.dropped(s, p, sv, pv) or self.undetermined(s, p, sv, pv)):
                r = DIFFERENT
            if r != SAME:
                d = Delta('value', s, p, note='yields %s instead of %s' % (T.show(pv) if pv else pv, T.show(sv) if sv else sv))
                d.conf = r
                return d
        if sk != pk:
            occ = {}
            pos = []
            where = {}
            for i, k in enumerate(pk):
                where.setdefault(k, []).append(i)
            for k in sk:
                n = occ.get(k, 0)
                occ[k] = n + 1
                pos.append(where[k][n])
            for i in range(len(se)):
                for j in range(i + 1, len(se)):
                    if pos[i] > pos[j] and self.conflict(se[i], se[j]):
                        return Delta('order', s, p, extra=[pe[pos[j]], pe[pos[i]]],
                                     note='%r must happen before %r' % (se[i].ev, se[j].ev))
        return None

    CONTAINER = frozenset('pop append insert remove extend clear update setdefault add discard popleft appendleft popitem sort reverse'.split())

    def pdiff(self, s, p):
        return self.tdiff if any(t not in self.AS for t in p.g) else self.tdiff2

    def carried(self, p):
        """the names of what the loops on a path carry"""
        return {e.ev.recv[-1] for e in p.ev if e.kind == 'carry'}

    def dropped(self, s, p, a, b):
        """one of the terms depends on an argument the other one does not depend on"""
        pa, pb = params(a), params(b)
        if not (pa < pb or pb < pa):
            return False
        lost = pa ^ pb
        if hidden(a if pa < pb else b, lost, one=a[0] == b[0] == 'carry' and self.carried(s) == self.carried(p)):
            return False
        for g in (s.g, p.g):
            for t, v in g.items():
                if t[0] in ('eq', 'is', 'lenin', 'truth', 'pos', 'in') and (v or t[0] in ('truth', 'pos')) and lost & params(t):
                    return False
        return True

    def undetermined(self, s, p, sv, pv):
        """a condition on the one side, its fixed outcome on the other, while the path does not decide the condition"""
        for x, y in ((sv, pv), (pv, sv)):
            if x and y and x[0] == 'const' and isinstance(x[1], bool) and (y[0] == 'truth' or y[0] == 'not' and y[1][0] == 'truth'):
                c = y[-1] if y[0] == 'truth' else y[1][-1]
                if not (c[0] == 'res' and c[1] in self.shared):
                    return False
                return not any(c in list(T.walk(t)) for g in (s.g, p.g) for t in g)
            if x and y and x[0] == 'const' and isinstance(x[1], bool) and y[0] in ('eq', 'lt', 'le', 'is') and len(y) == 3:
                if any(self.kn.known(self.pst(g), y) is not None for g in (s.g, p.g)):
                    return False
                for g in (s.g, p.g):
                    for t in g:
                        ws = list(T.walk(t))
                        if all(z in ws or z[0] == 'const' for z in y[1:]) or t[0] not in ('eq', 'lt', 'le', 'is', 'pos', 'truth', 'in', 'isinstance'):
                            return False
                return True
        return False

    def effdiff(self, missing, extra, s, p):
        """-> (SAME | DIFFERENT | MAYBE, {id(extra event): key of the missing event it equals})"""
        ren = {}
        df = self.pdiff(s, p)

        def tdiff(m, x):
            r = df(m, x)
            if r == MAYBE and len(m) == len(x) >= 4 and m[0] == x[0] == 'store' and m[:3] == x[:3] and m[4:] == x[4:] and m[3] and x[3] and \
                    self.undetermined(s, p, m[3], x[3]):
                return DIFFERENT
            if r == DIFFERENT and byname(m, x):
                return MAYBE
            return DIFFERENT if r == MAYBE and self.dropped(s, p, m, x) else r
        left_m, left_x = list(missing), list(extra)
        out = []
        for m in list(left_m):
            for x in list(left_x):
                if m.kind == x.kind and m.name == x.name and tdiff(m.key, x.key) == SAME:
                    ren[id(x)] = m.key
                    left_m.remove(m)
                    left_x.remove(x)
                    break
        if not left_m and not left_x:
            return SAME, ren
        # the same effects, on what other effects may have left: the one that is missing is judged on its own
        rest_m, rest_x = list(left_m), list(left_x)
        for m in left_m:
            for x in list(rest_x):
                if m.kind == x.kind and m.name == x.name and (m.key == x.key or unversioned(m.key) == unversioned(x.key)):
                    rest_m.remove(m)
                    rest_x.remove(x)
                    break
        gs = {unversioned(t): v for t, v in s.g.items()}
        if bool(rest_m) != bool(rest_x) and len(rest_m) < len(left_m) and not any(gs.get(unversioned(t), v) != v for t, v in p.g.items()):
            left_m, left_x = rest_m, rest_x
        # the rest: by kind and name
        if all((m.kind == 'delitem' or m.kind == 'call' and m.name == 'remove') and inner_attr(m.key[2]) in {x.name for x in left_x} for m in left_m) and \
                left_x and all(x.kind == 'store' and x.key[3][0] in ('comp', 'call') and unversioned(('attr', x.key[2], x.name, 0)) in
                              {unversioned(y) for y in T.walk(x.key[3]) if y[0] == 'attr'} and x.name in self.shrunk for x in left_x):
            # what is left of a container, where the contract takes out the others one by one
            return MAYBE, ren
        groups = {}
        for e, side in [(m, 0) for m in left_m] + [(x, 1) for x in left_x]:
            groups.setdefault((e.kind, e.name), ([], []))[side].append(e)
        um, ux = [], []
        for k, (ms, xs) in groups.items():
            if ms and xs:
                for m in ms:
                    rs = [tdiff(m.key, x.key) for x in xs]
                    out.append(MAYBE if MAYBE in rs else DIFFERENT)
                for x in xs:
                    rs = [tdiff(m.key, x.key) for m in ms]
                    out.append(MAYBE if MAYBE in rs else DIFFERENT)
            um.extend(ms if not xs else ())
            ux.extend(xs if not ms else ())
        if um and ux:
            # one kind of effect instead of another
            def vague(e):
                if e.kind == 'call' and e.name.startswith('__') and e.name.endswith('__'):
                    return False
                return e.kind in ('setitem', 'delitem', 'inplace', 'ext', 'callv', 'carry', 'setattr', 'yield') or \
                    (e.kind == 'call' and (e.name in self.CONTAINER or e.name not in self.shared))
            if any(vague(m) for m in um) and any(vague(x) for x in ux):
                out.append(MAYBE)
            elif any(m.kind == 'store' for m in um) and any(x.kind in ('setattr', 'store') and (x.name is None or x.name not in self.vocab) for x in ux):
                out.append(MAYBE)
        if um and not ux and all(m.kind == 'yield' for m in um) and p.val and p.val[0] in ('comp', 'nest', 'res', 'call', 'meth') or \
                ux and not um and all(x.kind == 'yield' for x in ux) and s.val and s.val[0] in ('comp', 'nest', 'res', 'call', 'meth'):
            # a generator, and a function that returns one
            out.append(MAYBE)
        for fs, gs in ((um, ux), (ux, um)):
            if fs and gs and all(f.kind == 'call' and self.forwards(f.name) in {g.name for g in gs if g.kind == 'call'} for f in fs):
                # what a function hands its arguments to, instead of the function
                out.append(MAYBE)
        if um and not ux and all(m.kind == 'carry' for m in um):
            # values computed in other terms: what comes of them decides
            if not (s.val and p.val and self.pdiff(s, p)(s.val, p.val) == DIFFERENT):
                out.append(MAYBE)
        if not (um and ux) and self.erring(s) and self.erring(p) and all(e.kind == 'carry' or e.key in self.tried or (e.kind, e.name) == ('call', 'append') for e in um + ux):
            # how far it got before the failure
            out.append(MAYBE)
        if ux and not um and all(x.kind == 'carry' or x.kind == 'call' and self.harmless(x.name) for x in ux) and not any(m.kind == 'carry' for m in s.ev):
            # values computed that the contract does not need, or computes in other terms
            out.append(MAYBE)
        out.append(DIFFERENT)
        return (MAYBE if MAYBE in out else DIFFERENT), ren

    @staticmethod
    def erring(p):
        return any(t[0] == 'exctype' and t[1] == ('exc', 'pure') and v for t, v in p.g.items())

    def forwards(self, name):
        """the function that a function of the contract does nothing but call"""
        k = ('fwd', name)
        if k not in self._pure:
            r = set()
            for f in list(self.S.by_method.get(name, ())) + [m.funcs[name] for m in self.S.mods.values() if name in m.funcs]:
                body = f.node.body
                if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                    body = body[1:]
                cs = [x for b in body for x in ast.walk(b) if isinstance(x, ast.Call)]
                ok = len(body) == 1 and len(cs) == 1 and isinstance(body[0], (ast.Expr, ast.Return)) and isinstance(cs[0].func, ast.Attribute)
                r.add(cs[0].func.attr if ok else None)
            self._pure[k] = r.pop() if len(r) == 1 else None
        return self._pure[k]

    def idlecall(self, e):
        """a call that hands each of its arguments on, without arguments"""
        if e.kind != 'call' or e.ev.args or e.ev.kw or e.ev.raised or not self.forwards(e.name):
            return False
        fs = self.S.by_method.get(e.name, ())
        return len(fs) == 1 and fs[0].node.args.vararg is not None and any(
            isinstance(x, ast.comprehension) and isinstance(x.iter, ast.Name) and x.iter.id == fs[0].node.args.vararg.arg for x in ast.walk(fs[0].node))

    # ---------------------------------------------------------------- interpretation
    def foreign(self, terms):
        """constructs the contract's vocabulary cannot interpret"""
        out = set()
        for t in terms:
            if not isinstance(t, tuple):
                continue
            for x in T.walk(t):
                o = x[0]
                if not isinstance(o, str):
                    continue
                if o == 'unknown':
                    out.add('unknown')
                elif o == 'attr' and len(x) == 4:
                    if not self.word(x[2]) and x[2] not in self.state:
                        out.add(x[2])
                elif o in ('call', 'meth', 'res') and len(x) >= 3 and isinstance(x[1], str):
                    if not self.word(x[1]):
                        out.add(x[1])
                elif o in ('global', 'func', 'class', 'new') and len(x) >= 2 and isinstance(x[1], str):
                    if not self.word(x[1]):
                        out.add(x[1])
                elif o == 'lv' and len(x) == 4 and x[3] in LVS:
                    if x[3] not in self._lvf:
                        w = self._lvf[x[3]] = set()
                        for c, v in LVS[x[3]]:
                            w |= self.foreign([T.subst(y, lambda z: T.NONE if z[0] == 'lv' else None) for y in (c, v)])
                    out |= self._lvf[x[3]]
                elif o in ('while', 'mut', 'fstr', 'reduce', 'nest', 'dictcomp', 'first', 'localcontainer', 'lvref', 'lvrefend', 'lv', 'chain', 'setitem'):
                    out.add('op:' + o)
        return out

    def word(self, dotted):
        if dotted.startswith('__') and dotted.endswith('__') and hasattr(int, dotted):
            return True
        return dotted.split('.')[-1] in self.vocab or dotted in WORDS

    def interpret(self, d, specops):
        if d.p.unk or d.s.unk:
            return False
        terms = [x for e in d.extra for x in e.key]
        if d.kind == 'value':
            terms.append(d.p.val)
        f = self.foreign(terms)
        f -= specops
        for e in d.extra:
            if e.kind == 'call' and e.name and not self.word(e.name):
                f.add(e.name)
            if e.kind == 'ext' and not self.word(e.name):
                f.add(e.name)
        return not f

    # ---------------------------------------------------------------- whole function
    def compare(self, sp, pp, proj=None):
        """-> (status, [Delta])"""
        # only paths that are not literally common to both sides need a partner
        S = {(s.gkey, s.bkey): s for s in sp}
        P = {(p.gkey, p.bkey): p for p in pp}
        common = set(S) & set(P)
        s2 = [s for k, s in S.items() if k not in common]
        p2 = [p for k, p in P.items() if k not in common]
        if not s2 and not p2:
            return EQUAL, []
        if not p2 or not s2:
            s2, p2 = list(S.values()), list(P.values())
        AS, AP = set(), set()
        for s in sp:
            AS.update(s.g)
        for p in pp:
            AP.update(p.g)
        specops = {'op:' + o for s in sp for e in s.ev for o in T.ops(e.key)} | {'op:' + o for s in sp if s.val for o in T.ops(s.val)} | \
                  {'op:' + o for a in AS for o in T.ops(a)}
        deltas, unknown = [], []
        sbeh = set()
        matched_s, touched_s, touched_p = set(), set(), set()
        twins_s, twins_p = set(), set()     # paths with a partner that does the same under literally the same conditions
        pairs = []
        near = {}
        was, self.AS = self.AS, AS
        # a path on which something fails is held against the paths on which the same fails
        es, ep = [[{t for t, v in x.g.items() if v and t[0] == 'exctype' and t[1] == ('exc', 'pure')} for x in xs] for xs in (s2, p2)]
        both = set().union(*es) & set().union(*ep)
        self.tried = {e.key for s in sp if not self.erring(s) for e in s.ev}
        self.shrunk = {inner_attr(e.key[2]) for s in sp for e in s.ev if e.kind == 'delitem' or e.kind == 'call' and e.name == 'remove'} - {None}
        for i, s in enumerate(s2):
            for j, p in enumerate(p2):
                if not self.compatible(s, p) or self.undefined(s, p) or (es[i] ^ ep[j]) & both:
                    continue
                touched_s.add(i)
                touched_p.add(j)
                near.setdefault(id(p), set()).update(s.g)
                d = self.same(s, p, proj)
                if d is not None:
                    d = self.vacuous(d, proj)
                if d is None:
                    matched_s.add(i)
                    if s.gkey == p.gkey:
                        twins_s.add(i)
                        twins_p.add(j)
                    continue
                pairs.append((i, j, d))
        pairs = [x for x in pairs if not (x[0] in twins_s and x[1] in twins_p)]
        if not pairs:
            self.AS = was
            if len(touched_s) < len(s2) or len(touched_p) < len(p2):
                return UNKNOWN, []
            return EQUAL, []
        missing_atoms = AS - AP
        twin = {}
        self.AS = was
        for i, j, d in pairs:
            if d.conf == MAYBE or not self.interpret(d, specops):
                if self.swapped(d, S, AS, missing_atoms & near[id(d.p)], proj, twin):
                    deltas.append(d)
                else:
                    unknown.append(d)
                continue
            fp = [t for t in d.p.g if t not in AS]
            if not fp:
                deltas.append(d)
                continue
            if any(self.foreign([t]) & {'unknown'} for t in fp):
                unknown.append(d)
                continue
            # the conditions the contract makes where the implementation makes these
            rel = self.kin(fp, missing_atoms & near[id(d.p)])
            if rel is None:
                unknown.append(d)
                continue
            if not rel:
                if len(missing_atoms) and not all(m in d.s.g for m in missing_atoms) and i in matched_s:
                    unknown.append(d)
                    continue
                d.note += ' (under a condition the contract does not make: %s)' % T.show(fp[0])
            else:
                d.note += ' (condition %s where the contract has %s)' % (T.show(rel[0][0]), T.show(rel[0][1]))
            deltas.append(d)
        if deltas:
            return DIFF, deltas + unknown
        for d in unknown:
            if self.absent(d, sp, pp, specops):
                d.note += ' (on no path of the implementation)'
                return DIFF, [d] + [x for x in unknown if x is not d]
        return UNKNOWN, unknown

    def absent(self, d, sp, pp, specops):
        """the contract does something that is done on no path of the implementation, and the
        implementation does something of the same kind which the contract never does"""
        if d.kind != 'effects' or not d.missing or not d.extra or d.s.unk or d.p.unk or d.s.bad or d.p.bad or not self.interpret(d, specops):
            return False

        def never(e, own, paths):
            seen = set()
            for q in paths:
                if not (self.compatible(own, q) if own is d.s else self.compatible(q, own)):
                    continue
                if q.unk:
                    return False
                for x in q.ev:
                    if x.key in seen:
                        continue
                    seen.add(x.key)
                    if x.kind in ('callv', 'setattr', 'yield'):
                        return False
                    if x.kind == e.kind and x.name == e.name and self.tdiff(e.key, x.key) != DIFFERENT:
                        return False
            return True
        for m in d.missing:
            if m.kind not in ('call', 'store', 'setitem') or m.kind == 'call' and m.name not in self.shared or any(byname(m.key, x.key) for x in d.extra):
                continue
            for x in d.extra:
                if x.kind == m.kind and x.name == m.name and self.tdiff(m.key, x.key) == DIFFERENT and never(m, d.s, pp) and never(x, d.p, sp):
                    return True
        return False

    def kin(self, fp, missing_atoms):
        """[(condition of the implementation, the one of the contract it stands for)], all definitely different;
        None if one of them may be a contract's condition in another form"""
        out = []
        for f in fp:
            rs = [(f, m, self.tdiff(f, m)) for m in missing_atoms if related(f, m)]
            # the same condition, before and after an effect
            off = {unversioned(m) for _, m, r in rs if r == DIFFERENT}
            rs = [(f, m, DIFFERENT if r == MAYBE and unversioned(m) in off else r) for f, m, r in rs]
            if any(r != DIFFERENT for _, _, r in rs):
                if not any(r == DIFFERENT and m[0] == f[0] for _, m, r in rs) or any(r != DIFFERENT and m[0] == f[0] for _, m, r in rs):
                    return None
                rs = [x for x in rs if x[2] == DIFFERENT and x[1][0] == f[0]]
            out.extend(rs)
        return out

    def swapped(self, d, S, AS, missing_atoms, proj, twin):
        """the implementation does exactly what the contract does - but on another condition"""
        p, s = d.p, d.s
        if p.unk or s.unk or p.inexact or s.inexact or p.bad or s.bad:
            return False
        k = id(p)
        if k not in twin:
            twin[k] = [x for x in S.values() if not x.inexact and not x.bad and not x.unk and
                       ((x.bkey == p.bkey) if proj is None else self.same(x, p, proj) is None)]
        if not twin[k] or any(x.bkey == s.bkey for x in twin[k]):
            return False
        fp = [t for t in p.g if t not in AS]
        if any(self.foreign([t]) & {'unknown'} for t in fp):
            return False
        lost = [t for x in twin[k] for t in x.g if t in s.g and s.g[t] != x.g[t]]
        for t in lost:
            if t in p.g:
                return False
        if not fp:
            if lost and all(t in missing_atoms for t in lost):
                d.note += ' (without the condition %s)' % T.show(lost[0])
                return True
            return False
        rel = self.kin(fp, missing_atoms)
        if rel:
            d.note += ' (condition %s where the contract has %s)' % (T.show(rel[0][0]), T.show(rel[0][1]))
            return True
        return False

    # ---------------------------------------------------------------- empty collections
    def vacuous(self, d, proj):
        """a difference that disappears because a collection is empty on this path"""
        empty = set()
        for g in (d.p.g, d.s.g):
            for t, v in g.items():
                if t[0] == 'truth' and not v:
                    empty.add(t[1])
                elif t[0] == 'pos' and not v:
                    x = t[1]
                    if x[0] == 'call' and x[1] in ('len', 'numpy.size'):
                        empty.add(x[2][0])
                    elif x[0] == 'attr':
                        empty.add(x[1])
                elif t[0] == 'eq' and v and ('const', 0) in t[1:]:
                    x = t[2] if t[1] == ('const', 0) else t[1]
                    if x[0] == 'call' and x[1] in ('len', 'numpy.size'):
                        empty.add(x[2][0])
        one = {t[1] for g in (d.p.g, d.s.g) for t in g if t[0] == 'lenin' and t[2:] == (1, 1)}
        if not empty and not one:
            return d

        def within(loops):
            return any(l in empty or (l[0] in ('rev', 'zip', 'sub') and l[1] in empty) for l in loops)

        def simp(t):
            if t[0] == 'sub' and t[1] in one and t[2] == const(-1):
                return ('sub', t[1], const(0))
            if t[0] in ('comp', 'sum', 'any', 'all') and len(t) == 3 and t[1] in empty:
                return {'comp': ('list', ()), 'sum': ('const', 0), 'any': FALSE, 'all': TRUE}[t[0]]
            if t in empty and t[0] in ('comp', 'call'):
                return ('list', ())
            if t[0] == 'call' and t[1] in ('list', 'tuple') and t[2] and t[2][0] in empty:
                return ('list', ())
            return None
        miss = [e for e in d.missing if not within(e.ev_loops())]
        extra = [e for e in d.extra if not within(e.ev_loops())]

        def idle(e):
            # replacing all the elements of what has none with nothing
            k = e.key
            return k[0] == 'setitem' and k[1] in empty and k[2] == (('FULL',),) and T.subst(k[3], simp) == ('list', ())
        n = len(miss) + len(extra)
        miss = [e for e in miss if not idle(e)]
        extra = [e for e in extra if not idle(e)]
        same = unversioned if len(miss) + len(extra) < n else lambda t: t
        if d.kind == 'effects':
            if len(miss) != len(extra):
                return d
            mk = Counter(same(T.subst(e.key, simp)) for e in miss)
            xk = Counter(same(T.subst(e.key, simp)) for e in extra)
            if mk == xk:
                sv = same(T.subst(d.s.val, simp)) if d.s.val else d.s.val
                pv = same(T.subst(d.p.val, simp)) if d.p.val else d.p.val
                if sv == pv or (proj is not None and not proj.val):
                    return None
            return d
        if d.kind == 'value':
            sv = T.subst(d.s.val, simp) if d.s.val else d.s.val
            pv = T.subst(d.p.val, simp) if d.p.val else d.p.val
            if sv == pv or (sv in (('list', ()), ('tuple', ())) and pv in (('list', ()), ('tuple', ()))):
                return None
        return d


def byname(m, x):
    """calls with the same arguments, by place or by name"""
    return m[0] == x[0] == 'call' and m[1:3] == x[1:3] and m[4:] == x[4:] and m[3][0] == x[3][0] == 'raw' and len(m[3][1]) != len(x[3][1]) and \
        not any(v[0] == 'star' for y in (m, x) for v in y[3][1]) and \
        Counter(m[3][1] + tuple(v for _, v in m[3][2])) == Counter(x[3][1] + tuple(v for _, v in x[3][2]))


def related(f, m):
    """the two conditions speak about a common thing"""
    return bool(subjects(f) & subjects(m)) or f[0] == m[0]


_SUBJ = {}


def subjects(t):
    r = _SUBJ.get(t)
    if r is None:
        r = set()
        for x in T.walk(t):
            if x[0] == 'param' and x[1] != 'self':
                r.add(x)
            elif x[0] == 'attr' and len(x) == 4:
                r.add(('attr', x[2]))
            elif x[0] in ('res', 'meth') and len(x) > 2 and isinstance(x[1], str):
                r.add(('attr', x[1]))
            elif x[0] == 'call' and isinstance(x[1], str) and x[1] not in ('len', 'list', 'tuple', 'str'):
                r.add(('attr', x[1]))
            elif x[0] == 'global':
                r.add(x)
        r = _SUBJ[t] = frozenset(r)
    return r


WHY = {}


def purenames(prog, raises=False):
    """name -> all functions of that name only compute a value (no store, mutation, output, raise or call of something that does);
    raises: or refuse to"""
    key = '_harmless' if raises else '_purenames'
    c = prog.__dict__.get(key)
    if c is not None:
        return c
    ok, calls = {}, {}
    for m in prog.mods.values():
        for node in ast.walk(m.tree):
            if not isinstance(node, ast.FunctionDef):
                continue
            good = True
            ks = calls.setdefault(node.name, set())
            local = set()
            for x in ast.walk(node):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    local.add(x.id)
            for x in ast.walk(node):
                if isinstance(x, (ast.Raise, ast.Assert)):
                    good = good and raises
                elif isinstance(x, (ast.Delete, ast.With, ast.Global, ast.Nonlocal, ast.While)):
                    good = False
                elif isinstance(x, ast.Attribute):
                    if isinstance(x.ctx, ast.Store):
                        good = False
                    ks.add(x.attr)
                elif isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Load):
                    good = good and isinstance(x.value, ast.Name) and x.value.id in local
                elif isinstance(x, ast.AugAssign):
                    good = good and isinstance(x.target, ast.Name)
                elif isinstance(x, ast.Call):
                    if isinstance(x.func, ast.Attribute):
                        if x.func.attr in MUT_METH and not (isinstance(x.func.value, ast.Name) and x.func.value.id in local):
                            good = False
                        if not (x.func.attr in PURE_METH or x.func.attr in MUT_METH or x.func.attr in prog.by_method):
                            good = good and isinstance(x.func.value, ast.Name) and x.func.value.id in ('np', 'numpy')
                    elif isinstance(x.func, ast.Name):
                        if raises and x.func.id.endswith('Error'):
                            continue
                        if raises and x.func.id not in prog.classes and any(x.func.id in m.funcs for m in prog.mods.values()):
                            ks.add(x.func.id)
                        elif x.func.id in prog.classes or not (x.func.id in PURE_BUILTIN):
                            good = False
                    else:
                        good = False
            ok[node.name] = ok.get(node.name, True) and good
    ch = True
    while ch:
        ch = False
        for f in ok:
            bad = [k for k in calls[f] if k in ok and not ok[k]]
            if ok[f] and bad:
                WHY[f] = bad
                ok[f] = False
                ch = True
    prog.__dict__[key] = ok
    return ok


_PAR = {}


def params(t):
    """the arguments of the function a term depends on"""
    r = _PAR.get(id(t))
    if r is None:
        if t and t[0] == 'param':
            v = frozenset([t])
        else:
            vs = [params(y) for y in t if isinstance(y, tuple)]
            v = frozenset().union(*vs) if vs else NOTHING
        r = _PAR[id(t)] = (v, t)
    return r[0]


NOTHING = frozenset()
_UNV = {}


def unversioned(t):
    """forget which read of an attribute it is"""
    r = _UNV.get(id(t))
    if r is None:
        n = tuple([unversioned(c) if isinstance(c, tuple) else c for c in t])
        if n and n[0] == 'attr' and len(n) == 4 and n[3]:
            n = n[:3] + (0,)
        elif all([a is b for a, b in zip(n, t)]):
            n = t
        r = _UNV[id(t)] = (n, t)
    return r[0]


def root(t):
    while isinstance(t, tuple) and t and t[0] in ('sub', 'elem'):
        t = t[1]
    return t


def inner_attr(t):
    while isinstance(t, tuple) and t:
        if t[0] == 'attr':
            return t[2]
        if t[0] in ('sub', 'meth', 'res') and len(t) > 2:
            t = t[1] if t[0] == 'sub' else t[2]
            continue
        return None
    return None


KNOWN_WORDS = frozenset('''minimum maximum clip abs absolute exp log log1p expm1 sqrt sign where zeros ones empty full arange any all
sum prod min max mean dot inner outer isfinite isnan isinf nan_to_num copy asarray array concatenate hstack vstack append insert pop
remove extend clear sort sorted reversed reverse len range enumerate zip list tuple dict set frozenset int float str bool id type
isinstance hasattr getattr setattr delattr update get items keys values add discard setdefault index count flat flatten ravel
searchsorted unique nonzero flatnonzero intersect1d union1d setdiff1d isin in1d cumsum diff put take delete square power
next iter map filter round floor ceil strip split join replace lower upper startswith endswith lstrip rstrip
allclose isclose array_equal array_equiv size shape ndim T dtype astype tolist view hash repr isidentifier isalnum isdigit
popleft appendleft move_to_end popitem weakref ref deepcopy
'''.split())


def _find_loops(ce):
    k = ce.key
    i = {'call': 4, 'callv': 4, 'new': 4, 'ext': 4, 'store': 5, 'setitem': 4, 'break': 1}.get(k[0], 5)
    return k[i] if i < len(k) else ()


CEvent.ev_loops = _find_loops
