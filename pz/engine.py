"""Interprocedural, path-sensitive dataflow over the syntax tree.

`Analysis.paths(func)` abstracts a function to the set of its control-flow paths.  Along a
path every expression is given a value number (terms.py), attribute writes are forwarded to
reads until something may overwrite them, resolved callees of the package are inlined, loops
are summarised by one generic iteration (accumulators, comprehensions and parent chains are
recognised), and everything with an effect is recorded as an Event.  No code is executed and
no path is handed to a solver: infeasible paths are dropped only when two of their branch
literals contradict each other syntactically.
"""
import ast
import builtins
import copy
import json
import os

from . import terms as T
from .src import Cls, Ext, Func, Mod
from .terms import NONE, TRUE, FALSE, FULL, const, attr

HERE = os.path.dirname(os.path.abspath(__file__))
BASELINE = frozenset(json.load(open(os.path.join(HERE, "baseline_names.json"))))


UNBOUND = ("unbound",)


class TooComplex(Exception):
    pass


class Raise(object):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class Event(object):
    __slots__ = ('kind', 'name', 'recv', 'args', 'kw', 'res', 'val', 'line', 'file', 'loops', 'ng', 'i', 'raised', 'func', 'ext')

    def __init__(self, kind, name=None, recv=None, args=(), kw=(), res=None, val=None):
        self.kind, self.name, self.recv, self.args, self.kw, self.res, self.val = kind, name, recv, args, kw, res, val
        self.line = self.file = self.func = self.ext = None
        self.loops = ()
        self.ng = 0
        self.raised = False

    def key(self):
        return (self.kind, self.name, self.recv, self.args, self.kw, self.val, self.loops, self.raised)

    def kwd(self):
        return dict(self.kw)

    def arg(self, i, name=None, default=None):
        d = dict(self.kw)
        if name is not None and name in d:
            return d[name]
        if i is not None and i < len(self.args):
            return self.args[i]
        return default

    def where(self):
        return '%s:%s' % (self.file, self.line)

    def __repr__(self):
        s = T.show
        if self.kind in ('call', 'ext', 'new', 'callv'):
            a = ', '.join([s(x) for x in self.args] + ['%s=%s' % (k, s(v)) for k, v in self.kw])
            r = '%s%s(%s)' % (s(self.recv) + '.' if self.recv else '', self.name or '', a)
        elif self.kind == 'store':
            r = '%s.%s := %s' % (s(self.recv), self.name, s(self.val))
        elif self.kind == 'setitem':
            r = '%s[%s] := %s' % (s(self.recv), s(self.args[0]), s(self.val))
        else:
            r = '%s %s %s %s' % (self.kind, s(self.recv) if self.recv else '', self.name or '', ', '.join(s(x) for x in self.args))
        return '<%s%s%s%s @%s>' % (self.kind + ' ', r, ' RAISED' if self.raised else '', ' in ' + ' / '.join(s(l) for l in self.loops) if self.loops else '', self.line)


class St(object):
    __slots__ = ('envs', 'heap', 'refs', 'events', 'guards', 'gmap', 'vers', 'epoch', 'loops', 'tries', 'flags', 'curexc', 'alts', 'esc')

    def __init__(self):
        self.envs, self.heap, self.refs, self.vers, self.gmap = {}, {}, {}, {}, {}
        self.events, self.guards, self.loops = (), (), ()
        self.epoch = 0
        self.esc = frozenset()  # containers that something else can see
        self.tries = 0
        self.flags = frozenset()
        self.curexc = ()
        self.alts = None        # further literals, as alternatives (after a join)

    def copy(self):
        n = St.__new__(St)
        for a in St.__slots__:
            setattr(n, a, getattr(self, a))
        return n

    def setvar(self, fid, name, v):
        n = self.copy()
        n.envs = dict(n.envs)
        e = dict(n.envs.get(fid, {}))
        e[name] = v
        n.envs[fid] = e
        return n

    def setref(self, rid, v):
        n = self.copy()
        n.refs = dict(n.refs)
        n.refs[rid] = v
        return n

    def flag(self, s):
        n = self.copy()
        n.flags = n.flags | {s}
        return n


class Frame(object):
    __slots__ = ('fid', 'func', 'cls', 'mod', 'parent', 'selft', 'dyn', 'depth', 'caller')

    def __init__(self, fid, func, cls, mod, parent, selft, dyn, depth, caller):
        self.fid, self.func, self.cls, self.mod, self.parent = fid, func, cls, mod, parent
        self.selft, self.dyn, self.depth, self.caller = selft, dyn, depth, caller


class Path(object):
    def __init__(self, st, exit_, val):
        self.st, self.exit, self.val = st, exit_, val
        self.events = st.events
        for i, e in enumerate(self.events):
            e.i = i
        self.guards = st.guards
        self.g = st.gmap
        self.alts = st.alts
        self.flags = st.flags

    def guard(self, t):
        """True/False/None: what the path assumes about literal t"""
        return self.g.get(t)

    def show(self):
        return 'guards: %s\n  %s\n  -> %s %s' % (
            '; '.join(('' if v else 'not ') + T.show(t) for t, v in self.guards),
            '\n  '.join(repr(e) for e in self.events), self.exit, T.show(self.val) if self.val else '')


PURE_METH = frozenset('''get items keys values copy flatten ravel astype sum any all view join format split rsplit replace
startswith endswith lower upper strip match group groups search find partition rpartition index count min max mean dot
argmin argmax nonzero tolist tobytes reshape transpose squeeze is_fixed properties indices has_parent hierarchy_name
total_seconds cumsum cumprod isdigit isalpha isidentifier encode decode title as_integer_ratio conj
properties_for _raveled_index _offset_for _indices _size_transformed findall sub fullmatch items_for repeat round clip
__getitem__ __len__ __contains__ __eq__ with_traceback intersection union difference issubset fget parameter_names __getstate__'''.split())
MUT_METH = frozenset('append insert remove pop extend clear update add sort setdefault popleft appendleft discard reverse popitem'.split())
IGNORED_CALLS = ('builtins.print', 'sys.stdout.flush', 'sys.stdout.write')
PURE_BUILTIN = frozenset('''len int float str repr bool abs min max sorted sum any all hex id type isinstance issubclass hasattr
round tuple list dict set frozenset zip range enumerate reversed iter callable ord chr divmod pow slice map filter dir vars bytes format'''.split())
IMPURE_EXT = ('numpy.put', 'numpy.copyto', 'numpy.place', 'numpy.putmask', 'numpy.random', 'numpy.save', 'numpy.seterr', 'numpy.errstate',
              'numpy.fill_diagonal')
# containers of weak references
WEAKHOLD = frozenset(('_poc', 'cached_input_ids', '_instances'))
PURE_EXT_PREFIX = ('numpy.', 'math.', 'operator.', 'weakref.ref', 're.', 'itertools.', 'functools.', 'collections.', 'datetime.',
                   'time.', 'logging.getLogger', 'os.path.', 'copy.copy', 'decorator.', 'sys.float_info', 'pprint.')


def _targets(node, out):
    if isinstance(node, ast.Name):
        out.add(node.id)
    elif isinstance(node, (ast.Tuple, ast.List)):
        for e in node.elts:
            _targets(e, out)
    elif isinstance(node, ast.Starred):
        _targets(node.value, out)


def assigned_names(body):
    out = set()

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_Assign(self, n):
            for t in n.targets:
                _targets(t, out)
            self.generic_visit(n)

        def visit_AugAssign(self, n):
            _targets(n.target, out)
            self.generic_visit(n)

        def visit_AnnAssign(self, n):
            _targets(n.target, out)
            self.generic_visit(n)

        def visit_For(self, n):
            _targets(n.target, out)
            self.generic_visit(n)

        def visit_NamedExpr(self, n):
            _targets(n.target, out)
            self.generic_visit(n)

        def visit_With(self, n):
            for i in n.items:
                if i.optional_vars is not None:
                    _targets(i.optional_vars, out)
            self.generic_visit(n)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)
    for s in body:
        V().visit(s)
    return out


def resolve(alts):
    """(A and x) or (A and not x) = A, exhaustively; absorbed alternatives are dropped"""
    alts = set(alts)
    ch = True
    while ch and len(alts) > 1:
        ch = False
        for a in sorted(alts, key=lambda f: (-len(f), repr(sorted(f, key=repr)))):
            for lit in a:
                b = (a - {lit}) | {(lit[0], not lit[1])}
                if b in alts or any(len(o) < len(b) and o <= b for o in alts):
                    alts.discard(a)
                    alts.discard(b)
                    alts.add(a - {lit})
                    ch = True
                    break
            if ch:
                break
        for a in list(alts):
            if any(o < a for o in alts):
                alts.discard(a)
    return alts


class Analysis(object):
    def __init__(self, prog, opaque=(), inline=(), inline_cls=None, props=(), may_raise=None, special_traverse=True, limit=6000,
                 depth=14, inline_new=(), noraise=(), pure=(), baseline=None, forks=None, types=None):
        self.flags = frozenset()
        self.prog = prog
        self.opaque = frozenset(opaque)
        self.inline = frozenset(inline) | {'has_parent'}
        self.inline_cls = inline_cls or {}
        self.props = frozenset(props)
        self.may_raise = may_raise
        self.special_traverse = special_traverse
        self.limit, self.maxdepth = limit, depth
        self.inline_new = frozenset(inline_new)
        self.noraise = frozenset(noraise)
        self.pure = frozenset(pure)
        self.baseline = BASELINE if baseline is None else frozenset(baseline)
        self.forks = forks          # None: every effect inside a try may raise; else the names that may
        self.lvinfo = {}
        self.stepped = set()            # loop-carried variables whose changes are events of the iteration
        self.curself = None
        self.types = dict(types or {})
        self.uid = 0
        self.nst = 0
        self.inlined = set()

    def fresh(self):
        self.uid += 1
        return self.uid

    # ================================================================= entry
    def paths(self, cls, name, args=None, typ=None, setter=False):
        """All paths of cls.name (or module function name if cls is None)."""
        if isinstance(name, Func):
            f = name
        elif cls is None:
            f = self.prog.func(None, name)
        else:
            c = self.prog.cls(cls)
            f = self.prog.find(c, name, setter=setter)
            if not isinstance(f, Func):
                from .src import AnalysisBroken
                raise AnalysisBroken('%s.%s has vanished' % (cls, name))
        dyn = self.prog.cls(cls) if cls else f.cls
        st = St()
        fid = self.fresh()
        env = {}
        a = f.node.args
        selft = None
        ps = list(a.posonlyargs) + list(a.args)
        for i, p in enumerate(ps):
            env[p.arg] = ('param', p.arg if i or not f.cls else 'self')
        if f.cls is not None and ps and f.kind != 'staticmethod':
            selft = env[ps[0].arg]
            self.types[selft] = dyn
        if a.vararg:
            env[a.vararg.arg] = ('param', '*' + a.vararg.arg)
        if a.kwarg:
            env[a.kwarg.arg] = ('param', '**' + a.kwarg.arg)
        for p in a.kwonlyargs:
            env[p.arg] = ('param', p.arg)
        for k, v in (args or {}).items():
            env[k] = v
        st.envs = {fid: env}
        fr = Frame(fid, f, f.cls, f.mod, None, selft, dyn, 0, None)
        out = []
        for s, sig in self.run_body(f, st, fr):
            if sig is None:
                out.append(Path(s, 'return', NONE))
            elif sig[0] == 'ret':
                out.append(Path(s, 'return', self.deref(s, sig[1])))
            elif sig[0] == 'exc':
                out.append(Path(s, 'raise', sig[1]))
        self.inlined.add(f.qual)
        return out

    def run_body(self, f, st, fr):
        if isinstance(f.node, ast.Lambda):
            return [(s, ('exc', v.t) if isinstance(v, Raise) else ('ret', v)) for s, v in self.ev(f.node.body, st, fr)]
        return self.block(f.node.body, st, fr)

    # ================================================================= state helpers
    def tick(self, n=1):
        self.nst += n
        if self.nst > 400000:
            raise TooComplex('too many states')

    def deref(self, st, t):
        if not isinstance(t, tuple):
            return t
        if t and t[0] == 'ref':
            return self.deref(st, st.refs.get(t[1], ('unknown', 'ref')))
        if any(isinstance(c, tuple) for c in t):
            return tuple(self.deref(st, c) for c in t)
        return t

    def emit(self, st, ev, node, fr):
        n = st.copy()
        ev.line = getattr(node, 'lineno', 0)
        ev.file = os.path.relpath(fr.mod.path, self.prog.repo)
        ev.func = fr.func.qual if fr.func else None
        ev.loops = st.loops
        ev.ng = len(st.guards)
        esc = [x[1] for a in ev.args + tuple(v for _, v in ev.kw) + ((ev.val,) if ev.val is not None else ()) for x in self.refs_in(a)]
        if esc:
            n.esc = n.esc | frozenset(esc)
        if ev.recv is not None:
            ev.recv = self.deref(st, ev.recv)
        ev.args = tuple(self.deref(st, a) for a in ev.args)
        ev.kw = tuple((k, self.deref(st, v)) for k, v in ev.kw)
        if ev.val is not None:
            ev.val = self.deref(st, ev.val)
        n.events = n.events + (ev,)
        return n

    def refs_in(self, t):
        if not isinstance(t, tuple) or not t:
            return ()
        if t[0] == 'ref':
            return (t,)
        return tuple(x for c in t if isinstance(c, tuple) for x in self.refs_in(c))

    def ver(self, st, name):
        return st.vers.get(name, 0) * 100000 + st.epoch

    def read_attr(self, st, o, name):
        f = st.heap.get((o, name))
        if f is not None:
            return f
        if name in self.prog.by_method:
            return attr(o, name, 0)
        return attr(o, name, self.ver(st, name))

    def bump(self, st, names, keep=None):
        n = st.copy()
        n.vers = dict(n.vers)
        for x in names:
            n.vers[x] = n.vers.get(x, 0) + 1
        n.heap = {k: v for k, v in n.heap.items() if k[1] not in names or k == keep}
        return n

    def kill_all(self, st):
        n = st.copy()
        n.epoch += 1
        n.heap = {}
        return n

    def write_attr(self, st, o, name, v):
        n = self.bump(st, (name,))
        n.heap = dict(n.heap)
        dv = self.deref(st, v)
        if name == 'flat' or name in self.setters():
            return n        # writes through: what is read back is not what was stored
        if dv[0] not in ('list', 'dict', 'comp', 'cat', 'new', 'dictcomp', 'dictcat', 'set') and dv[:2] != ('call', 'list'):
            n.heap[(o, name)] = v if v[0] != 'ref' else dv
        return n

    def setters(self):
        s = self.prog.__dict__.get('_setternames')
        if s is None:
            s = self.prog._setternames = {n for m in self.prog.mods.values() for c in m.classes.values() for n in c.setters}
        return s

    def modset(self, name):
        """attribute names any function called `name` in the package may store, transitively (by name)"""
        cache = self.prog.__dict__.setdefault('_mods', {})
        if not cache:
            direct, calls = {}, {}
            for m in self.prog.mods.values():
                for node in ast.walk(m.tree):
                    if isinstance(node, (ast.FunctionDef,)):
                        d = direct.setdefault(node.name, set())
                        c = calls.setdefault(node.name, set())
                        for x in ast.walk(node):
                            if isinstance(x, ast.Attribute):
                                if isinstance(x.ctx, (ast.Store, ast.Del)):
                                    d.add(x.attr)
                                else:
                                    c.add(x.attr)   # calls and property reads alike
                            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
                                c.add(x.func.id)
                                if x.func.id in ('setattr', 'delattr') and not (x.args and isinstance(x.args[0], ast.Name) and x.args[0].id in self.prog.classes):
                                    d.add('*')
                            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUT_METH \
                                    and isinstance(x.func.value, ast.Attribute):
                                d.add(x.func.value.attr)
                            if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Attribute):
                                d.add(x.value.attr)
            for f, w in getattr(self.prog, 'promised', {}).items():
                if f in direct:
                    direct[f], calls[f] = set(w), ()
            ch = True
            while ch:
                ch = False
                for f in direct:
                    for c in list(calls[f]):
                        if c in direct and not direct[c] <= direct[f]:
                            direct[f] |= direct[c]
                            ch = True
            cache.update(direct)
            cache.setdefault('', set())
        return cache.get(name)

    # ================================================================= branching
    def truth(self, st, t):
        """canonical literal for the truth value of t"""
        t = self.deref(st, t)
        o = t[0]
        if o == 'const':
            return const(bool(t[1]))
        if o in ('tuple', 'list', 'dict'):
            return const(len(t[1]) > 0)
        if o in ('truth', 'pos', 'any', 'all'):
            return t
        if o == 'call' and t[1] == 'len' and len(t[2]) == 1:
            return self.truth(st, t[2][0]) if t[2][0][0] not in ('closure', 'func', 'class', 'lambda', 'fstr') else T.pos(t)
        if o == 'call' and t[1] == 'numpy.size' or (o == 'attr' and t[2] == 'size'):
            return T.pos(t)
        if o == 'pos':
            return t
        if o == 'call' and t[1] == 'bool' and len(t[2]) == 1:
            return self.truth(st, t[2][0])
        if o == 'comp' and t[2] and all(c[0] == TRUE and len(c[1]) > 0 for c in t[2]):
            return ('truth', t[1])
        if o in ('new', 'closure', 'func', 'class', 'lambda', 'fstr') and o != 'new':
            return TRUE
        if T.is_boolish(t):
            return t
        return ('truth', t)

    def known(self, st, t):
        """what the guards imply about literal t: True/False/None"""
        if t[0] == 'const':
            return bool(t[1])
        g = st.gmap
        if t in g:
            return g[t]
        o = t[0]
        if o == 'eq':
            a, b = t[1], t[2]
            for x, c in ((a, b), (b, a)):
                if c[0] == 'const':
                    for k, v in g.items():
                        if v and k[0] == 'eq' and x in (k[1], k[2]):
                            y = k[2] if k[1] == x else k[1]
                            if y[0] == 'const' and y != c:
                                return False
                        if v and k[0] == 'is' and x in (k[1], k[2]):
                            y = k[2] if k[1] == x else k[1]
                            if y[0] == 'const' and y != c:
                                return False
                            if y == c:
                                return True
        if o == 'is' and NONE in (t[1], t[2]):
            x = t[2] if t[1] == NONE else t[1]
            if g.get(('truth', x)) is True:
                return False
            if x[0] == 'elem':
                y = x[1]
                while y[0] in ('rev', 'sub') and isinstance(y[1], tuple):
                    y = y[1]
                if y[0] == 'attr' and y[2] in ('parameters', 'constraints', '_index_operations', 'observers'):
                    return False
            if x[0] == 'attr' and x[2] in ('_highest_parent_', 'parameters', 'constraints', 'param_array', 'observers', '__dict__'):
                return False
            if x[0] in ('attr', 'param', 'elem', 'sub', 'res'):
                for k, v in g.items():
                    if v and k[0] == 'isinstance' and k[1] == x:
                        return False
                    if v and k[0] == 'eq' and x in (k[1], k[2]):
                        y = k[2] if k[1] == x else k[1]
                        if y[0] == 'const' and y != NONE:
                            return False
            for k in g:
                if k[0] in ('eq', 'lt', 'le', 'is', 'truth', 'pos'):
                    for y in k[1:]:
                        # its attribute has been read
                        while y[0] == 'attr' and y[1][0] == 'attr' and y[1] != x:
                            y = y[1]
                        if y[0] == 'attr' and y[1] == x and not y[2].startswith('__'):
                            return False
        if o == 'truth':
            x = t[1]
            n = T.iss(x, NONE)
            if g.get(n) is True:
                return False
            for k, v in g.items():
                if v and k[0] in ('is', 'eq') and x in (k[1], k[2]):
                    y = k[2] if k[1] == x else k[1]
                    if y[0] == 'const':
                        return bool(y[1])
        if o in ('lt', 'le'):
            a, b = t[1], t[2]
            if o == 'lt':
                if g.get(('lt', b, a)) or g.get(('le', b, a)):
                    return False
                if g.get(T.eq(a, b)):
                    return False
            else:
                if g.get(('lt', a, b)) or g.get(T.eq(a, b)):
                    return True
                if g.get(('lt', b, a)):
                    return False
        if o == 'eq':
            for x in (('lt', t[1], t[2]), ('lt', t[2], t[1])):
                if g.get(x):
                    return False
        if o in ('lt', 'le'):
            # thresholds: what is below one number is not above a larger one
            a, b = t[1], t[2]
            if T.is_num(a) != T.is_num(b):
                x = b if T.is_num(a) else a
                for k, v in g.items():
                    if v and k[0] in ('lt', 'le') and x in (k[1], k[2]) and k != t:
                        if T.is_num(b) and k[1] == x and T.is_num(k[2]):
                            if k[2][1] < b[1] or k[2][1] == b[1] and (k[0] == 'lt' or o == 'le'):
                                return True
                        elif T.is_num(b) and k[2] == x and T.is_num(k[1]):
                            if k[1][1] > b[1] or k[1][1] == b[1] and (k[0] == 'lt' or o == 'lt'):
                                return False
                        elif T.is_num(a) and k[2] == x and T.is_num(k[1]):
                            if k[1][1] > a[1] or k[1][1] == a[1] and (k[0] == 'lt' or o == 'le'):
                                return True
                        elif T.is_num(a) and k[1] == x and T.is_num(k[2]):
                            if k[2][1] < a[1] or k[2][1] == a[1] and (k[0] == 'lt' or o == 'lt'):
                                return False
        if o == 'is' and t[1][0] == 'const' and t[1] != NONE or o == 'is' and t[2][0] == 'const' and t[2] != NONE:
            e = T.eq(t[1], t[2])
            if g.get(e) is False:
                return False
        return None

    def assume(self, st, t, val):
        if t[0] == 'not':
            return self.assume(st, t[1], not val)
        n = st.copy()
        n.guards = n.guards + ((t, val),)
        n.gmap = dict(n.gmap)
        n.gmap[t] = val
        if n.alts:
            live = tuple(a for a in n.alts if (t, not val) not in a)
            if live and len(live) < len(n.alts):
                n.alts = live
                if len(live) == 1:
                    for x, v in sorted(live[0], key=repr):
                        if x not in n.gmap:
                            n.guards = n.guards + ((x, v),)
                            n.gmap[x] = v
                    n.alts = None
        return n

    def branch(self, st, t):
        """-> [(state, bool)]"""
        self.tick()
        t = self.truth(st, t)
        if t[0] == 'not':
            return [(s, not b) for s, b in self.branch(st, t[1])]
        if t[0] == 'const':
            return [(st, bool(t[1]))]
        if t[0] in ('band', 'bor'):
            isand = t[0] == 'band'
            live = [st]
            out = []
            for x in t[1]:
                nl = []
                for s in live:
                    for s2, b in self.branch(s, x):
                        if b == isand:
                            nl.append(s2)
                        else:
                            out.append((s2, not isand))
                live = nl
            return out + [(s, isand) for s in live]
        k = self.known(st, t)
        if k is not None:
            return [(st, k)]
        return [(self.assume(st, t, True), True), (self.assume(st, t, False), False)]

    # ================================================================= statements
    def block(self, stmts, st, fr):
        outs = [(st, None)]
        done = []
        for s in stmts:
            nxt = []
            for stt, sig in outs:
                for r in self.stmt(s, stt, fr):
                    (nxt if r[1] is None else done).append(r)
            outs = self.merge(nxt, fr)
            if len(outs) + len(done) > self.limit:
                raise TooComplex('too many paths in %s' % (fr.func.qual if fr.func else '?'))
            if not outs:
                break
        return outs + done

    def merge(self, outs, fr):
        if len(outs) < 2:
            return outs
        groups = {}
        order = []
        for st, sig in outs:
            try:
                k = (tuple(e.key() for e in st.events), tuple(sorted(st.envs.get(fr.fid, {}).items())),
                     frozenset(st.heap.items()), frozenset(st.refs.items()), st.curexc, st.epoch, frozenset(st.vers.items()), repr(sig), st.flags)
            except TypeError:
                k = id(st)
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append((st, sig))
        res = []
        for k in order:
            g = groups[k]
            if len(g) == 1:
                res.append(g[0])
                continue
            res.append((self.join([x for x, _ in g]), g[0][1]))
        return res

    def join(self, sts):
        full = []
        exact = True
        for st in sts:
            base = frozenset(st.gmap.items())
            if st.alts:
                full.extend(base | a for a in st.alts)
            else:
                full.append(base)
            exact = exact and st.alts != ()
        full = resolve(full) if exact else full
        common = frozenset.intersection(*full)
        n = sts[0].copy()
        order = []
        for st in sts:
            for x in st.guards:
                if x in common and x not in order:
                    order.append(x)
        for x in sorted(common - set(order), key=repr):
            order.append(x)
        n.guards = tuple(order)
        n.gmap = {t: v for t, v in n.guards}
        rest = [f - common for f in full]
        if not exact or len(rest) > 24:
            n.alts = ()          # inexact
        elif any(not r for r in rest):
            n.alts = None
        else:
            n.alts = tuple(sorted(rest, key=lambda r: repr(sorted(r, key=repr))))
        return n


    def stmt(self, s, st, fr):
        self.tick()
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            return [(st.flag('unsupported statement %s' % type(s).__name__), None)]
        return m(s, st, fr)

    def st_Pass(self, s, st, fr):
        return [(st, None)]

    st_Global = st_Pass

    def st_Nonlocal(self, s, st, fr):
        n = st.copy()
        n.envs = dict(n.envs)
        e = dict(n.envs[fr.fid])
        e['%nonlocal'] = e.get('%nonlocal', ()) + tuple(s.names)
        n.envs[fr.fid] = e
        return [(n, None)]

    def st_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return [(st, None)]
        return [(a, ('exc', v.t) if isinstance(v, Raise) else None) for a, v in self.ev(s.value, st, fr)]

    def st_Import(self, s, st, fr):
        for l, d in self.prog.import_names(fr.mod, s):
            st = st.setvar(fr.fid, l, self.global_term(d))
        out = [(st, None)]
        if st.tries:
            mods = [a.name for a in s.names] if isinstance(s, ast.Import) else [self.prog.rel_import(fr.mod, s)]
            import sys
            known = all((x or '').split('.')[0] in sys.stdlib_module_names or (x or '').split('.')[0] in ('numpy', 'scipy', 'paramz') for x in mods)
            if not known:
                out.append((st, ('exc', ('excnew', 'ImportError'))))
        return out

    st_ImportFrom = st_Import

    def st_FunctionDef(self, s, st, fr):
        f = Func(s.name, s, None, fr.mod, 'function')
        v = ('closure', id(s), fr.fid)
        self.closures = getattr(self, 'closures', {})
        self.closures[v] = (f, fr)
        return [(st.setvar(fr.fid, s.name, v), None)]

    def st_ClassDef(self, s, st, fr):
        return [(st.setvar(fr.fid, s.name, ('unknown', 'local class')).flag('local class'), None)]

    def st_Return(self, s, st, fr):
        if s.value is None:
            return [(st, ('ret', NONE))]
        return [(a, ('exc', v.t) if isinstance(v, Raise) else ('ret', v)) for a, v in self.ev(s.value, st, fr)]

    def st_Assert(self, s, st, fr):
        out = []
        for a, v in self.ev(s.test, st, fr):
            if isinstance(v, Raise):
                out.append((a, ('exc', v.t)))
                continue
            for b, r in self.branch(a, v):
                out.append((b, None if r else ('exc', ('excnew', 'AssertionError'))))
        return out

    def st_Raise(self, s, st, fr):
        if s.exc is None:
            return [(st, ('exc', st.curexc[-1] if st.curexc else ('excnew', '?')))]
        out = []
        for a, v in self.ev(s.exc, st, fr):
            if isinstance(v, Raise):
                out.append((a, ('exc', v.t)))
                continue
            if v[0] == 'new':
                t = ('excnew', v[1])
            elif v[0] == 'class':
                t = ('excnew', v[1])
            elif v[0] == 'global':
                t = ('excnew', v[1].split('.')[-1])
            elif v[0] in ('excval',):
                t = v[1]
            elif v[0] == 'call' and v[1].split('.')[-1][:1].isupper():
                t = ('excnew', v[1].split('.')[-1])
            elif v[0] == 'res' and v[1] and v[1].split('.')[-1][:1].isupper():
                t = ('excnew', v[1].split('.')[-1])
            else:
                t = ('exc', v)
            out.append((a, ('exc', t)))
        return out

    def st_If(self, s, st, fr):
        out = []
        for a, v in self.ev(s.test, st, fr):
            if isinstance(v, Raise):
                out.append((a, ('exc', v.t)))
                continue
            for b, r in self.branch(a, v):
                out.extend(self.block(s.body if r else s.orelse, b, fr))
        return self.merge_next(out, fr)

    def merge_next(self, outs, fr):
        nx = [o for o in outs if o[1] is None]
        return self.merge(nx, fr) + [o for o in outs if o[1] is not None]

    # -------------------------------------------------------------- assignment
    def st_Assign(self, s, st, fr):
        out = []
        for a, v in self.ev(s.value, st, fr):
            if isinstance(v, Raise):
                out.append((a, ('exc', v.t)))
                continue
            if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and (fr.fid, s.targets[0].id) in self.flags and \
                    v[0] in ('lt', 'le', 'eq', 'is', 'in', 'not', 'isinstance', 'truth', 'band', 'bor'):
                # a flag of the loop: true or false, whichever way it is computed
                for b, r in self.branch(a, v):
                    out.extend(self.assign(s.targets[0], const(r), b, fr))
                continue
            outs = [(a, None)]
            for t in s.targets:
                nxt = []
                for b, sig in outs:
                    if sig is not None:
                        nxt.append((b, sig))
                    else:
                        nxt.extend(self.assign(t, v, b, fr))
                outs = nxt
            out.extend(outs)
        return out

    def st_AnnAssign(self, s, st, fr):
        if s.value is None:
            return [(st, None)]
        out = []
        for a, v in self.ev(s.value, st, fr):
            out.extend([(a, ('exc', v.t))] if isinstance(v, Raise) else self.assign(s.target, v, a, fr))
        return out

    def st_AugAssign(self, s, st, fr):
        out = []
        opn = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            load = ast.Name(t.id, ast.Load())
        elif isinstance(t, ast.Attribute):
            load = ast.Attribute(t.value, t.attr, ast.Load())
        else:
            load = ast.Subscript(t.value, t.slice, ast.Load())
        ast.copy_location(load, t)
        for a, vs in self.evs([load, s.value], st, fr):
            if isinstance(vs, Raise):
                out.append((a, ('exc', vs.t)))
                continue
            old, rhs = vs
            if old[0] == 'ref' and opn == 'Add':
                c = self.deref(a, old)
                if c[0] in ('list', 'comp', 'cat'):
                    out.append((a.setref(old[1], self.cat(c, self.as_list(a, rhs))), None))
                    continue
            v = self.binop(opn, self.deref(a, old), self.deref(a, rhs), a)
            if isinstance(t, ast.Name):
                n = a
                # augmented assignment of a name may mutate the object in place
                if old[0] in ('attr', 'param', 'elem', 'sub', 'meth', 'call', 'res') and not T.is_num(rhs) or old[0] in ('param',):
                    n = self.emit(n, Event('inplace', opn, recv=old, val=v, args=(rhs,)), s, fr)
                elif self.arraylike(old) and any(k != t.id and x == old for k, x in a.envs.get(fr.fid, {}).items()):
                    # another name of the function still stands for that object
                    n = self.emit(n, Event('inplace', opn, recv=old, val=v, args=(rhs,)), s, fr)
                out.append((n.setvar(fr.fid, t.id, v), None))
            else:
                out.extend(self.assign(t, v, a, fr, aug=(opn, rhs)))
        return out

    def arraylike(self, v):
        """a value that may be an array: not visibly a number, a string or a tuple"""
        if v[0] in ('lv', 'lvref') and len(v) > 2 and isinstance(v[2], tuple):
            return not T.is_num(v[2])
        if v[0] in ('lin', 'mul', 'poly') and not any(x[0] in ('param', 'res', 'elem', 'sub', 'meth') or x[0] == 'lv' and self.arraylike(x) or
                                                      x[0] == 'attr' and x[2] not in ('size', 'ndim', '_size_') for x in self.leaves(v)):
            return False
        return v[0] in ('lv', 'poly', 'rat', 'lin', 'mul', 'bin') and not T.is_num(v)

    def leaves(self, v):
        out, todo = [], [v]
        while todo:
            x = todo.pop()
            if not isinstance(x, tuple) or not x:
                continue
            if isinstance(x[0], str) and x[0] not in ('lin', 'mul', 'poly', 'const'):
                out.append(x)
            elif not isinstance(x[0], str) or x[0] != 'const':
                todo.extend(c for c in x if isinstance(c, tuple))
        return out

    def assign(self, t, v, st, fr, aug=None):
        """-> [(st, sig)]"""
        if isinstance(t, ast.Name):
            env = st.envs.get(fr.fid, {})
            if t.id in env.get('%nonlocal', ()):
                p = fr.parent
                while p is not None:
                    if t.id in st.envs.get(p.fid, {}):
                        return [(st.setvar(p.fid, t.id, v), None)]
                    p = p.parent
            return [(st.setvar(fr.fid, t.id, v), None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            dv = self.deref(st, v) if v[0] == 'ref' else v
            if any(isinstance(e, ast.Starred) for e in t.elts):
                for e in t.elts:
                    e2 = e.value if isinstance(e, ast.Starred) else e
                    st = self.assign(e2, ('unknown', 'starred'), st, fr)[0][0]
                return [(st, None)]
            outs = [(st, None)]
            for i, e in enumerate(t.elts):
                nxt = []
                for b, sig in outs:
                    if sig is not None:
                        nxt.append((b, sig))
                    else:
                        nxt.extend(self.assign(e, self.subscript(b, dv, const(i)), b, fr))
                outs = nxt
            return outs
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        if isinstance(t, ast.Attribute):
            out = []
            for a, o in self.ev(t.value, st, fr):
                if isinstance(o, Raise):
                    out.append((a, ('exc', o.t)))
                    continue
                out.extend(self.store(a, o, self.mangle(t.attr, fr), v, t, fr, aug))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for a, vs in self.evs([t.value, t.slice], st, fr):
                if isinstance(vs, Raise):
                    out.append((a, ('exc', vs.t)))
                    continue
                out.extend(self.setitem(a, vs[0], vs[1], v, t, fr, aug))
            return out
        return [(st.flag('unsupported target'), None)]

    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__'):
            f = fr
            while f is not None and f.cls is None:
                f = f.parent
            if f is not None:
                return '_%s%s' % (f.cls.name.lstrip('_'), name)
        return name

    def store(self, st, o, name, v, node, fr, aug=None):
        c = self.cls_of(o, fr)
        sf = None
        if c is not None:
            sf = self.prog.find(c, name, setter=True)
            sf = sf if isinstance(sf, Func) else None
        else:
            cands = [k.setters[name] for k in self.prog.classes.values() if name in k.setters]
            if len(cands) == 1 and name not in self.baseline:
                sf = cands[0]
        if sf is not None and (name not in self.baseline or name in self.props) and name not in self.opaque:
            r = self.call_func(st, sf, o, (o, v), (), node, fr)
            if r is not None:
                return [(a, ('exc', x.t) if isinstance(x, Raise) else None) for a, x in r]
        n = self.emit(st, Event('store', name, recv=o, val=v, args=(aug or ())[1:] if aug else ()), node, fr)
        n.events[-1].ext = aug[0] if aug else None
        isprop = name in self.prog.by_prop or any(name in k.setters for k in self.prog.classes.values())
        if isprop or name in ('data',):
            m = self.modset(name) or set()
            n = self.bump(n, set(m) | {name})
            if '*' in m:
                n = self.kill_all(n)
            return self.forkraise(n, name, node, fr)
        return [(self.write_attr(n, o, name, v), None)]

    def forkraise(self, st, name, node, fr, val=None):
        """outcomes of an opaque effect that may raise"""
        out = [(st, val)]
        ev = st.events[-1]
        if self.forks is not None:
            fork = name in self.forks
        else:
            fork = (st.tries and name not in self.noraise) or (self.may_raise and self.may_raise(ev))
        if fork:
            import copy as _c
            e2 = _c.copy(ev)
            e2.raised = True
            n = st.copy()
            n.events = n.events[:-1] + (e2,)
            lit = ('raises', e2.kind, name, e2.recv, e2.args, e2.kw)
            n = self.assume(n, lit, True)
            out[0] = (self.assume(st, lit, False), val)
            out.append((n, ('exc', ('exc', name, len(n.events)))))
        return out

    def setitem(self, st, o, i, v, node, fr, aug=None):
        if o[0] == 'ref':
            c = self.deref(st, o)
            own = o[1] not in st.esc and c[0] in ('dict', 'dictcomp', 'dictcat')
            if c[0] == 'dict':
                i2 = self.deref(st, i)
                items = [kv for kv in c[1] if kv[0] != i2]
                st = st.setref(o[1], ('dict', tuple(items) + ((i2, self.deref(st, v)),)))
            elif c[0] == 'list' and i[0] == 'const' and isinstance(i[1], int) and -len(c[1]) <= i[1] < len(c[1]):
                l = list(c[1])
                l[i[1]] = self.deref(st, v)
                st = st.setref(o[1], ('list', tuple(l)))
            elif i == FULL:
                st = st.setref(o[1], self.as_list(st, v))
            else:
                st = st.setref(o[1], ('setitem', c, self.deref(st, i), self.deref(st, v)))
            if own:
                # known by its content
                return [(st, None)]
        n = self.emit(st, Event('setitem', '__setitem__', recv=o, args=(self.norm_idx(self.deref(st, i)),), val=v), node, fr)
        n.events[-1].ext = aug[0] if aug else None
        if aug:
            n.events[-1].kw = (('aug', self.deref(st, aug[1])),)
        do = self.deref(st, o)
        if do[0] == 'attr':
            n = self.bump(n, (do[2],), keep=None)
        return self.forkraise(n, '__setitem__', node, fr)

    def norm_idx(self, i):
        if i == const(Ellipsis):
            return FULL
        if i == ('slice', NONE, NONE, NONE) or i == ('slice', const(0), NONE, NONE):
            return FULL
        return i

    def st_Delete(self, s, st, fr):
        outs = [(st, None)]
        for t in s.targets:
            nxt = []
            for a, sig in outs:
                if sig is not None:
                    nxt.append((a, sig))
                    continue
                if isinstance(t, ast.Name):
                    nxt.append((a, None))
                elif isinstance(t, ast.Attribute):
                    for b, o in self.ev(t.value, a, fr):
                        if isinstance(o, Raise):
                            nxt.append((b, ('exc', o.t)))
                            continue
                        n = self.emit(b, Event('delattr', self.mangle(t.attr, fr), recv=o), t, fr)
                        nxt.append((self.bump(n, (t.attr,)), None))
                elif isinstance(t, ast.Subscript):
                    for b, vs in self.evs([t.value, t.slice], a, fr):
                        if isinstance(vs, Raise):
                            nxt.append((b, ('exc', vs.t)))
                            continue
                        if vs[0][0] == 'ref':
                            b = b.setref(vs[0][1], ('unknown', 'del'))
                        elif b.tries and vs[0][0] == 'attr' and (self.forks is None or '__delitem__' in self.forks):
                            for c, r in self.branch(b, self.inn(self.deref(b, vs[1]), vs[0])):
                                if r:
                                    c = self.emit(c, Event('delitem', '__delitem__', recv=vs[0], args=(self.norm_idx(vs[1]),)), t, fr)
                                    nxt.append((self.bump(c, (vs[0][2],)), None))
                                else:
                                    nxt.append((c, ('exc', ('excnew', 'KeyError'))))
                            continue
                        n = self.emit(b, Event('delitem', '__delitem__', recv=vs[0], args=(self.norm_idx(vs[1]),)), t, fr)
                        if vs[0][0] == 'attr':
                            n = self.bump(n, (vs[0][2],))
                        if n.tries and (self.forks is None or '__delitem__' in self.forks):
                            m = n.copy()
                            import copy as _c
                            e2 = _c.copy(n.events[-1])
                            e2.raised = True
                            m.events = m.events[:-1] + (e2,)
                            lit = ('raises', e2.kind, e2.name, e2.recv, e2.args, e2.kw)
                            n = self.assume(n, lit, False)
                            nxt.append((self.assume(m, lit, True), ('exc', ('excnew', 'KeyError'))))
                        nxt.append((n, None))
            outs = nxt
        return outs

    def st_Break(self, s, st, fr):
        return [(st, ('brk',))]

    def st_Continue(self, s, st, fr):
        return [(st, ('cont',))]

    # -------------------------------------------------------------- exceptions
    def exc_names(self, node, fr, st):
        if node is None:
            return None
        if isinstance(node, ast.Tuple):
            out = []
            for e in node.elts:
                out.extend(self.exc_names(e, fr, st) or [])
            return out
        v = self.ev(node, st, fr)[0][1]
        v = self.deref(st, v) if not isinstance(v, Raise) else ('unknown',)
        if v[0] in ('tuple', 'list'):
            return [self._excname(x) for x in v[1]]
        return [self._excname(v)]

    def _excname(self, v):
        if v[0] in ('class', 'global'):
            return v[1].split('.')[-1]
        return '?'

    def exc_match(self, t, names):
        """True/False/None"""
        import builtins
        if names is None:
            return True
        if any(n in ('BaseException',) for n in names):
            return True
        if t[0] != 'excnew' or t[1] == '?':
            return None
        x = t[1]

        def bases(n):
            if n in self.prog.classes:
                r = set()
                for k in self.prog.mro(self.prog.classes[n]):
                    r.add(k.name.split('.')[-1])
                return r
            b = getattr(builtins, n, None)
            if isinstance(b, type):
                return {k.__name__ for k in b.__mro__}
            return {'LinAlgError': {'LinAlgError', 'Exception', 'ValueError'}, 'PickleError': {'PickleError', 'Exception'},
                    'UnpicklingError': {'UnpicklingError', 'PickleError', 'Exception'}}.get(n, None)
        bs = bases(x)
        if bs is None:
            return None
        if any(n in bs for n in names):
            return True
        if '?' in names:
            return None
        return False

    _sought = {}

    def sought(self, s):
        """try: i = l.index(x)  except ValueError: ...   looks whether x is in l"""
        if len(s.body) != 1 or s.finalbody or len(s.handlers) != 1 or s.handlers[0].name or not isinstance(s.body[0], (ast.Assign, ast.Return)) or \
                not isinstance(s.handlers[0].type, ast.Name) or s.handlers[0].type.id != 'ValueError':
            return None
        c = s.body[0].value
        if not isinstance(c, ast.Call) or not isinstance(c.func, ast.Attribute) or c.func.attr != 'index' or c.keywords or len(c.args) != 1 or \
                not isinstance(c.func.value, ast.Name) or not isinstance(c.args[0], ast.Name) or any(isinstance(n, ast.Raise) and n.exc is None for h in s.handlers[0].body for n in ast.walk(h)):
            return None
        return ast.fix_missing_locations(ast.copy_location(
            ast.If(ast.Compare(c.args[0], [ast.In()], [c.func.value]), s.body + s.orelse, s.handlers[0].body), s))

    def st_Try(self, s, st, fr):
        k = ('sought', id(s))
        if k not in self._sought:
            self._sought[k] = (self.sought(s), s)
        if self._sought[k][0] is not None:
            return self.block([self._sought[k][0]], st, fr)
        a = st.copy()
        a.tries += 1
        outs = self.block(s.body, a, fr)
        if s.handlers and not any(sig and sig[0] == 'exc' for _, sig in outs):
            # nothing in the body is known to raise: its pure expressions may
            outs = outs + [(a, ('exc', ('exc', 'pure', 0)))]
        res = []
        for o, sig in outs:
            o = o.copy()
            if sig is None:
                if s.orelse:
                    res.extend(self.block(s.orelse, o, fr))
                else:
                    res.append((o, None))
            elif sig[0] == 'exc':
                res.extend(self.handlers(s, o, sig, fr))
            else:
                res.append((o, sig))
        res = [(self._untry(o), sig) for o, sig in res]
        if s.finalbody:
            fin = []
            for o, sig in res:
                for p, sg2 in self.block(s.finalbody, o, fr):
                    fin.append((p, sg2 if sg2 is not None else sig))
            res = fin
        return self.merge_next(res, fr)

    st_TryStar = st_Try

    def _untry(self, o):
        n = o.copy()
        n.tries -= 1
        return n

    def handlers(self, s, o, sig, fr):
        t = sig[1]
        out = []
        live = o
        # what leaves this function as it would without the try statement is not a path of its own
        idle = t[:2] == ('exc', 'pure') and not s.finalbody and o.tries <= 1
        for h in s.handlers:
            names = self.exc_names(h.type, fr, o)
            m = self.exc_match(t, names)
            if m is False:
                continue
            hs = live
            if m is None:
                lit = ('exctype', t, tuple(sorted(names)))
                broad = 'Exception' in names
                hs = self.assume(live, lit, True)
                if not broad:
                    live = self.assume(live, lit, False)
            hs = hs.copy()
            hs.curexc = hs.curexc + (t,)
            if h.name:
                hs = hs.setvar(fr.fid, h.name, ('excval', t))
            # a handler is only protected by finally / outer try
            for p, sg in self.block(h.body, hs, fr):
                p = p.copy()
                p.curexc = p.curexc[:-1]
                out.append((p, sg))
            if m is True:
                return out
            if m is None and broad:
                # KeyboardInterrupt & co still escape
                if not idle:
                    out.append((self.assume(live, lit, False), sig))
                return out
        if not idle:
            out.append((live, sig))
        return out

    def st_With(self, s, st, fr):
        return self.with_items(s, 0, st, fr)

    def with_items(self, s, i, st, fr):
        if i == len(s.items):
            return self.block(s.body, st, fr)
        it = s.items[i]
        out = []
        for a, mgr in self.ev(it.context_expr, st, fr):
            if isinstance(mgr, Raise):
                out.append((a, ('exc', mgr.t)))
                continue
            for b, v in self.method(a, mgr, '__enter__', (), (), it.context_expr, fr):
                if isinstance(v, Raise):
                    out.append((b, ('exc', v.t)))
                    continue
                outs = [(b, None)]
                if it.optional_vars is not None:
                    outs = self.assign(it.optional_vars, v, b, fr)
                for c, sig in outs:
                    if sig is not None:
                        out.append((c, sig))
                        continue
                    c = c.copy()
                    c.tries += 1
                    for d, sg in self.with_items(s, i + 1, c, fr):
                        d = self._untry(d)
                        ex = sg is not None and sg[0] == 'exc'
                        ea = (('exctypeof',), ('excval', sg[1]), ('tb',)) if ex else (NONE, NONE, NONE)
                        for e, r in self.method(d, mgr, '__exit__', ea, (), it.context_expr, fr):
                            if isinstance(r, Raise):
                                out.append((e, ('exc', r.t)))
                            elif ex:
                                for g, tv in self.branch(e, r) if r[0] == 'const' else [(e, False)]:
                                    out.append((g, None if tv else sg))
                            else:
                                out.append((e, sg))
        return out

    # -------------------------------------------------------------- loops
    def st_For(self, s, st, fr):
        out = []
        for a, it in self.ev(s.iter, st, fr):
            if isinstance(it, Raise):
                out.append((a, ('exc', it.t)))
                continue
            dit = self.deref(a, it)
            if dit[0] in ('tuple', 'list') and (len(dit[1]) <= 6 or len(dit[1]) <= 24 and all(x[0] == 'const' for x in dit[1])):
                outs = [(a, None)]
                brk = []
                for x in dit[1]:
                    nxt = []
                    for b, sig in outs:
                        for c, s2 in self.assign(s.target, x, b, fr):
                            if s2 is not None:
                                brk.append((c, s2))
                                continue
                            for d, s3 in self.block(s.body, c, fr):
                                if s3 is None or s3[0] == 'cont':
                                    nxt.append((d, None))
                                elif s3[0] == 'brk':
                                    brk.append((d, None))
                                else:
                                    brk.append((d, s3))
                    outs = self.merge(nxt, fr)
                if s.orelse:
                    o2 = []
                    for b, sig in outs:
                        o2.extend(self.block(s.orelse, b, fr))
                    outs = o2
                out.extend(outs + brk)
                continue
            for b, itn, cases in self.iterate_if(a, dit, s, fr):
                names = assigned_names(s.body)
                tn = set()
                _targets(s.target, tn)

                def bind(x, cases=cases):
                    r = []
                    for y, el in self.pick(x, cases):
                        if el is None:
                            r.extend((z, ('cont',) if sig is None else sig) for z, sig in self.assign(s.target, cases[0][1], y, fr))
                        else:
                            r.extend(self.assign(s.target, el, y, fr))
                    return r
                out.extend(self.loop(b, itn, bind, lambda x: self.block(s.body, x, fr), names - tn, s.orelse, s, fr, tn))
        return self.merge_next(out, fr)

    def iterate_if(self, st, it, node, fr):
        """like iterate, for a filtered sequence: -> [(state, iter-term, [(condition, element-term)])]"""
        x = self.deref(st, it)
        while x[0] == 'call' and x[1] in ('list', 'tuple', 'iter') and len(x[2]) == 1 and not x[3]:
            x = x[2][0]
        if x[0] == 'call' and x[1] in ('map', 'filter') and len(x[2]) == 2:
            x = self.comp_over(st, x[2][1], x[2][0], x[1] == 'filter', node, fr) or x
        if x[0] == 'comp' and 0 < len(x[2]) <= 4 and all(len(c[1]) == 1 and c[1][0][0] != 'star' for c in x[2]) and x[2][0][0] != TRUE:
            by = {}
            for c, (item,) in x[2]:
                by.setdefault(item, []).append(c)
            return [(st, x[1], [(T.bor(*cs) if len(cs) > 1 else cs[0], item) for item, cs in by.items()])]
        return [(a, i, [(TRUE, e)]) for a, i, e in self.iterate(st, it, node, fr)]

    def pick(self, st, cases):
        """which element a generic iteration is about: -> [(state, element-term | None if it does not take part)]"""
        out = []
        live = [st]
        for c, item in cases:
            if c == TRUE:
                return out + [(x, item) for x in live]
            nl = []
            for x in live:
                for y, b in self.branch(x, c):
                    if b:
                        out.append((y, item))
                    else:
                        nl.append(y)
            live = nl
        return out + [(x, None) for x in live]

    def iterate(self, st, it, node, fr):
        """normalise an iterable: -> [(state, iter-term, element-term)]"""
        it = self.deref(st, it)
        for _ in range(12):
            o = it[0]
            if o == 'call' and it[1] in ('list', 'tuple', 'iter', 'numpy.asarray', 'numpy.array', 'set') and len(it[2]) == 1:
                it = it[2][0]
                continue
            if o == 'sub' and it[2] == FULL:
                it = it[1]
                continue
            if o == 'meth' and it[1] == 'copy' and not it[3]:
                it = it[2]
                continue
            break
        o = it[0]
        if o == 'call' and it[1] == 'enumerate':
            start = it[2][1] if len(it[2]) > 1 else const(0)
            return [(a, i, ('tuple', (T.add(('idx', i), start), e))) for a, i, e in self.iterate(st, it[2][0], node, fr)]
        if o == 'call' and it[1] == 'reversed':
            return [(a, ('rev', i), T.subst(e, lambda x: (x[0], ('rev', i)) if x in (('elem', i), ('idx', i)) else None)) for a, i, e in self.iterate(st, it[2][0], node, fr)]
        if o == 'call' and it[1] == 'range':
            ar = it[2]
            if len(ar) == 1 or (len(ar) == 2 and ar[0] == const(0)):
                n = ar[-1]
                if n[0] == 'call' and n[1] == 'len':
                    x = n[2][0]
                    for _ in range(3):
                        if x[0] == 'call' and x[1] in ('list', 'tuple'):
                            x = x[2][0]
                    return [(st, x, ('idx', x))]
                return [(st, ('range', const(0), n, const(1)), ('elem', ('range', const(0), n, const(1))))]
            if len(ar) == 3 and ar[1] == const(-1) and ar[2] == const(-1):
                d, c = T.lin_parts(ar[0])
                if c == -1 and len(d) == 1:
                    (k, v), = d.items()
                    if v == 1 and k[0] == 'call' and k[1] == 'len':
                        x = k[2][0]
                        return [(st, ('rev', x), ('idx', ('rev', x)))]
            r = ('range', ar[0], ar[1], ar[2] if len(ar) > 2 else const(1))
            return [(st, r, ('elem', r))]
        if o == 'call' and it[1] == 'zip':
            its, els = [], []
            a = st
            for x in it[2]:
                r = self.iterate(a, x, node, fr)
                if len(r) != 1:
                    return [(st, it, ('elem', it))]
                a, i, e = r[0]
                its.append(i)
                els.append(e)
            if len(its) == 1:
                return [(a, its[0], ('tuple', tuple(els)))]
            # zip(X, X[1:]) style keeps its own identity
            return [(a, ('zip', tuple(its)), ('tuple', tuple(els)))]
        if o in ('meth', 'res') and it[1] in ('items', 'keys', 'values', 'iteritems', 'itervalues') and not it[3]:
            x = it[2]
            k = ('elem', x)
            if it[1] in ('items', 'iteritems'):
                return [(st, x, ('tuple', (k, ('sub', x, k))))]
            if it[1] == 'keys':
                return [(st, x, k)]
            return [(st, x, ('sub', x, k))]
        if o == 'call' and it[1] == 'sorted' and len(it[2]) == 1 and it[2][0][0] in ('meth', 'res') and it[2][0][1] in ('items', 'keys') and not it[2][0][3]:
            # in the order of the keys: no two items have the same
            x = it[2][0][2]
            srt = ('call', 'sorted', (x,), ())
            el = ('elem', srt)
            if it[2][0][1] == 'keys':
                if not it[3]:
                    return [(st, srt, el)]
            elif not it[3]:
                return [(st, srt, ('tuple', (el, ('sub', x, el))))]
            elif len(it[3]) == 1 and it[3][0][0] == 'key':
                fn = it[3][0][1]
                outs = self.apply(st, fn, (('tuple', (el, ('sub', x, el))),), (), node, fr) if fn[0] in ('closure', 'func') else \
                    [(st, el)] if fn == ('call', 'operator.itemgetter', (const(0),), ()) else []
                if len(outs) == 1 and outs[0][1] == el:
                    return [(st, srt, ('tuple', (el, ('sub', x, el))))]
        if o == 'call' and it[1] in ('map', 'filter') and len(it[2]) == 2:
            c = self.comp_over(st, it[2][1], it[2][0], it[1] == 'filter', node, fr)
            if c is not None:
                it = c
                o = 'comp'
        if o == 'comp':
            if len(it[2]) == 1 and len(it[2][0][1]) == 1 and it[2][0][0] == TRUE:
                return [(st, it[1], it[2][0][1][0])]
        if o == 'cat' and it[1] == ('list', ()):
            return self.iterate(st, it[2], node, fr)
        return [(st, it, ('elem', it))]

    def comp_over(self, st, it, fn, isfilter, node, fr):
        r = self.iterate(st, it, node, fr)
        if len(r) != 1:
            return None
        a, i, el = r[0]
        a0 = a.copy()
        a0.loops = a0.loops + (i,)
        outs = self.apply(a0, fn, (el,), (), node, fr) if fn != NONE else [(a0, el)]
        cases = []
        for b, v in outs:
            if isinstance(v, Raise) or len(b.events) != len(a.events):
                return None
            cond = self.newconds(a, b)
            v = self.deref(b, v)
            if isfilter:
                cases.append((T.band(cond, self.truth(b, v)) if cond != TRUE else self.truth(b, v), (el,)))
            else:
                cases.append((cond, (v,)))
        return ('comp', i, tuple(cases))

    def newconds(self, a, b):
        g = [t if v else T.nott(t) for t, v in b.guards[len(a.guards):]]
        if b.alts and b.alts != a.alts:
            g.append(T.bor(*[T.band(*[t if v else T.nott(t) for t, v in x]) for x in b.alts]))
        return T.band(*g) if g else TRUE

    def loop(self, st, it, bind, body, names, orelse, node, fr, targets=(), cond=None):
        """One generic iteration.  cond(state) -> [(state, bool)] for while loops."""
        lid = self.fresh()
        env0 = st.envs.get(fr.fid, {})
        names = {n for n in names if n in env0}
        flags = {(fr.fid, n) for n in names if env0[n][0] == 'const' and isinstance(env0[n][1], bool)}
        if flags - self.flags:
            was, self.flags = self.flags, self.flags | flags
            try:
                return self.loop(st, it, bind, body, names, orelse, node, fr, targets, cond)
            finally:
                self.flags = was
        lv = {n: ('lv', lid, n) for n in names}

        def run(start):
            out = []
            outs = bind(start) if bind else [(start, None)]
            for b, sig in outs:
                if sig is not None:
                    out.append((b, sig))
                    continue
                if cond:
                    for c, r in cond(b):
                        if isinstance(r, Raise):
                            out.append((c, ('exc', r.t)))
                        elif r:
                            out.extend(body(c))
                        else:
                            out.append((c, ('end',)))
                else:
                    out.extend(body(b))
            return out

        def begin(vals, refvals):
            s = st.copy()
            s.loops = s.loops + (it,)
            for n, v in vals.items():
                s = s.setvar(fr.fid, n, v)
            for r, v in refvals.items():
                s = s.setref(r, v)
            return s
        # pass 1: what does an iteration do to the variables and lists
        refs0 = dict(st.refs)
        p1 = run(begin(lv, {}))
        falls = [o for o, sig in p1 if sig is None or sig[0] == 'cont']
        opened = {r: ('lvref', lid, r) for r, c0 in refs0.items() if any(o.refs.get(r) != c0 for o in falls)}
        if opened:
            # does an iteration read what the earlier ones have put into a list?
            p2 = run(begin(lv, opened))
            falls2 = [o for o, sig in p2 if sig is None or sig[0] == 'cont']
            if self.reads(st, falls2, names, opened, fr):
                p1, falls = p2, falls2
            else:
                opened = {}
        start, end = {}, {}
        chain = None
        carried, carriedr = [], []
        # many-way iterations: no closed forms, each iteration is a step of the loop variables
        step = len(falls) > 12
        for n in sorted(names):
            init = env0[n]
            vals = [(o, o.envs[fr.fid].get(n)) for o in falls]
            me = lv[n]
            start[n], end[n] = me, ('lvend', lid, n)
            if step and vals and not all(v == me for _, v in vals) and init[0] != 'ref':
                self.lvinfo[(lid, n)] = (self.deref(st, init), frozenset((TRUE, self.deref(o, v) if v is not None else NONE) for o, v in vals))
                carried.append(n)
                self.stepped.add((lid, n))
                continue
            if not vals:
                start[n] = init
                end[n] = init
                continue
            if all(v == me for _, v in vals):
                start[n] = end[n] = init
                continue
            self.lvinfo[(lid, n)] = (self.deref(st, init), frozenset((self.newconds(st, o), self.deref(o, v) if v is not None else NONE) for o, v in vals))
            if init[0] == 'ref':
                continue
            deltas = []
            ok = True
            for o, v in vals:
                v = self.deref(o, v)
                d, c = T.lin_parts(v)
                if d.get(me) == 1:
                    d = dict(d)
                    del d[me]
                    e = T.lin(d, c)
                    if any(x[0] == 'lv' and x[1] == lid for x in T.walk(e)):
                        ok = False
                    deltas.append((self.newconds(st, o), e))
                else:
                    ok = False
            if ok:
                es = {e for _, e in deltas}
                if len(es) == 1:
                    cases = ((TRUE, es.pop()),)
                else:
                    cases = tuple(sorted(((c, e) for c, e in deltas if e != const(0)), key=repr))
                start[n] = T.add(init, self.mksum('prefix', it, cases))
                end[n] = T.add(init, self.mksum('sum', it, cases))
                continue
            v = vals[0][1]
            if len({self.deref(o, x) for o, x in vals}) == 1 and v[0] == 'attr' and v[1] == me:
                chain = (n, init, v[2])
                continue
            if all(not any(x[0] == 'lv' and x[1] == lid and x[2] in names for x in T.walk(self.deref(o, v))) for o, v in vals):
                # last value wins
                end[n] = None
        for n in sorted(names):
            if n not in carried and not (chain and chain[0] == n) and start[n] == lv[n] and end[n] == ('lvend', lid, n) and env0[n][0] != 'ref':
                carried.append(n)
                self.stepped.add((lid, n))
        rstart, rend = {}, {}
        for r, c0 in refs0.items():
            cs = [(o, o.refs.get(r)) for o in falls]
            if all(c == c0 for _, c in cs):
                continue
            if step:
                self.lvinfo[(lid, r)] = (self.deref(st, c0), frozenset())
                rstart[r] = ('lvref', lid, r)
                rend[r] = ('lvrefend', lid, r)
                carriedr.append(r)
                self.stepped.add((lid, r))
                continue
            cases = []
            good = True
            ends = set(opened.values())
            for o, c in cs:
                items = self.appended(opened.get(r, c0), c)
                if items is None:
                    good = False
                    break
                if items:
                    cases.append((self.newconds(st, o), tuple(self.deref(o, x) for x in items)))
            if good and ends and any(x in ends for c in cases for y in (c[0],) + c[1] for x in T.walk(y)):
                good = False
            ext = self.extended(st, c0, cs) if not opened else None
            if ext is not None:
                rstart[r] = self.build(c0, ('comp', ('nest', (('before', it),) + ext[0]), ext[1]))
                rend[r] = self.build(c0, ('comp', ('nest', (it,) + ext[0]), ext[1]))
            elif good:
                if len({c[1] for c in cases}) == 1 and len(cases) == len(cs):
                    cases = [(TRUE, cases[0][1])]
                cases = tuple(sorted(set(cases), key=repr))
                rstart[r] = self.build(c0, ('comp', ('before', it), cases))
                rend[r] = self.build(c0, ('comp', it, cases))
            else:
                self.lvinfo[(lid, r)] = (self.deref(st, c0), frozenset((self.newconds(st, o), self.deref(o, c) if c is not None else NONE) for o, c in cs))
                rstart[r] = ('lvref', lid, r)
                rend[r] = ('lvrefend', lid, r)
        if chain:
            n, init, a = chain
            itc = ('chain', self.deref(st, init), a)
            start[n], end[n] = ('elem', itc), ('chainend', self.deref(st, init), a)
            if a == '_parent_':
                end[n] = NONE
            it = itc
        # heap effects of earlier iterations
        stored = set()
        for o, sig in p1:
            for e in o.events[len(st.events):]:
                if e.kind in ('store', 'delattr'):
                    stored.add(e.name)
            if o.epoch != st.epoch:
                stored.add('*')
        st2 = self.bump(st, stored - {'*'}) if stored else st
        if '*' in stored:
            st2 = self.kill_all(st2)
        for n, v in start.items():
            st2 = st2.setvar(fr.fid, n, v)
        for r, v in rstart.items():
            st2 = st2.setref(r, v)
        b = st2.copy()
        b.loops = b.loops + (it,)
        if chain:
            b = self.assume(b, T.iss(('elem', it), NONE), False)
        outs = run(b)
        if not cond and not chain and not step:
            outs = self.search(st2, b, it, outs, rend, all(end[n] == env0[n] for n in end), fr)
            if outs and outs[0][1] == ('searched',):
                final = []
                for o, sig in outs[1:]:
                    if sig is None and orelse:
                        final.extend(self.block(orelse, o, fr))
                    else:
                        final.append((o, None if sig == ('brk',) else sig))
                return final
        res = []
        for o, sig in outs:
            o = o.copy()
            o.loops = st.loops
            if sig is None or sig[0] in ('cont', 'end'):
                if sig is None or sig[0] == 'cont':
                    for n in carried:
                        cv = o.envs[fr.fid].get(n)
                        if cv and cv[0] in ('band', 'bor') and len(cv[1]) == 2 and lv[n] in cv[1] and T.is_boolish(env0.get(n, NONE)):
                            # a flag, and True; a flag, and False
                            c = [x for x in cv[1] if x != lv[n]][0]
                            if T.is_const(c, True) or T.is_const(c, False):
                                cv = lv[n] if c[1] == (cv[0] == 'band') else c
                        if cv != lv[n]:
                            o.loops = st.loops + (it,)
                            o = self.emit(o, Event('carry', None, recv=lv[n], val=cv if cv is not None else NONE), node, fr)
                            o.loops = st.loops
                    for r in carriedr:
                        if o.refs.get(r) != ('lvref', lid, r):
                            o.loops = st.loops + (it,)
                            o = self.emit(o, Event('carry', 'list', recv=('lvref', lid, r), val=o.refs.get(r)), node, fr)
                            o.loops = st.loops
                for n in names:
                    if sig is not None and sig[0] == 'end':
                        o = o.setvar(fr.fid, n, end[n] if end[n] is not None else ('lvend', lid, n))
                    elif end[n] is not None:
                        o = o.setvar(fr.fid, n, end[n])
                for r, v in rend.items():
                    o = o.setref(r, v)
                if sig is not None and sig[0] == 'end':
                    pass
                res.append((o, 'done', sig))
            elif sig[0] == 'brk':
                n = o.copy()
                e = Event('break', recv=None)
                n = self.emit(o, e, node, fr)
                n.events[-1].args = (it,)
                res.append((n, 'brk', None))
            else:
                res.append((o, 'sig', sig))
        final = []
        if cond:
            # the zero-iteration / final test exit and the generic iteration describe the same loop:
            # drop the pure exit path when some iteration path falls through
            falls = [x for x in res if x[1] == 'done' and not (x[2] and x[2][0] == 'end')]
            ends = [x for x in res if x[1] == 'done' and x[2] and x[2][0] == 'end']
            res = [x for x in res if x[1] != 'done'] + (falls if falls else ends)
        for o, k, sig in res:
            if k == 'done':
                if orelse:
                    final.extend(self.block(orelse, o, fr))
                else:
                    final.append((o, None))
            elif k == 'brk':
                final.append((o, None))
            else:
                final.append((o, sig))
        return final

    def search(self, st, b, it, outs, rend, still, fr):
        """a loop whose iterations do nothing until one of them leaves it: the effects of leaving happen once, for the
        first element that matches"""
        falls = [o for o, sig in outs if sig is None or sig[0] == 'cont']
        exits = [(o, sig) for o, sig in outs if not (sig is None or sig[0] == 'cont')]
        n0 = len(st.events)
        if not falls or not exits or rend or not still or any(len(o.events) != n0 or o.refs != b.refs or o.epoch != b.epoch for o in falls):
            return outs
        if any(sig[0] == 'end' for _, sig in exits):
            return outs
        dnf = []
        for o, sig in exits:
            g = frozenset(o.guards[len(b.guards):])
            dnf.extend([g | a for a in o.alts] if o.alts and o.alts != b.alts else [g])
        conds = [T.band(*[t if v else T.nott(t) for t, v in g]) if g else TRUE for g in resolve(dnf)]
        lit = ('any', it, ((TRUE, T.bor(*conds)),)) if TRUE not in conds else None
        res = [(st, ('searched',))]
        for o, sig in exits:
            n = o.copy()
            n.loops = st.loops
            ev = []
            for e in o.events[n0:]:
                if e.loops[len(st.loops):len(st.loops) + 1] == (it,):
                    e2 = copy.copy(e)
                    e2.loops = e.loops[:len(st.loops)] + e.loops[len(st.loops) + 1:]
                    ev.append(e2)
                else:
                    ev.append(e)
            n.events = st.events + tuple(ev)
            if lit is not None:
                n = self.assume(n, lit, True)
            res.append((n, ('brk',) if sig[0] == 'brk' else sig))
        f = st.copy()
        env = {}
        same = [o.envs.get(fr.fid, {}) for o in falls]
        e = dict(f.envs.get(fr.fid, {}))
        for k in same[0]:
            if k not in e:
                e[k] = same[0][k] if all(x.get(k) == same[0][k] for x in same) else ('unknown', k)
        f.envs = dict(f.envs)
        f.envs[fr.fid] = e
        f.flags = frozenset().union(*[o.flags for o in falls])
        if lit is not None:
            f = self.assume(f, lit, False)
        res.append((f, None))
        return res

    def mksum(self, kind, it, cases):
        if len(cases) == 1 and cases[0][0] == TRUE and T.is_num(cases[0][1]):
            c = cases[0][1]
            base = ('idx', it) if kind == 'prefix' else ('call', 'len', (it,), ())
            return T.mul(c, base)
        if kind == 'prefix' and len(cases) == 1 and cases[0][0] == TRUE:
            # sum over the elements before this one
            return ('sum', ('sub', it, ('slice', NONE, ('idx', it), NONE)), ((TRUE, T.subst(cases[0][1], lambda x: ('elem', ('sub', it, ('slice', NONE, ('idx', it), NONE))) if x == ('elem', it) else None)),))
        return (kind, it, cases)

    def reads(self, st, outs, names, opened, fr):
        """whether what an iteration does depends on what is in the lists it starts with"""
        them = set(opened.values())

        def has(t):
            return t is not None and any(x in them for x in T.walk(t))
        for o in outs:
            if has(self.newconds(st, o)) or any(has(self.deref(o, v)) for n, v in o.envs[fr.fid].items() if n in names and v[0] != 'ref'):
                return True
            for r, me in opened.items():
                c = o.refs.get(r)
                if c == me:
                    continue
                items = self.appended(me, c)
                if items is None and c is not None and c[0] == 'setitem':
                    items = ()
                    while c[0] == 'setitem' and len(c) == 4:
                        items, c = items + c[2:], c[1]
                    if c != me:
                        return True
                elif items is None:
                    if c is not None and c[0] == 'cat' and c[1] == me:
                        items = (c[2],)
                    else:
                        return True
                if any(has(self.deref(o, x)) for x in items):
                    return True
        return False

    def appended(self, c0, c):
        """items added at the end of list content c0 giving c, or None"""
        if c == c0:
            return ()
        if c is None:
            return None
        if c[0] == 'list' and c0[0] == 'list' and c[1][:len(c0[1])] == c0[1]:
            return c[1][len(c0[1]):]
        if c[0] == 'cat' and c[1] in (c0, self.bare(c0)) and c[2][0] == 'list':
            return c[2][1]
        if c[0] == 'cat' and c[1] in (c0, self.bare(c0)) and c[2][0] == 'comp':
            return (('star', c[2]),)
        if c0 == ('list', ()) and c[0] == 'comp':
            return (('star', c),)
        if c0[0] == 'dict' and c[0] == 'dict' and len(c[1]) == len(c0[1]) + 1 and c[1][:-1] == c0[1]:
            return (('tuple', c[1][-1]),)
        return None

    def extended(self, st, c0, cs):
        """every iteration adds all elements of one collection: (the inner iterables, the cases), or None"""
        if c0[0] == 'dict':
            return None
        xs, conds = set(), []
        for o, c in cs:
            if c is None:
                return None
            if c == c0:
                continue
            if c[0] == 'cat' and c[1] in (c0, self.bare(c0)):
                x = c[2]
            elif c0 == ('list', ()) and c[0] not in ('list', 'cat'):
                x = c
            else:
                return None
            if self.bare(self.deref(o, x))[0] == 'list':
                return None
            xs.add(self.bare(self.deref(o, x)))
            conds.append(self.newconds(st, o))
        if len(xs) != 1:
            return None
        x = xs.pop()
        c = TRUE if len(conds) == len(cs) else conds[0] if len(conds) == 1 else T.bor(*conds)
        if x[0] == 'comp':
            if c != TRUE:
                return None
            return (x[1][1] if x[1][0] == 'nest' else (x[1],)), x[2]
        if x[0] in ('list', 'tuple', 'dict', 'const'):
            return None
        return (x,), ((c, (('elem', x),)),)

    def build(self, c0, comp):
        """what a loop makes of a list or dict"""
        if c0[0] != 'dict':
            return self.cat(c0, comp)
        return ('dictcomp', comp) if c0 == ('dict', ()) else ('dictcat', c0, ('dictcomp', comp))

    def bare(self, x):
        return x[2][0] if x[0] == 'call' and x[1] in ('tuple', 'list') and len(x[2]) == 1 else x

    def cat(self, a, b):
        a, b = self.bare(a), self.bare(b)
        if a == ('list', ()):
            return b
        if b == ('list', ()):
            return a
        if a[0] == 'list' and b[0] == 'list':
            return ('list', a[1] + b[1])
        if a[0] == 'cat' and a[2][0] == 'list' and b[0] == 'list':
            return ('cat', a[1], ('list', a[2][1] + b[1]))
        return ('cat', a, b)

    def as_list(self, st, v):
        v = self.deref(st, v)
        if v[0] == 'tuple':
            return ('list', v[1])
        return v

    def st_While(self, s, st, fr):
        names = assigned_names(s.body) | assigned_names([ast.Expr(s.test)])

        def cond(x):
            out = []
            for a, v in self.ev(s.test, x, fr):
                if isinstance(v, Raise):
                    out.append((a, v))
                else:
                    out.extend(self.branch(a, v))
            return out
        try:
            c0 = self.ev(s.test, st, fr)
            ct = self.deref(c0[0][0], c0[0][1]) if len(c0) == 1 and not isinstance(c0[0][1], Raise) else ('?',)
        except TooComplex:
            raise
        it = ('while', ct)
        return self.merge_next(self.loop(st, it, None, lambda x: self.block(s.body, x, fr), names, s.orelse, s, fr, cond=cond), fr)

    # ================================================================= expressions
    def evs(self, nodes, st, fr):
        """evaluate left to right -> [(st, [terms]) | (st, Raise)]"""
        res = [(st, [])]
        for n in nodes:
            nxt = []
            for a, vs in res:
                if isinstance(vs, Raise):
                    nxt.append((a, vs))
                    continue
                for b, v in self.ev(n, a, fr):
                    nxt.append((b, v if isinstance(v, Raise) else vs + [v]))
            res = nxt
        return res

    def ev(self, n, st, fr):
        self.tick()
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            return [(st.flag('unsupported expression %s' % type(n).__name__), ('unknown', type(n).__name__))]
        return m(n, st, fr)

    def ev_Constant(self, n, st, fr):
        return [(st, const(n.value))]

    def ev_Name(self, n, st, fr):
        return [(st, self.name(n.id, st, fr))]

    def name(self, nm, st, fr):
        f = fr
        while f is not None:
            e = st.envs.get(f.fid)
            if e and nm in e:
                return e[nm]
            f = f.parent
        d = self.prog.resolve_name(fr.mod, nm)
        if d.startswith('builtins.') and not hasattr(builtins, d[9:]):
            return UNBOUND
        return self.global_term(d)

    def global_term(self, d):
        r = self.prog.lookup(d)
        if isinstance(r, Cls):
            return ('class', r.name)
        if isinstance(r, Func):
            return ('func', r.qual, r.name)
        if isinstance(r, tuple) and r[0] == 'const':
            return self.module_const(r[1], r[2])
        if isinstance(r, tuple) and r[0] == 'ext':
            return ('global', r[1])
        if d.startswith('builtins.'):
            b = d[9:]
            if b == 'None':
                return NONE
            if b in ('True', 'False'):
                return const(b == 'True')
            return ('global', d)
        return self.ext_const(d)

    def ext_const(self, d):
        if d in ('numpy.Inf', 'numpy.infty', 'numpy.PINF', 'math.inf'):
            d = 'numpy.inf'
        return ('global', d)

    def module_const(self, m, name):
        cache = self.prog.__dict__.setdefault('_consts', {})
        k = (m.name, name)
        if k in cache:
            return cache[k]
        cache[k] = ('global', m.name + '.' + name)
        v = m.consts[name]
        if name not in m.multi and isinstance(v, (ast.Constant, ast.UnaryOp, ast.BinOp, ast.Tuple, ast.Attribute, ast.Name)):
            sub = Analysis(self.prog)
            fr = Frame(0, None, None, m, None, None, None, 0, None)
            r = sub.ev(v, St(), fr)
            if len(r) == 1 and not isinstance(r[0][1], Raise) and not r[0][0].flags:
                cache[k] = sub.deref(r[0][0], r[0][1])
        return cache[k]

    def ev_Attribute(self, n, st, fr):
        out = []
        for a, o in self.ev(n.value, st, fr):
            if isinstance(o, Raise):
                out.append((a, o))
                continue
            out.extend(self.getattr_(a, o, self.mangle(n.attr, fr), n, fr))
        return out

    def getattr_(self, st, o, name, node, fr):
        if o[0] == 'global':
            return [(st, self.global_term(o[1] + '.' + name))]
        if o[0] == 'class':
            c = self.prog.classes.get(o[1])
            f = self.prog.find(c, name) if c else None
            if isinstance(f, Func):
                return [(st, ('func', f.qual, f.name))]
            if isinstance(f, tuple) and f[0] == 'attr' and isinstance(f[2], ast.Constant):
                return [(st, const(f[2].value))]
            return [(st, self.read_attr(st, o, name))]
        if o[0] == 'super':
            return [(st, ('attr', o, name, 0))]
        c = self.cls_of(o, fr)
        pf = None
        if c is not None:
            r = self.prog.find(c, name)
            if isinstance(r, Func) and r.kind == 'property':
                pf = r
        elif (o[0] in ('attr', 'param', 'elem', 'sub', 'res', 'lv', 'chainend', 'new', 'self')):
            cands = self.prog.by_prop.get(name, ())
            if len(cands) == 1 and name not in self.baseline:
                pf = cands[0]
            elif name in self.inline_cls and name in self.prog.by_prop:
                r = self.prog.find(self.prog.cls(self.inline_cls[name]), name)
                pf = r if isinstance(r, Func) else None
        if pf is not None and name not in self.opaque and (name not in self.baseline or name in self.props):
            r = self.call_func(st, pf, o, (o,), (), node, fr)
            if r is not None:
                return r
        if c is not None and not isinstance(pf, Func):
            r = self.prog.find(c, name)
            if isinstance(r, tuple) and r[0] == 'attr' and name not in getattr(self.prog, 'symbolic', ()) and (o, name) not in st.heap and not self.stored_anywhere(name):
                v = self.ev(r[2], St(), Frame(0, None, r[1], r[1].mod, None, None, None, 0, None))
                if len(v) == 1 and not isinstance(v[0][1], Raise) and v[0][1][0] in ('const', 'global', 'class'):
                    return [(st, v[0][1])]
                if name not in self.baseline and len(v) == 1 and not isinstance(v[0][1], Raise):
                    d = self.deref(v[0][0], v[0][1])
                    frozen = d[0] == 'tuple'
                    if d[0] == 'call' and d[1] in ('frozenset', 'set', 'tuple') and len(d) == 4 and len(d[2]) == 1 and not d[3]:
                        frozen = d[1] != 'set'
                        d = self.deref(v[0][0], d[2][0])
                    if (frozen or self.only_looked_at(name)) and d[0] in ('tuple', 'list', 'set') and len(d) == 2 and all(x[0] == 'const' for x in d[1]):
                        return [(st, d)]
        return [(st, self.read_attr(st, o, name))]

    def only_looked_at(self, name):
        """Every use of the attribute tests membership in it or loops over it: nothing can change what it holds."""
        s = self.prog.__dict__.setdefault('_lookedat', {})
        if name not in s:
            ok = True
            for m in self.prog.mods.values():
                good = set()
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Compare) and all(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops):
                        good.update(id(x) for x in n.comparators)
                    elif isinstance(n, (ast.For, ast.comprehension)):
                        good.add(id(n.iter))
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and n.attr == name and id(n) not in good:
                        ok = False
                    elif isinstance(n, ast.Constant) and n.value == name:
                        ok = False
            s[name] = ok
        return s[name]

    def stored_anywhere(self, name):
        s = self.prog.__dict__.setdefault('_stored', None)
        if s is None:
            s = set()
            for m in self.prog.mods.values():
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        s.add(x.attr)
            self.prog._stored = s
        return name in s

    def cls_of(self, t, fr):
        if t in self.types:
            return self.types[t]
        if t[0] == 'new':
            return self.prog.classes.get(t[1])
        return None

    def ev_Subscript(self, n, st, fr):
        out = []
        for a, vs in self.evs([n.value, n.slice], st, fr):
            if isinstance(vs, Raise):
                out.append((a, vs))
                continue
            o, i = vs
            c = self.cls_of(o, fr)
            f = self.prog.find(c, '__getitem__') if c is not None else None
            if isinstance(f, Func) and '__getitem__' in self.inline:
                r = self.call_func(a, f, o, (o, i), (), n, fr)
                if r is not None:
                    out.extend(r)
                    continue
            out.append((a, self.subscript(a, o, self.deref(a, i))))
        return out

    def subscript(self, st, o, i):
        i = self.norm_idx(i)
        d = self.deref(st, o) if o[0] == 'ref' else o
        if d[0] in ('tuple', 'list') and i[0] == 'const' and isinstance(i[1], int) and -len(d[1]) <= i[1] < len(d[1]):
            return d[1][i[1]]
        if d[0] == 'dict' and i[0] == 'const':
            for k, v in reversed(d[1]):
                if k == i:
                    return v
        if d[0] == 'attr' and i == const(-1) and st.events:
            # just appended
            e = st.events[-1]
            if e.kind == 'call' and e.name == 'append' and len(e.args) == 1 and e.loops == st.loops and e.recv is not None and \
                    e.recv[:3] == d[:3] and not e.raised:
                return e.args[0]
        if i[0] == 'idx' and i[1] == d:
            return ('elem', d)
        if i[0] == 'idx' and i[1] == ('rev', d):
            return ('elem', ('rev', d))
        if d[0] == 'cat' and d[1][0] == 'list' and i[0] == 'const' and isinstance(i[1], int) and 0 <= i[1] < len(d[1][1]):
            return d[1][1][i[1]]
        if d[0] == 'call' and d[1] in ('tuple', 'list') and len(d[2]) == 1 and i[0] == 'const':
            return self.subscript(st, d[2][0], i)
        if d[0] == 'sub' and d[2][0] == 'slice' and len(d[2]) == 4 and d[2][1] in (NONE, const(0)) and d[2][3] in (NONE, const(1)) and T.is_num(d[2][2]) and \
                T.is_num(i) and 0 <= i[1] < d[2][2][1]:
            return self.subscript(st, d[1], i)      # one of the first few
        return ('sub', d, i)

    def ev_Slice(self, n, st, fr):
        parts = [n.lower, n.upper, n.step]
        out = []
        for a, vs in self.evs([p if p is not None else ast.Constant(None) for p in parts], st, fr):
            out.append((a, vs if isinstance(vs, Raise) else self.norm_idx(('slice',) + tuple(self.deref(a, v) for v in vs))))
        return out

    def ev_Tuple(self, n, st, fr):
        return self._seq(n, st, fr, 'tuple')

    def ev_List(self, n, st, fr):
        out = []
        for a, v in self._seq(n, st, fr, 'list'):
            if isinstance(v, Raise):
                out.append((a, v))
                continue
            out.append(self.newref(a, v))
        return out

    def newref(self, st, content):
        r = self.fresh()
        return (st.setref(r, content), ('ref', r))

    def _seq(self, n, st, fr, op):
        out = []
        starred = any(isinstance(e, ast.Starred) for e in n.elts)
        for a, vs in self.evs([e.value if isinstance(e, ast.Starred) else e for e in n.elts], st, fr):
            if isinstance(vs, Raise):
                out.append((a, vs))
                continue
            if starred:
                xs = []
                for e, v in zip(n.elts, vs):
                    if isinstance(e, ast.Starred):
                        d = self.deref(a, v)
                        if d[0] in ('tuple', 'list'):
                            xs.extend(d[1])
                        else:
                            xs.append(('star', d))
                    else:
                        xs.append(v)
                vs = xs
                if len(vs) == 1 and vs[0][0] == 'star':
                    out.append((a, ('call', op, (vs[0][1],), ())))
                    continue
            out.append((a, (op, tuple(vs))))
        return out

    def ev_Set(self, n, st, fr):
        return [(a, v if isinstance(v, Raise) else ('set', v[1])) for a, v in self._seq(n, st, fr, 'list')]

    def ev_Dict(self, n, st, fr):
        if any(k is None for k in n.keys):
            out = []
            for a, vs in self.evs([v for k, v in zip(n.keys, n.values)], st, fr):
                out.append((a, vs) if isinstance(vs, Raise) else self.newref(a, ('unknown', 'dict**')))
            return out
        out = []
        ns = []
        for k, v in zip(n.keys, n.values):
            ns += [k, v]
        for a, vs in self.evs(ns, st, fr):
            if isinstance(vs, Raise):
                out.append((a, vs))
                continue
            items = tuple((self.deref(a, vs[i]), vs[i + 1]) for i in range(0, len(vs), 2))
            out.append(self.newref(a, ('dict', items)))
        return out

    def ev_JoinedStr(self, n, st, fr):
        vals = [v.value for v in n.values if isinstance(v, ast.FormattedValue)]
        out = []
        for a, vs in self.evs(vals, st, fr):
            if isinstance(vs, Raise):
                out.append((a, vs))
                continue
            it = iter(vs)
            parts = []
            for v in n.values:
                if isinstance(v, ast.Constant):
                    parts.append(const(v.value))
                else:
                    x = self.deref(a, next(it))
                    parts.append(x)
            out.append((a, self.mkstr(parts)))
        return out

    def mkstr(self, parts):
        """string concatenation normal form"""
        xs = []
        for p in parts:
            if p[0] == 'strcat':
                xs.extend(p[1])
            else:
                xs.append(p)
        ys = []
        for p in xs:
            if p[0] == 'call' and p[1] == 'str' and len(p[2]) == 1:
                p = p[2][0]
            if p == const(''):
                continue
            if ys and p[0] == 'const' and isinstance(p[1], str) and ys[-1][0] == 'const' and isinstance(ys[-1][1], str):
                ys[-1] = const(ys[-1][1] + p[1])
            else:
                ys.append(p)
        if not ys:
            return const('')
        if len(ys) == 1 and ys[0][0] == 'const' and isinstance(ys[0][1], str):
            return ys[0]
        return ('strcat', tuple(ys))

    def ev_Lambda(self, n, st, fr):
        f = Func('<lambda>', n, None, fr.mod, 'function')
        v = ('closure', id(n), fr.fid)
        self.closures = getattr(self, 'closures', {})
        self.closures[v] = (f, fr)
        return [(st, v)]

    def ev_NamedExpr(self, n, st, fr):
        out = []
        for a, v in self.ev(n.value, st, fr):
            out.append((a, v) if isinstance(v, Raise) else (a.setvar(fr.fid, n.target.id, v), v))
        return out

    def ev_Starred(self, n, st, fr):
        return [(a, v if isinstance(v, Raise) else ('star', self.deref(a, v))) for a, v in self.ev(n.value, st, fr)]

    def ev_Yield(self, n, st, fr):
        out = []
        for a, v in self.ev(n.value, st, fr) if n.value else [(st, NONE)]:
            if isinstance(v, Raise):
                out.append((a, v))
                continue
            # the consumer runs before the generator goes on
            out.append((self.kill_all(self.emit(a, Event('yield', val=v), n, fr)), NONE))
        return out

    def ev_YieldFrom(self, n, st, fr):
        out = []
        for a, v in self.ev(n.value, st, fr):
            if isinstance(v, Raise):
                out.append((a, v))
                continue
            for b, i, cases in self.iterate_if(a, v, n, fr):
                c = b.copy()
                c.loops = c.loops + (i,)
                for x, el in self.pick(c, cases):
                    x = (self.kill_all(self.emit(x, Event('yield', val=el), n, fr)) if el is not None else x).copy()
                    x.loops = b.loops
                    out.append((x, NONE))
        return out

    # -------------------------------------------------------------- operators
    def ev_BinOp(self, n, st, fr):
        out = []
        for a, vs in self.evs([n.left, n.right], st, fr):
            if isinstance(vs, Raise):
                out.append((a, vs))
                continue
            l, r = self.deref(a, vs[0]), self.deref(a, vs[1])
            v = self.binop(type(n.op).__name__, l, r, a)
            if v[0] in ('list', 'cat') and (vs[0][0] == 'ref' or vs[1][0] == 'ref'):
                out.append(self.newref(a, v))
            else:
                out.append((a, v))
        return out

    def binop(self, op, l, r, st=None):
        if op == 'Add':
            seqcall = any(x[0] == 'call' and x[1] in ('tuple', 'list', 'sorted') for x in (l, r))
            if (T.is_seq(l) or l[0] in ('strcat',)) or (T.is_seq(r) or r[0] in ('strcat',)) or seqcall:
                if any(x[0] == 'strcat' or (x[0] == 'const' and isinstance(x[1], str)) for x in (l, r)):
                    return self.mkstr([l, r])
                if l[0] == 'tuple' and r[0] == 'tuple':
                    return ('tuple', l[1] + r[1])
                return self.cat(l, r)
            return T.add(l, r)
        if op == 'Sub':
            return T.sub(l, r)
        if op == 'Mult':
            if l[0] in ('list', 'tuple') or r[0] in ('list', 'tuple'):
                return ('rep', l, r)
            return T.mul(l, r)
        if op == 'BitAnd':
            return T.band(l, r)
        if op == 'BitOr':
            return T.bor(l, r)
        if op == 'Div' and T.is_num(r) and r[1] not in (0,):
            return T.mul(const(1.0 / r[1]), l) if not T.is_num(l) else const(l[1] / r[1])
        if T.is_num(l) and T.is_num(r):
            try:
                return const({'Div': lambda: l[1] / r[1], 'Pow': lambda: l[1] ** r[1], 'FloorDiv': lambda: l[1] // r[1], 'Mod': lambda: l[1] % r[1]}[op]())
            except Exception:
                pass
        if op == 'Mod' and l[0] == 'const' and isinstance(l[1], str):
            return ('fstr', l, r)
        return ('bin', op, l, r)

    def ev_UnaryOp(self, n, st, fr):
        out = []
        for a, v in self.ev(n.operand, st, fr):
            if isinstance(v, Raise):
                out.append((a, v))
                continue
            d = self.deref(a, v)
            if isinstance(n.op, ast.Not):
                t = self.truth(a, d)
                out.append((a, T.nott(t)))
            elif isinstance(n.op, ast.USub):
                out.append((a, T.neg(d)))
            elif isinstance(n.op, ast.Invert):
                out.append((a, T.bnot(d)))
            else:
                out.append((a, d))
        return out

    def ev_BoolOp(self, n, st, fr):
        isand = isinstance(n.op, ast.And)
        # pure boolean operands: one term, no split
        terms = []
        s = st
        pure = True
        for x in n.values:
            r = self.ev(x, s, fr)
            if len(r) != 1 or isinstance(r[0][1], Raise) or len(r[0][0].events) != len(st.events) or not T.is_boolish(r[0][1]):
                pure = False
                break
            s = r[0][0]
            terms.append(r[0][1])
        if pure and not any(t[0] == 'const' for t in terms):
            return [(st, (T.band if isand else T.bor)(*terms))]
        out = []
        live = [(st, None)]
        for i, x in enumerate(n.values):
            nxt = []
            for a, _ in live:
                for b, v in self.ev(x, a, fr):
                    if isinstance(v, Raise) or i == len(n.values) - 1:
                        out.append((b, v))
                        continue
                    for c, r in self.branch(b, v):
                        if r == isand:
                            nxt.append((c, None))
                        else:
                            t = self.truth(c, v)
                            out.append((c, const(r) if T.is_boolish(v) else v))
            live = nxt
        return out

    def ev_Compare(self, n, st, fr):
        out = []
        for a, vs in self.evs([n.left] + n.comparators, st, fr):
            if isinstance(vs, Raise):
                out.append((a, vs))
                continue
            vs = [self.deref(a, v) for v in vs]
            ts = []
            for op, l, r in zip(n.ops, vs, vs[1:]):
                ts.append(self.compare(type(op).__name__, l, r))
            out.append((a, ts[0] if len(ts) == 1 else T.band(*ts)))
        return out

    def compare(self, op, l, r):
        if op == 'Eq':
            return T.eq(l, r)
        if op == 'NotEq':
            return T.nott(T.eq(l, r))
        if op == 'Lt':
            return T.lt(l, r)
        if op == 'Gt':
            return T.lt(r, l)
        if op == 'LtE':
            return T.le(l, r)
        if op == 'GtE':
            return T.le(r, l)
        if op == 'Is':
            return T.iss(l, r)
        if op == 'IsNot':
            return T.nott(T.iss(l, r))
        if op == 'In':
            return self.inn(l, r)
        return T.nott(self.inn(l, r))

    def inn(self, l, r):
        if r[0] in ('tuple', 'list', 'set') and l[0] == 'const' and all(x[0] == 'const' for x in r[1]):
            return const(any(x[1] == l[1] for x in r[1]))
        if r[0] == 'const' and isinstance(r[1], (tuple, str, frozenset)) and l[0] == 'const':
            try:
                return const(l[1] in r[1])
            except TypeError:
                pass
        if r[0] in ('tuple', 'list', 'set') and 0 < len(r[1]) <= 4:
            return T.bor(*[T.eq(l, x) for x in r[1]])
        if r[0] == 'dict' and l[0] == 'const' and all(k[0] == 'const' for k, _ in r[1]):
            return const(any(k == l for k, _ in r[1]))
        if r[0] == 'dict' and (not r[1] or any(k == l for k, _ in r[1])):
            return const(bool(r[1]))
        if r[0] == 'meth' and r[1] == 'keys':
            r = r[2]
        return T.inn(l, r)

    def ev_IfExp(self, n, st, fr):
        out = []
        for a, v in self.ev(n.test, st, fr):
            if isinstance(v, Raise):
                out.append((a, v))
                continue
            for b, r in self.branch(a, v):
                out.extend(self.ev(n.body if r else n.orelse, b, fr))
        return out

    # -------------------------------------------------------------- comprehensions
    def ev_ListComp(self, n, st, fr):
        return self.comp(n, [n.elt], st, fr, True)

    def ev_GeneratorExp(self, n, st, fr):
        return self.comp(n, [n.elt], st, fr, False, gen=True)

    def ev_SetComp(self, n, st, fr):
        return [(a, v if isinstance(v, Raise) else ('call', 'set', (self.deref(a, v),), ())) for a, v in self.comp(n, [n.elt], st, fr, False)]

    def ev_DictComp(self, n, st, fr):
        return [(a, v) if isinstance(v, Raise) else self.newref(a, ('dictcomp', self.deref(a, v))) for a, v in self.comp(n, [n.key, n.value], st, fr, False)]

    def comp(self, n, elts, st, fr, aslist, gen=False):
        # own frame for the targets
        fid = self.fresh()
        cf = Frame(fid, fr.func, None, fr.mod, fr, fr.selft, fr.dyn, fr.depth, fr.caller)
        s0 = st.copy()
        s0.envs = dict(s0.envs)
        s0.envs[fid] = {}
        its = []

        def go(i, s):
            """-> [(state, iters tuple, item | None (filtered) | Raise)]"""
            if i == len(n.generators):
                out = []
                for a, vs in self.evs(elts, s, cf):
                    if isinstance(vs, Raise):
                        out.append((a, (), vs))
                    else:
                        item = vs[0] if len(vs) == 1 else ('tuple', tuple(vs))
                        out.append((a, (), self.deref(a, item)))
                return out
            g = n.generators[i]
            out = []
            for a, it in self.ev(g.iter, s, cf):
                if isinstance(it, Raise):
                    out.append((a, (), it))
                    continue
                dit = self.deref(a, it)
                if dit[0] in ('tuple', 'list') and dit[1] == ():
                    out.append((a, (('list', ()),), None))
                    continue
                for b, itn, cases in self.iterate_if(a, dit, n, cf):
                    c = b.copy()
                    c.loops = c.loops + (itn,)
                    sel = self.pick(c, cases)
                    out.extend((x, (itn,), None) for x, el in sel if el is None)
                    for d, sig in [y for x, el in sel if el is not None for y in self.assign(g.target, el, x, cf)]:
                        live = [d]
                        for f in g.ifs:
                            nl = []
                            for x in live:
                                for y, v in self.ev(f, x, cf):
                                    if isinstance(v, Raise):
                                        out.append((y, (itn,), v))
                                        continue
                                    for z, r in self.branch(y, v):
                                        if r:
                                            nl.append(z)
                                        else:
                                            out.append((z, (itn,), None))
                            live = nl
                        for x in live:
                            for y, itx, v in go(i + 1, x):
                                out.append((y, (itn,) + itx, v))
            return out
        if len(n.generators) == 1 and not n.generators[0].ifs:
            # literal iterable: unroll
            r0 = self.ev(n.generators[0].iter, s0, cf)
            if len(r0) == 1 and not isinstance(r0[0][1], Raise):
                d = self.deref(r0[0][0], r0[0][1])
                if d[0] in ('tuple', 'list') and 0 < len(d[1]) <= 6:
                    live = [(r0[0][0], [])]
                    exc = []
                    for x in d[1]:
                        nl = []
                        for a, acc in live:
                            for b, sig in self.assign(n.generators[0].target, x, a, cf):
                                for c, vs in self.evs(elts, b, cf):
                                    if isinstance(vs, Raise):
                                        exc.append((c, vs))
                                    else:
                                        nl.append((c, acc + [vs[0] if len(vs) == 1 else ('tuple', tuple(vs))]))
                        live = nl
                    return [self.newref(a, ('list', tuple(acc))) if aslist else (a, ('list', tuple(acc))) for a, acc in live] + exc
        outs = go(0, s0)
        effect = any(len(a.events) != len(st.events) for a, _, _ in outs)
        res = []
        for a, _, v in outs:
            if isinstance(v, Raise):
                b = a.copy()
                b.loops = st.loops
                res.append((b, v))
        normal = [(a, i, v) for a, i, v in outs if not isinstance(v, Raise)]
        cases = {}
        itt = None
        for a, i, v in normal:
            if itt is None or len(i) > len(itt):
                itt = i
        itt = itt or (('list', ()),)
        for a, i, v in normal:
            if v is None:
                continue
            cases.setdefault((v,), []).append(self.newconds(st, a))
        cs = []
        for items, conds in cases.items():
            if len(cases) == 1 and len(conds) == len(normal):
                c = TRUE
            else:
                c = conds[0] if len(conds) == 1 else T.bor(*conds)
            cs.append((c, items))
        base = itt[0] if len(itt) == 1 else ('nest', itt)
        val = ('comp', base, tuple(sorted(cs, key=repr)))
        if val[2] == ((TRUE, (('elem', base),)),):
            val = ('call', 'list', (base,), ())
        if not effect:
            b = st.copy()
            b.refs = normal[0][0].refs if normal else st.refs
            b.flags = frozenset().union(*[a.flags for a, _, _ in outs]) | st.flags
            r = [self.newref(b, val) if aslist else (b, val)]
            return r + res
        seen = []
        for a, i, v in normal:
            b = a.copy()
            b.loops = st.loops
            seen.append((b, None))
        for b, _ in self.merge(seen, fr):
            res.append(self.newref(b, val) if aslist else (b, val))
        return res

    # -------------------------------------------------------------- calls
    def ev_Call(self, n, st, fr):
        fn = n.func
        # super()
        if isinstance(fn, ast.Name) and fn.id == 'super':
            return self.ev_super(n, st, fr)
        out = []
        if isinstance(fn, ast.Attribute):
            for a, o in self.ev(fn.value, st, fr):
                if isinstance(o, Raise):
                    out.append((a, o))
                    continue
                for b, args, kw in self.args(n, a, fr):
                    if isinstance(args, Raise):
                        out.append((b, args))
                        continue
                    out.extend(self.attr_call(b, o, self.mangle(fn.attr, fr), args, kw, n, fr))
            return out
        for a, f in self.ev(fn, st, fr):
            if isinstance(f, Raise):
                out.append((a, f))
                continue
            for b, args, kw in self.args(n, a, fr):
                if isinstance(args, Raise):
                    out.append((b, args))
                    continue
                out.extend(self.apply(b, f, args, kw, n, fr))
        return out

    def args(self, n, st, fr):
        nodes = [a.value if isinstance(a, ast.Starred) else a for a in n.args] + [k.value for k in n.keywords]
        out = []
        for a, vs in self.evs(nodes, st, fr):
            if isinstance(vs, Raise):
                out.append((a, vs, ()))
                continue
            args = []
            for x, v in zip(n.args, vs):
                if isinstance(x, ast.Starred):
                    d = self.deref(a, v)
                    if d[0] in ('tuple', 'list'):
                        args.extend(d[1])
                    else:
                        args.append(('star', d))
                else:
                    args.append(v)
            kw = []
            for k, v in zip(n.keywords, vs[len(n.args):]):
                if k.arg is None:
                    d = self.deref(a, v)
                    if d[0] == 'dict' and all(kk[0] == 'const' for kk, _ in d[1]):
                        kw.extend((kk[1], vv) for kk, vv in d[1])
                    else:
                        kw.append(('**', d))
                else:
                    kw.append((k.arg, v))
            out.append((a, tuple(args), tuple(kw)))
        return out

    def ev_super(self, n, st, fr):
        f = fr
        while f is not None and f.cls is None:
            f = f.parent or f.caller
        if n.args:
            out = []
            for a, vs in self.evs(n.args, st, fr):
                if isinstance(vs, Raise):
                    out.append((a, vs))
                    continue
                if vs[0][0] != 'class':
                    out.append((a.flag('super of unknown class'), ('unknown', 'super')))
                    continue
                out.append((a, ('super', vs[0][1], vs[1])))
            return out
        if f is None:
            return [(st.flag('super'), ('unknown', 'super'))]
        return [(st, ('super', f.cls.name, f.selft))]

    def attr_call(self, st, o, name, args, kw, node, fr):
        if o[0] == 'super':
            return self.super_call(st, o, name, args, kw, node, fr)
        if o[0] == 'global':
            return self.apply(st, self.global_term(o[1] + '.' + name), args, kw, node, fr)
        if o[0] == 'class':
            c = self.prog.classes.get(o[1])
            f = self.prog.find(c, name)
            if isinstance(f, Func):
                if f.kind in ('staticmethod',):
                    return self.call_or_opaque(st, f, None, args, kw, node, fr)
                if f.kind == 'classmethod' or name == '__new__' and (not args or args[0] != o) and False:
                    return self.call_or_opaque(st, f, o, (o,) + args, kw, node, fr)
                if args and args[0][0] != 'star':
                    return self.call_or_opaque(st, f, args[0], args, kw, node, fr, unbound=True)
            if isinstance(f, tuple) and f[0] == 'ext' and args:
                return self.opaque_call(st, name, args[0], args[1:], kw, node, fr, ext=f[1].name)
            return self.apply(st, self.read_attr(st, o, name), args, kw, node, fr)
        return self.method(st, o, name, args, kw, node, fr)

    def super_call(self, st, o, name, args, kw, node, fr):
        c = self.prog.classes.get(o[1])
        selft = o[2]
        dyn = self.cls_of(selft, fr)
        if dyn is None or c not in self.prog.mro(dyn):
            dyn = c
        f = self.prog.find(dyn, name, after=c)
        if isinstance(f, Func):
            a2 = args if name == '__new__' else (selft,) + args
            return self.call_or_opaque(st, f, selft, a2, kw, node, fr, unbound=True, sup=True)
        ext = f[1].name if isinstance(f, tuple) and f[0] == 'ext' else 'object'
        if name == '__init__' and ext == 'object':
            return [(st, NONE)]
        return self.opaque_call(st, name, selft, args, kw, node, fr, ext=ext)

    def call_or_opaque(self, st, f, recv, fullargs, kw, node, fr, unbound=False, sup=False):
        if f.name not in self.opaque or (sup and fr.func is not None and fr.func.name == f.name):
            r = self.call_func(st, f, recv, fullargs, kw, node, fr)
            if r is not None:
                return r
        args = fullargs[1:] if recv is not None else fullargs
        return self.opaque_call(st, f.name, recv, args, kw, node, fr, target=f)

    def method(self, st, o, name, args, kw, node, fr):
        # local containers
        if o[0] == 'ref':
            r = self.ref_method(st, o, name, args, kw, node, fr)
            if r is not None:
                return r
        d = self.deref(st, o) if o[0] == 'ref' else o
        if d[0] == 'const' and isinstance(d[1], str) and name == 'format' and not kw and not any(x[0] == 'star' for x in args):
            r = self.str_format(st, d[1], args)
            if r is not None:
                return [(st, r)]
        if name == '__len__' and not args and not kw and o[0] == 'attr':
            return self.builtin(st, 'len', (o,), (o,), (), (), node, fr)
        if name == '__setitem__' and len(args) == 2 and not kw and o[0] == 'attr':
            return [(a, NONE if s is None else Raise(s[1])) for a, s in self.setitem(st, o, args[0], args[1], node, fr)]
        if name == '__getitem__' and len(args) == 1 and not kw and o[0] == 'attr':
            return [(st, self.subscript(st, o, self.deref(st, args[0])))]
        if name == 'setdefault' and len(args) == 2 and not kw and o[0] != 'ref' and not self.prog.by_method.get(name):
            out = []
            k = self.deref(st, args[0])
            for a, r in self.branch(st, self.inn(k, d)):
                if r:
                    out.append((a, self.subscript(a, d, k)))
                else:
                    out.extend((b, args[1] if sig is None else Raise(sig[1])) for b, sig in self.setitem(a, o, k, args[1], node, fr))
            return out
        if name in ('get', 'pop') and d[0] == 'attr' and d[2] != '__dict__' and 3 - len(args) in ((1, 2) if name == 'get' else (1,)) and not kw \
                and not self.prog.by_method.get(name):
            # a dictionary: present or not
            out = []
            k = self.deref(st, args[0])
            for a, r in self.branch(st, self.inn(k, d)):
                if not r:
                    out.append((a, args[1] if len(args) > 1 else NONE))
                    continue
                v = self.subscript(a, d, k)
                if name == 'pop':
                    a = self.emit(a, Event('delitem', '__delitem__', recv=d, args=(self.norm_idx(k),)), node, fr)
                    a = self.bump(a, (d[2],))
                out.append((a, v))
            return out
        if name == 'get' and d[0] == 'attr' and d[2] == '__dict__' and args and args[0][0] == 'const' and d[1][0] != 'ref':
            return [(st, self.read_attr(st, d[1], args[0][1]))]
        if self.special_traverse and name in ('traverse', 'traverse_parents') and args and name not in self.opaque:
            return self.traverse_call(st, d, name, args, kw, node, fr)
        c = self.cls_of(o, fr)
        if c is not None and not getattr(c, 'ext', False):
            f = self.prog.find(c, name)
            if isinstance(f, Func) and f.kind in ('method', 'staticmethod', 'classmethod', 'decorated'):
                if name in self.opaque:
                    return self.opaque_call(st, name, o, args, kw, node, fr, target=f)
                full = args if f.kind == 'staticmethod' else (o,) + args
                return self.call_or_opaque(st, f, o, full, kw, node, fr)
            if isinstance(f, tuple) and f[0] == 'ext':
                return self.opaque_call(st, name, o, args, kw, node, fr, ext=f[1].name)
            return self.opaque_call(st, name, o, args, kw, node, fr)
        if name in self.inline_cls and name not in self.opaque:
            f = self.prog.find(self.prog.cls(self.inline_cls[name]), name)
            if isinstance(f, Func):
                r = self.call_func(st, f, o, (o,) + args, kw, node, fr)
                if r is not None:
                    return r
        cands = self.prog.by_method.get(name, ())
        if name not in self.opaque and (name not in self.baseline or name in self.inline):
            fs = {id(f.node): f for f in cands}
            if len(fs) == 1:
                f = list(fs.values())[0]
                if f.kind == 'method':
                    r = self.call_func(st, f, o, (o,) + args, kw, node, fr)
                    if r is not None:
                        return r
        return self.opaque_call(st, name, o, args, kw, node, fr)

    def str_format(self, st, s, args):
        import string
        parts = []
        try:
            auto = 0
            for lit, field, spec, conv in string.Formatter().parse(s):
                if lit:
                    parts.append(const(lit))
                if field is not None:
                    if spec:
                        return None
                    if field == '':
                        i = auto
                        auto += 1
                    elif field.isdigit():
                        i = int(field)
                    else:
                        return None
                    parts.append(self.deref(st, args[i]))
        except (ValueError, IndexError):
            return None
        return self.mkstr(parts)

    def ref_method(self, st, o, name, args, kw, node, fr):
        c = st.refs.get(o[1], ('unknown',))
        dargs = tuple(self.deref(st, a) for a in args)
        if name == 'append' and len(args) == 1:
            return [(st.setref(o[1], self.cat(c, ('list', (args[0],)))), NONE)]
        if name == 'extend' and len(args) == 1:
            x = dargs[0]
            x = ('list', x[1]) if x[0] in ('tuple', 'list') else x
            if x[0] == 'call' and x[1] == 'map':
                y = self.comp_over(st, x[2][1], x[2][0], False, node, fr)
                x = y or x
            return [(st.setref(o[1], self.cat(c, x)), NONE)]
        if name == 'insert' and len(args) == 2 and c[0] == 'list' and dargs[0] == const(0):
            return [(st.setref(o[1], ('list', (args[1],) + c[1])), NONE)]
        if name == 'setdefault' and c[0] == 'dict' and 1 <= len(args) <= 2:
            out = []
            for a, r in self.branch(st, self.inn(dargs[0], self.deref(st, c))):
                if r:
                    out.append((a, self.subscript(a, c, dargs[0])))
                else:
                    v = args[1] if len(args) > 1 else NONE
                    for b, sig in self.setitem(a, o, dargs[0], v, node, fr):
                        out.append((b, v if sig is None else Raise(sig[1])))
            return out
        if c[0] == 'dict':
            if name == 'get' and args:
                for k, v in c[1]:
                    if k == dargs[0]:
                        return [(st, v)]
                if dargs[0][0] == 'const' and all(k[0] == 'const' for k, _ in c[1]):
                    return [(st, args[1] if len(args) > 1 else NONE)]
                return [(st, ('meth', 'get', self.deref(st, o), dargs))]
            if name == 'update' and len(args) == 1 and dargs[0][0] == 'dict':
                items = {k: v for k, v in c[1]}
                items.update(dict(dargs[0][1]))
                return [(st.setref(o[1], ('dict', tuple(items.items()))), NONE)]
            if name in ('keys', 'items', 'values'):
                if name == 'keys':
                    return [(st, ('list', tuple(k for k, _ in c[1])))]
                if name == 'values':
                    return [(st, ('list', tuple(v for _, v in c[1])))]
                return [(st, ('list', tuple(('tuple', (k, v)) for k, v in c[1])))]
        if name == 'copy':
            return [self.newref(st, c)]
        if name in MUT_METH:
            n = self.emit(st, Event('call', name, recv=('localcontainer', c), args=args, kw=kw), node, fr)
            res = ('res', name, c, dargs, self.fresh())
            n = n.setref(o[1], ('mut', name, c, dargs))
            return [(n, res if name in ('pop', 'popleft', 'setdefault', 'popitem') else NONE)]
        return None

    def traverse_call(self, st, o, name, args, kw, node, fr):
        it = ('nodes' if name == 'traverse' else 'ancestors', o)
        visit, rest = args[0], args[1:]
        el = ('elem', it)

        def body(x):
            return [(a, ('exc', v.t) if isinstance(v, Raise) else None) for a, v in self.apply(x, visit, (el,) + tuple(rest), kw, node, fr)]
        outs = self.loop(st, it, None, body, set(), [], node, fr)
        n = []
        for a, sig in outs:
            n.append((a, NONE if sig is None else Raise(sig[1]) if sig[0] == 'exc' else NONE))
        return n

    # -------------------------------------------------------------- applying values
    def apply(self, st, f, args, kw, node, fr):
        o = f[0]
        if o == 'closure':
            fn, pfr = self.closures[f]
            r = self.call_func(st, fn, None, args, kw, node, fr, parent=pfr)
            if r is not None:
                return r
            return self.opaque_call(st, fn.name, None, args, kw, node, fr)
        if o == 'func':
            fn = self.prog.lookup(f[1]) if '.' in f[1] else None
            if fn is None:
                fn = self.find_func(f[1])
            if isinstance(fn, Func):
                if fn.cls is not None and args:
                    return self.call_or_opaque(st, fn, args[0], args, kw, node, fr, unbound=True)
                return self.call_or_opaque(st, fn, None, args, kw, node, fr)
            return self.opaque_call(st, f[2], None, args, kw, node, fr)
        if o == 'class':
            return self.construct(st, f[1], args, kw, node, fr)
        if o == 'global':
            return self.ext_call(st, f[1], args, kw, node, fr)
        if o == 'attr':
            return self.method(st, f[1], f[2], args, kw, node, fr) if f[2] in self.prog.by_method or f[1][0] == 'ref' else \
                self.value_call(st, f, args, kw, node, fr)
        if o == 'partial':
            return self.apply(st, f[1], f[2] + tuple(args), f[3] + tuple(kw), node, fr)
        if o == 'itemgetter' and args:
            return [(st, self.subscript(st, args[0], f[1]))]
        if o == 'attrgetter' and args:
            return self.getattr_(st, args[0], f[1], node, fr)
        if o == 'methodcaller' and args:
            return self.method(st, args[0], f[1], f[2], (), node, fr)
        return self.value_call(st, f, args, kw, node, fr)

    def find_func(self, qual):
        a, b = qual.rsplit('.', 1)
        if a in self.prog.classes:
            r = self.prog.classes[a].methods.get(b)
            if r:
                return r
        m = self.prog.mods.get(a)
        return m.funcs.get(b) if m else None

    def value_call(self, st, f, args, kw, node, fr):
        """call of an unknown callable value (callback)"""
        if not args and not kw:
            x = self.deref(st, f)
            if x[0] == 'call' and x[1] == 'weakref.ref' and len(x[2]) == 1:
                return [(st, x[2][0])]
            while x[0] in ('sub', 'elem', 'meth', 'res') or x[0] == 'call' and len(x[2]) == 1:
                x = x[2] if x[0] in ('meth', 'res') else x[2][0] if x[0] == 'call' else x[1]
                if not isinstance(x, tuple) or not x:
                    x = NONE
            if x[0] == 'attr' and x[2] in WEAKHOLD:
                # what a weak reference refers to
                return [(st, ('call', 'weakref', (self.deref(st, f),), ()))]
        n = self.emit(st, Event('callv', f[2] if f[0] == 'attr' else None, recv=f, args=args, kw=kw), node, fr)
        res = ('res', None, f, tuple(self.deref(st, a) for a in args), self.fresh())
        n.events[-1].res = res
        n = self.kill_all(n)
        return [(a, v if not (isinstance(v, tuple) and v and v[0] == 'exc') else Raise(v[1])) for a, v in self._fk(n, f[2] if f[0] == 'attr' else 'callv', node, fr, res)]

    def _fk(self, st, name, node, fr, res):
        return self.forkraise(st, name, node, fr, res)

    def construct(self, st, cname, args, kw, node, fr):
        c = self.prog.classes[cname]
        dargs = tuple(self.deref(st, a) for a in args)
        dkw = tuple(sorted((k, self.deref(st, v)) for k, v in kw))
        t = ('new', cname, dargs, dkw)
        isexc = any(k.name in ('Exception', 'BaseException') or k.name.endswith('Error') for k in self.prog.mro(c))
        if isexc:
            return [(st, t)]
        if self.prog.is_sub(c, 'Transformation'):
            return [(st, t)]
        n = self.emit(st, Event('new', cname, args=args, kw=kw, res=t), node, fr)
        if cname in self.inline_new:
            f = self.prog.find(c, '__init__')
            if isinstance(f, Func):
                t = ('new', cname, dargs, dkw, self.fresh())
                n.events[-1].res = t
                self.types[t] = c
                r = self.call_func(n, f, t, (t,) + args, kw, node, fr)
                if r is not None:
                    return [(a, v if isinstance(v, Raise) else t) for a, v in r]
        return [(n, t)]

    def ext_call(self, st, d, args, kw, node, fr):
        dargs = tuple(self.deref(st, a) for a in args)
        dkw = tuple((k, self.deref(st, v)) for k, v in kw)
        if d.startswith('numpy.') and d != 'numpy.fromiter' and isinstance(node, ast.Call) and len(node.args) == len(args):
            dargs = tuple(('gen', x) if isinstance(y, ast.GeneratorExp) else x for x, y in zip(dargs, node.args))
        if d.startswith('builtins.'):
            b = d[9:]
            r = self.builtin(st, b, args, dargs, kw, dkw, node, fr)
            if r is not None:
                return r
            if b in PURE_BUILTIN:
                return [(st, ('call', b, dargs, dkw))]
        if d in IGNORED_CALLS or d.startswith(('warnings.', 'logging.')) and d != 'warnings.warn' and d != 'logging.getLogger':
            return [(st, NONE)]
        if d == 'functools.reduce':
            return self.reduce(st, args, dargs, node, fr)
        if d == 'functools.partial' and args:
            return [(st, ('partial', args[0], tuple(args[1:]), tuple(kw)))]
        if d == 'operator.itemgetter' and len(args) == 1:
            return [(st, ('itemgetter', dargs[0]))]
        if d == 'operator.attrgetter' and len(args) == 1 and dargs[0][0] == 'const':
            return [(st, ('attrgetter', dargs[0][1]))]
        if d == 'operator.delitem' and len(args) == 2:
            n = self.emit(st, Event('delitem', '__delitem__', recv=args[0], args=(args[1],)), node, fr)
            return [(n, NONE)]
        if d == 'operator.setitem' and len(args) == 3:
            return [(a, NONE if s is None else Raise(s[1])) for a, s in self.setitem(st, args[0], args[1], args[2], node, fr)]
        if d == 'operator.not_' and len(args) == 1:
            return [(st, T.nott(self.truth(st, dargs[0])))]
        if d.startswith('operator.') and len(dargs) == 2:
            nm = d.split('.')[1].strip('_')
            m = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'and': 'BitAnd', 'or': 'BitOr', 'truediv': 'Div'}
            cmpm = {'lt': 'Lt', 'gt': 'Gt', 'le': 'LtE', 'ge': 'GtE', 'eq': 'Eq', 'ne': 'NotEq', 'is': 'Is'}
            if nm in m:
                return [(st, self.binop(m[nm], dargs[0], dargs[1], st))]
            if nm in cmpm:
                return [(st, self.compare(cmpm[nm], dargs[0], dargs[1]))]
        if d.startswith('numpy.ndarray.') and args:
            return self.opaque_call(st, d.split('.')[-1], args[0], args[1:], kw, node, fr, ext='numpy.ndarray')
        if d.startswith('collections.') and d.count('.') >= 2 and args:
            return self.opaque_call(st, d.split('.')[-1], args[0], args[1:], kw, node, fr, ext=d.rsplit('.', 1)[0])
        if d in ('collections.OrderedDict', 'collections.deque', 'collections.defaultdict'):
            if not args and d == 'collections.OrderedDict':
                return [self.newref(st, ('dict', ()))]
            return [(st, ('new', d.split('.')[-1], dargs, dkw))]
        np2 = self.numpy_norm(d, dargs, dkw)
        if np2 is not None:
            return [(st, np2)]
        into = [v for k, v in dkw if k == 'out' and v != NONE and not (v[0] in ('call', 'list', 'comp', 'new', 'localcontainer') or v[0] == 'meth' and v[1] == 'copy')]
        if not d.startswith(IMPURE_EXT) and d.startswith(PURE_EXT_PREFIX) and not into:
            return [(st, ('call', d, dargs, dkw))]
        n = self.emit(st, Event('ext', d, args=args, kw=kw), node, fr)
        res = ('res', d, None, dargs, self.fresh())
        n.events[-1].res = res
        if d in ('numpy.put', 'numpy.copyto', 'numpy.place', 'numpy.putmask') and dargs and dargs[0][0] == 'attr':
            n = self.bump(n, (dargs[0][2],))
        if any(a[0] in ('closure',) or (a[0] == 'attr' and a[2] in self.prog.by_method) or a[0] == 'param' for a in dargs + tuple(v for _, v in dkw)) \
                and not d.startswith(('warnings.', 'copy.', 'numpy.')):
            n = self.kill_all(n)
        return [(a, Raise(v[1]) if isinstance(v, tuple) and v and v[0] == 'exc' else v) for a, v in self.forkraise(n, d, node, fr, res)]

    def numpy_norm(self, d, a, kw):
        if kw:
            return None
        if d in ('numpy.logical_and', 'numpy.bitwise_and') and len(a) == 2:
            return T.band(*a)
        if d in ('numpy.logical_or', 'numpy.bitwise_or') and len(a) == 2:
            return T.bor(*a)
        if d in ('numpy.logical_not', 'numpy.invert', 'numpy.bitwise_not') and len(a) == 1:
            return T.bnot(a[0])
        if d == 'numpy.negative' and len(a) == 1:
            return T.neg(a[0])
        if d in ('numpy.multiply',) and len(a) == 2:
            return T.mul(*a)
        if d in ('numpy.add',) and len(a) == 2:
            return T.add(*a)
        if d in ('numpy.subtract',) and len(a) == 2:
            return T.sub(*a)
        if d in ('numpy.greater', 'numpy.less', 'numpy.greater_equal', 'numpy.less_equal', 'numpy.equal', 'numpy.not_equal') and len(a) == 2:
            m = {'greater': 'Gt', 'less': 'Lt', 'greater_equal': 'GtE', 'less_equal': 'LtE', 'equal': 'Eq', 'not_equal': 'NotEq'}
            return self.compare(m[d.split('.')[1]], *a)
        return None

    def builtin(self, st, b, args, dargs, kw, dkw, node, fr):
        if b == 'getattr' and len(args) == 3 and dargs[1][0] == 'const' and isinstance(dargs[1][1], str) and args[0][0] != 'global' \
                and (args[0], dargs[1][1]) not in st.heap and st.gmap.get(('hasattr', dargs[0], dargs[1][1])) is not True:
            if st.gmap.get(('hasattr', dargs[0], dargs[1][1])) is False:
                return [(st, args[2])]
            return [(st, ('getdef', dargs[0], dargs[1][1], self.ver(st, dargs[1][1]), dargs[2]))]
        if b == 'getattr' and len(args) >= 2 and dargs[1][0] == 'const' and isinstance(dargs[1][1], str):
            return self.getattr_(st, args[0], dargs[1][1], node, fr)
        if b == 'setattr' and len(args) == 3:
            if dargs[1][0] == 'const':
                return [(a, NONE if s is None else Raise(s[1])) for a, s in self.store(st, args[0], dargs[1][1], args[2], node, fr)]
            n = self.emit(st, Event('setattr', None, recv=args[0], args=(args[1], args[2])), node, fr)
            return [(self.kill_all(n), NONE)]
        if b == 'delattr' and len(args) == 2:
            n = self.emit(st, Event('delattr', dargs[1][1] if dargs[1][0] == 'const' else None, recv=args[0], args=(args[1],)), node, fr)
            return [(n, NONE)]
        if b == 'hasattr' and len(args) == 2 and dargs[1][0] == 'const':
            if (args[0], dargs[1][1]) in st.heap:
                return [(st, TRUE)]
            return [(st, ('hasattr', dargs[0], dargs[1][1]))]
        if b == 'isinstance' and len(args) == 2:
            return [(st, self.isinst(st, dargs[0], dargs[1], fr))]
        if b == 'super':
            return None
        if b == 'type' and len(args) == 1:
            return [(st, ('attr', dargs[0], '__class__', 0))]
        if b == 'next' and args:
            return [(st, ('call', 'next', dargs, ()))]
        if b in ('list', 'tuple') and len(args) == 1:
            d = dargs[0]
            if d[0] in ('list', 'tuple'):
                c = (b, d[1])
                return [self.newref(st, c) if b == 'list' else (st, c)]
            if d[0] == 'call' and d[1] in ('map', 'filter') and len(d[2]) == 2:
                c = self.comp_over(st, d[2][1], d[2][0], d[1] == 'filter', node, fr)
                if c is None:
                    return self.map_effect(st, d, node, fr)
                d = c
            if d[0] in ('comp', 'cat'):
                return [self.newref(st, d) if b == 'list' else (st, ('call', 'tuple', (d,), ()))]
            return [self.newref(st, ('call', 'list', (d,), ())) if b == 'list' else (st, ('call', b, (d,), ()))]
        if b in ('list', 'dict') and not args and not kw:
            return [self.newref(st, (b, ()))]
        if b == 'dict' and not args:
            return [self.newref(st, ('dict', tuple((const(k), v) for k, v in kw if k != '**')))]
        if b == 'dict' and len(args) == 1 and not kw and dargs[0][0] == 'dict':
            return [self.newref(st, dargs[0])]
        if b == 'set' and not args:
            return [(st, ('set', ()))]
        if b == 'tuple' and not args:
            return [(st, ('tuple', ()))]
        if b == 'len' and len(args) == 1:
            d = dargs[0]
            if d[0] in ('list', 'tuple', 'dict'):
                return [(st, const(len(d[1])))]
            if d[0] == 'const' and isinstance(d[1], str):
                return [(st, const(len(d[1])))]
            if d[0] == 'call' and d[1] in ('list', 'tuple') and len(d[2]) == 1:
                d = d[2][0]
            if d[0] == 'comp' and d[2] and len(d[2]) == 1 and d[2][0][0] == TRUE and len(d[2][0][1]) == 1:
                d = d[1]
            c = self.cls_of(d, fr)
            f = self.prog.find(c, '__len__') if c is not None else None
            if isinstance(f, Func) and '__len__' in self.inline:
                return self.call_func(st, f, args[0], (args[0],), (), node, fr)
            if d[0] == 'attr' and len(d) == 4:
                for e in reversed(st.events[-12:]):
                    if e.kind == 'call' and e.name in ('append', 'insert') and len(e.args) == (1 if e.name == 'append' else 2) and e.recv is not None and \
                            e.recv[:3] == d[:3] and len(e.recv) == 4:
                        # nothing else happened to it since
                        if e.loops == st.loops and not e.raised and d[3] == e.recv[3] + 1:
                            return [(st, T.add(('call', 'len', (e.recv,), ()), const(1)))]
                        break
            return [(st, ('call', 'len', (d,), ()))]
        if b in ('sum', 'any', 'all', 'min', 'max') and len(args) >= 1:
            d = dargs[0]
            if d[0] == 'call' and d[1] == 'map' and len(d[2]) == 2:
                d = self.comp_over(st, d[2][1], d[2][0], False, node, fr) or d
            if d[0] == 'comp' and b in ('sum', 'any', 'all') and len(d[2]) >= 1 and all(len(i) == 1 for _, i in d[2]):
                if b == 'sum':
                    v = self.mksum('sum', d[1], tuple((c, i[0]) for c, i in d[2]))
                    if len(args) > 1:
                        v = T.add(dargs[1], v)
                    return [(st, v)]
                cs = tuple((c, self.truth(st, i[0])) for c, i in d[2])
                return [(st, (b, d[1], cs))]
            return [(st, ('call', b, (d,) + dargs[1:], dkw))]
        if b in ('bool',) and len(args) == 1:
            return [(st, self.truth(st, dargs[0]))]
        if b == 'str' and len(args) == 1:
            return [(st, ('call', 'str', dargs, ()) if dargs[0][0] != 'strcat' else dargs[0])]
        if b == 'slice':
            p = dargs
            p = (NONE, p[0], NONE) if len(p) == 1 else p + (NONE,) * (3 - len(p))
            return [(st, self.norm_idx(('slice',) + p))]
        if b == 'map' and len(args) >= 2:
            return [(st, ('call', 'map', dargs, ()))]
        if b in ('int', 'float') and len(args) == 1 and T.is_num(dargs[0]):
            return [(st, const((int if b == 'int' else float)(dargs[0][1])))]
        if b == 'abs' and len(args) == 1 and T.is_num(dargs[0]):
            return [(st, const(abs(dargs[0][1])))]
        if b == 'float' and len(args) == 1 and dargs[0][0] == 'const' and str(dargs[0][1]).lower() in ('inf', '-inf'):
            g = ('global', 'numpy.inf')
            return [(st, g if dargs[0][1][0] != '-' else T.neg(g))]
        if b in ('Exception', 'ValueError', 'KeyError', 'AttributeError', 'TypeError', 'NameError', 'RuntimeError', 'NotImplementedError', 'IndexError',
                 'AssertionError', 'ImportError', 'ZeroDivisionError', 'NotImplemented', 'RecursionError', 'StopIteration', 'ArithmeticError',
                 'OverflowError', 'FloatingPointError', 'OSError', 'BaseException', 'LookupError', 'RuntimeWarning', 'UserWarning', 'DeprecationWarning'):
            return [(st, ('new', b, dargs, dkw))]
        return None

    def map_effect(self, st, d, node, fr):
        out = []
        for a, i, cases in self.iterate_if(st, d[2][1], node, fr):
            b = a.copy()
            b.loops = b.loops + (i,)
            sel = self.pick(b, cases)
            for x, el in sel:
                if el is None:
                    x = x.copy()
                    x.loops = a.loops
                    out.append((x, ('comp', i, ())))
            for c, v in [y for x, el in sel if el is not None for y in self.apply(x, d[2][0], (el,), (), node, fr)]:
                c = c.copy()
                c.loops = a.loops
                out.append((c, v if isinstance(v, Raise) else ('comp', i, ((TRUE, (self.deref(c, v),)),))))
        return out

    def isinst(self, st, x, c, fr):
        names = []

        def coll(t):
            if t[0] in ('tuple', 'list'):
                for y in t[1]:
                    coll(y)
            elif t[0] == 'class':
                names.append(t[1])
            elif t[0] == 'global':
                names.append(t[1].replace('builtins.', ''))
            else:
                names.append(repr(t))
        coll(c)
        k = self.cls_of(x, fr)
        if k is not None:
            mn = {y.name for y in self.prog.mro(k)}
            return const(any(n in mn for n in names))
        if x[0] == 'const':
            tn = type(x[1]).__name__
            ks = {y.__name__ for y in type(x[1]).__mro__}
            if all('.' not in n for n in names):
                return const(any(n in ks for n in names))
        return T.bor(*[('isinstance', x, n) for n in sorted(names)])

    def reduce(self, st, args, dargs, node, fr):
        fn = args[0]
        out = []
        for a, it, el in self.iterate(st, dargs[1], node, fr):
            init = args[2] if len(args) > 2 else ('first', it)
            lv = ('lv', self.fresh(), 'acc')
            b = a.copy()
            b.loops = b.loops + (it,)
            rs = self.apply(b, fn, (lv, el), (), node, fr)
            if any(isinstance(v, Raise) or len(x.events) != len(a.events) for x, v in rs):
                out.append((a.flag('reduce with effects'), ('unknown', 'reduce')))
                continue
            vals = [(x, self.deref(x, v)) for x, v in rs]
            if len(vals) == 1:
                d, c = T.lin_parts(vals[0][1])
                if d.get(lv) == 1:
                    d = dict(d)
                    del d[lv]
                    e = T.lin(d, c)
                    if not T.contains(e, lv):
                        out.append((a, T.add(init, self.mksum('sum', it, ((TRUE, e),)))))
                        continue
            # a or cond(b)
            if self.deref(a, init) == FALSE:
                es = [(x, v) for x, v in vals if v != TRUE and v != lv]
                if len(es) == 1 and all(v in (TRUE, lv) or not T.contains(v, lv) for _, v in vals):
                    out.append((a, ('any', it, ((TRUE, self.truth(a, es[0][1])),))))
                    continue
                es2 = [v for v in vals if v[1][0] == 'bor' and lv in [z for z in v[1][1]] or (v[1][0] == 'bor' and ('truth', lv) in v[1][1])]
                if len(vals) == 1 and es2:
                    rest = tuple(z for z in vals[0][1][1] if z not in (lv, ('truth', lv)))
                    out.append((a, ('any', it, ((TRUE, T.bor(*rest)),))))
                    continue
                # several boolean outcomes
                if all(v[0] == 'const' or T.is_boolish(v) or v == lv for _, v in vals):
                    cs = []
                    for x, v in vals:
                        if v == FALSE or v == lv or ('truth', lv) in [g for g, bb in x.guards if bb]:
                            continue
                        cond = [t if bb else T.nott(t) for t, bb in x.guards[len(a.guards):] if t != ('truth', lv)]
                        cs.append(T.band(*(cond + [v])) if v != TRUE else T.band(*cond) if cond else TRUE)
                    out.append((a, ('any', it, ((TRUE, T.bor(*cs) if cs else FALSE),))))
                    continue
            out.append((a, ('reduce', it, tuple(v for _, v in vals), self.deref(a, init))))
        return out

    def opaque_call(self, st, name, recv, args, kw, node, fr, ext=None, target=None):
        dargs = tuple(self.deref(st, a) for a in args)
        dkw = tuple((k, self.deref(st, v)) for k, v in kw)
        r = self.deref(st, recv) if recv is not None else None
        if name == 'join' and len(dargs) == 1 and dargs[0][0] == 'call' and dargs[0][1] in ('map', 'filter') and len(dargs[0][2]) == 2:
            dargs = (self.comp_over(st, dargs[0][2][1], dargs[0][2][0], dargs[0][1] == 'filter', node, fr) or dargs[0],)
        if recv is not None and name in PURE_METH or name in self.pure:
            if name not in self.opaque or name in self.pure:
                if name == 'copy' and recv is not None and recv[0] == 'ref':
                    return [self.newref(st, r)]
                if name == 'get' and r[0] == 'attr' and False:
                    pass
                return [(st, ('meth', name, r, dargs) if not dkw else ('meth', name, r, dargs + tuple(('kw', k, v) for k, v in dkw)))]
        if r is not None and r[0] == 'call' and r[1] == 'logging.getLogger' or (r is not None and r[0] in ('attr', 'global') and str(r[2] if r[0] == 'attr' else r[1]).split('.')[-1] == 'logger'):
            return [(st, NONE)]
        n = self.emit(st, Event('call', name, recv=recv, args=args, kw=kw), node, fr)
        ev = n.events[-1]
        ev.ext = ext
        res = ('res', name, r, dargs + tuple(('kw', k, v) for k, v in dkw), self.fresh())
        ev.res = res
        if name in MUT_METH and r is not None and r[0] == 'attr':
            n = self.bump(n, (r[2],))
        m = self.modset(name)
        if m:
            if '*' in m:
                n = self.kill_all(n)
            else:
                n = self.bump(n, m)
        elif m is None and name not in MUT_METH and ext is None:
            # method of an object from outside: may call back only through arguments
            if any(a[0] in ('closure',) or (a[0] == 'attr' and a[2] in self.prog.by_method) for a in dargs):
                n = self.kill_all(n)
        return [(a, Raise(v[1]) if isinstance(v, tuple) and v and v[0] == 'exc' else v) for a, v in self.forkraise(n, name, node, fr, res)]

    # -------------------------------------------------------------- inlining
    def call_func(self, st, f, selft, args, kw, node, fr, parent=None):
        """Inline f; args include self for methods.  None if it cannot be inlined."""
        if fr.depth >= self.maxdepth:
            return None
        # recursion
        x = fr
        while x is not None:
            if x.func is not None and x.func.node is f.node:
                return None
            x = x.caller
        if isinstance(f.node, ast.FunctionDef) and self.is_generator(f.node):
            return None
        if f.kind == 'decorated':
            return None
        fid = self.fresh()
        a = f.node.args
        env = {}
        ps = [p.arg for p in list(a.posonlyargs) + list(a.args)]
        defaults = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
        pos_ = list(args)
        kwd = dict(kw)
        star = [i for i, t in enumerate(pos_) if t[0] == 'star']
        fr2 = Frame(fid, f, f.cls, f.mod, parent, selft if f.cls is not None else None, None, fr.depth + 1, fr)
        if f.cls is not None and selft is not None and selft[0] != 'star' and self.cls_of(selft, fr) is None:
            # type the receiver for the callee; only keep it when unambiguous
            cls = self.inline_cls.get(f.name)
            self.types[selft] = self.prog.cls(cls) if cls else f.cls
        i = 0
        rest = []
        missing = []
        for p in ps:
            if i < len(pos_) and pos_[i][0] != 'star':
                env[p] = pos_[i]
                i += 1
            elif p in kwd:
                env[p] = kwd.pop(p)
            elif i < len(pos_) and pos_[i][0] == 'star':
                # unknown number of values: give up unless the callee takes *args only
                if star and p in defaults:
                    missing.append(p)
                else:
                    env[p] = ('sub', pos_[i][1], const(ps.index(p) - i))
            else:
                missing.append(p)
        rest = pos_[i:]
        if a.vararg:
            if len(rest) == 1 and rest[0][0] == 'star':
                env[a.vararg.arg] = rest[0][1]
            else:
                env[a.vararg.arg] = ('tuple', tuple(rest))
        elif rest and not all(r[0] == 'star' for r in rest):
            return None     # arity mismatch: would raise TypeError
        for p in a.kwonlyargs:
            if p.arg in kwd:
                env[p.arg] = kwd.pop(p.arg)
        dstar = kwd.pop('**', None)
        if a.kwarg:
            if not kwd and dstar is not None:
                env[a.kwarg.arg] = dstar
            elif dstar is None:
                st, r = self.newref(st, ('dict', tuple((const(k), v) for k, v in kwd.items())))
                env[a.kwarg.arg] = r
            else:
                env[a.kwarg.arg] = ('unknown', 'kw')
        elif kwd:
            return None
        # defaults are evaluated in the defining scope
        dn = list(missing) + [p.arg for p in a.kwonlyargs if p.arg not in env]
        kwdef = {p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        for p in dn:
            d = defaults.get(p, kwdef.get(p))
            if d is None:
                if p in missing and dstar is not None:
                    env[p] = ('sub', dstar, const(p))
                    continue
                return None
            dfr = parent or Frame(0, None, f.cls, f.mod, None, None, None, 0, None)
            r = self.ev(d, st, dfr)
            if len(r) != 1 or isinstance(r[0][1], Raise):
                env[p] = ('unknown', 'default')
            else:
                st = r[0][0]
                env[p] = r[0][1]
        n = st.copy()
        n.envs = dict(n.envs)
        n.envs[fid] = env
        self.inlined.add(f.qual)
        out = []
        for b, sig in self.run_body(f, n, fr2):
            b = b.copy()
            if not self.captured(fid):
                b.envs = {k: v for k, v in b.envs.items() if k != fid}
            if sig is None:
                out.append((b, NONE))
            elif sig[0] == 'ret':
                out.append((b, sig[1]))
            elif sig[0] == 'exc':
                out.append((b, Raise(sig[1])))
            else:
                out.append((b, NONE))
        return self.merge_vals(out, fr)

    def captured(self, fid):
        return any(k[2] == fid for k in getattr(self, 'closures', {}))

    def merge_vals(self, outs, fr):
        norm = [(a, ('v', v)) for a, v in outs if not isinstance(v, Raise)]
        exc = [(a, v) for a, v in outs if isinstance(v, Raise)]
        return [(a, s[1]) for a, s in self.merge(norm, fr)] + exc

    def is_generator(self, node):
        for x in ast.walk(node):
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return True
        return False
