"""Source model of the package under analysis: modules, imports, classes, MROs.

Nothing here imports or runs paramz; every file is parsed with `ast` on every run.
"""
import ast
import os

REPO = os.environ.get('PZ_REPO', '/repo')
PKG = 'paramz'


class AnalysisBroken(Exception):
    """A public anchor of a property does not exist any more (or the source cannot be parsed)."""


class Func(object):
    __slots__ = ('name', 'node', 'cls', 'mod', 'kind', 'qual')

    def __init__(self, name, node, cls, mod, kind='method'):
        self.name, self.node, self.cls, self.mod, self.kind = name, node, cls, mod, kind
        self.qual = (cls.name + '.' if cls else mod.name + '.') + name

    @property
    def params(self):
        return [a.arg for a in self.node.args.args]

    def __repr__(self):
        return '<Func %s %s>' % (self.qual, self.kind)


class Cls(object):
    def __init__(self, name, node, mod):
        self.name, self.node, self.mod = name, node, mod
        self.base_refs = []      # dotted names
        self.methods = {}        # name -> Func (methods and property getters)
        self.setters = {}        # name -> Func
        self.attrs = {}          # name -> ast expr (class-level values)
        self.dynamic = False     # class body has constructs that can add members invisibly
        self.metaclass = None
        self.ext = False

    def __repr__(self):
        return '<Cls %s>' % self.name


class Ext(object):
    """A class outside of the package."""
    ext = True

    def __init__(self, dotted):
        self.name = dotted
        self.methods = self.setters = self.attrs = {}

    def __repr__(self):
        return '<Ext %s>' % self.name


class Mod(object):
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.imports = {}     # local name -> dotted
        self.funcs = {}       # name -> Func
        self.classes = {}     # name -> Cls
        self.consts = {}      # name -> ast expr (last binding)
        self.multi = set()    # names bound more than once
        self.stars = []       # modules star-imported


class Program(object):
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.classes = {}      # simple name -> Cls
        self.by_method = {}    # method name -> [Func]
        self.by_prop = {}
        self.files = []
        self.parent_mods = {}
        self._load()

    # ------------------------------------------------------------------ loading
    def _load(self):
        base = os.path.join(self.repo, PKG)
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d not in ('tests', 'examples', '__pycache__'))
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, self.repo)[:-3].split(os.sep)
                is_pkg = rel[-1] == '__init__'
                if is_pkg:
                    rel = rel[:-1]
                try:
                    tree = ast.parse(open(path, encoding='utf8').read(), path)
                except SyntaxError as e:
                    raise AnalysisBroken('cannot parse %s: %s' % (path, e))
                m = Mod('.'.join(rel), path, tree, is_pkg)
                self.mods[m.name] = m
                self.files.append(os.path.relpath(path, self.repo))
        if not self.mods:
            raise AnalysisBroken('no sources under %s' % base)
        for m in self.mods.values():
            self._scan_body(m, m.tree.body)
        for m in self.mods.values():
            for c in m.classes.values():
                self.classes.setdefault(c.name, c)
        for m in self.mods.values():
            for c in m.classes.values():
                self._bases(c)
        for m in self.mods.values():
            for f in m.funcs.values():
                self.by_method.setdefault(f.name, [])
            for c in m.classes.values():
                for n, f in c.methods.items():
                    (self.by_prop if f.kind == 'property' else self.by_method).setdefault(n, []).append(f)

    def rel_import(self, m, node):
        if node.level == 0:
            return node.module or ''
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        if node.level > 1:
            parts = parts[:-(node.level - 1)]
        return '.'.join(parts + ([node.module] if node.module else []))

    def import_names(self, m, node):
        """-> list of (local, dotted)"""
        out = []
        if isinstance(node, ast.Import):
            for a in node.names:
                if a.asname:
                    out.append((a.asname, a.name))
                else:
                    out.append((a.name.split('.')[0], a.name.split('.')[0]))
        else:
            base = self.rel_import(m, node)
            for a in node.names:
                if a.name == '*':
                    out.append(('*', base))
                else:
                    out.append((a.asname or a.name, (base + '.' if base else '') + a.name))
        return out

    def _scan_body(self, m, body):
        for s in body:
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                for l, d in self.import_names(m, s):
                    if l == '*':
                        m.stars.append(d)
                    else:
                        m.imports.setdefault(l, d)
            elif isinstance(s, ast.FunctionDef):
                m.funcs[s.name] = Func(s.name, s, None, m, 'function')
            elif isinstance(s, ast.ClassDef):
                m.classes[s.name] = self._class(m, s)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        if t.id in m.consts:
                            m.multi.add(t.id)
                        m.consts[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                m.consts[s.target.id] = s.value
            elif isinstance(s, ast.Try):
                self._scan_body(m, s.body)
                # fallbacks only fill in what the body does not bind
                sub = Mod(m.name, m.path, m.tree, m.is_pkg)
                for h in s.handlers:
                    self._scan_body(sub, h.body)
                for k in ('imports', 'funcs', 'classes', 'consts'):
                    for n, v in getattr(sub, k).items():
                        if n not in m.imports and n not in m.funcs and n not in m.classes and n not in m.consts:
                            getattr(m, k)[n] = v
                        else:
                            m.multi.add(n)
                self._scan_body(m, s.orelse)
                self._scan_body(m, s.finalbody)
            elif isinstance(s, ast.If):
                self._scan_body(m, s.body)
                self._scan_body(m, s.orelse)
            elif isinstance(s, (ast.For, ast.With, ast.While)):
                self._scan_body(m, s.body)

    def _class(self, m, node):
        c = Cls(node.name, node, m)
        self._class_body(m, c, node.body)
        return c

    def _class_body(self, m, c, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                kind = 'method'
                setter = False
                for d in s.decorator_list:
                    if isinstance(d, ast.Name) and d.id == 'property':
                        kind = 'property'
                    elif isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod'):
                        kind = d.id
                    elif isinstance(d, ast.Attribute) and d.attr == 'setter':
                        setter = True
                    elif isinstance(d, ast.Attribute) and d.attr in ('getter', 'deleter'):
                        kind = 'property' if d.attr == 'getter' else 'deleter'
                    else:
                        kind = 'decorated'
                f = Func(s.name, s, c, m, 'setter' if setter else kind)
                if setter:
                    c.setters[s.name] = f
                elif kind != 'deleter':
                    c.methods[s.name] = f
                c.attrs.pop(s.name, None)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self._class_assign(m, c, t.id, s.value)
                    elif isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts):
                        for a, b in zip(t.elts, s.value.elts):
                            if isinstance(a, ast.Name):
                                self._class_assign(m, c, a.id, b)
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                self._class_assign(m, c, s.target.id, s.value)
            elif isinstance(s, (ast.Expr, ast.Pass)):
                pass
            elif isinstance(s, (ast.If, ast.Try, ast.With)):
                self._class_body(m, c, s.body)
            elif isinstance(s, (ast.For, ast.While)):
                c.dynamic = True

    def _class_assign(self, m, c, name, v):
        if isinstance(v, ast.Name) and v.id in c.methods:
            c.methods[name] = c.methods[v.id]
            c.attrs.pop(name, None)
            if v.id in c.setters:
                c.setters[name] = c.setters[v.id]
        elif isinstance(v, ast.Lambda):
            c.methods[name] = Func(name, v, c, m, 'method')
            c.attrs.pop(name, None)
        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'property':
            args = list(v.args)
            kws = {k.arg: k.value for k in v.keywords}
            g = args[0] if args else kws.get('fget')
            st = args[1] if len(args) > 1 else kws.get('fset')
            for fn, kind in ((g, 'property'), (st, 'setter')):
                if fn is None:
                    continue
                if isinstance(fn, ast.Name) and fn.id in c.methods:
                    f0 = c.methods[fn.id]
                    f = Func(name, f0.node, c, m, kind)
                elif isinstance(fn, ast.Lambda):
                    f = Func(name, fn, c, m, kind)
                else:
                    c.dynamic = True
                    continue
                if kind == 'property':
                    c.methods[name] = f
                else:
                    c.setters[name] = f
        else:
            c.attrs[name] = v
            c.methods.pop(name, None)

    def _bases(self, c):
        refs = []
        for b in c.node.bases:
            if isinstance(b, ast.Call):
                fn = self.dotted(c.mod, b.func)
                if fn and fn.split('.')[-1] == 'with_metaclass':
                    c.metaclass = self.dotted(c.mod, b.args[0])
                    for a in b.args[1:]:
                        refs.append(self.dotted(c.mod, a))
                    continue
            refs.append(self.dotted(c.mod, b))
        for k in c.node.keywords:
            if k.arg == 'metaclass':
                c.metaclass = self.dotted(c.mod, k.value)
        for d in c.node.decorator_list:
            if isinstance(d, ast.Call) and self.dotted(c.mod, d.func) in ('six.add_metaclass',):
                c.metaclass = self.dotted(c.mod, d.args[0])
        c.base_refs = [r for r in refs if r]

    # ------------------------------------------------------------------ names
    def dotted(self, m, node):
        if isinstance(node, ast.Name):
            return self.resolve_name(m, node.id)
        if isinstance(node, ast.Attribute):
            b = self.dotted(m, node.value)
            return b + '.' + node.attr if b else None
        return None

    def resolve_name(self, m, name):
        """Dotted name a module-level name denotes (unchased), or 'builtins.x'."""
        if name in m.classes or name in m.funcs:
            return m.name + '.' + name
        if name in m.consts:
            v = m.consts[name]
            if isinstance(v, (ast.Name, ast.Attribute)):
                d = self.dotted(m, v) if not (isinstance(v, ast.Name) and v.id == name) else None
                if d:
                    return d
            return m.name + '.' + name
        if name in m.imports:
            return m.imports[name]
        for s in m.stars:
            sm = self.mods.get(s)
            if sm and (name in sm.classes or name in sm.funcs or name in sm.consts or name in sm.imports):
                return self.resolve_name(sm, name)
        return 'builtins.' + name

    def lookup(self, dotted, depth=0):
        """dotted -> Cls | Func | Mod | ('const', Mod, name) | None (external)."""
        if depth > 10 or not dotted:
            return None
        if dotted in self.mods:
            return self.mods[dotted]
        if '.' not in dotted:
            return None
        head, tail = dotted.rsplit('.', 1)
        m = self.lookup(head, depth + 1)
        if isinstance(m, Mod):
            if tail in m.classes:
                return m.classes[tail]
            if tail in m.funcs:
                return m.funcs[tail]
            if m.name + '.' + tail in self.mods:
                return self.mods[m.name + '.' + tail]
            if tail in m.consts:
                v = m.consts[tail]
                if isinstance(v, (ast.Name, ast.Attribute)):
                    d = self.dotted(m, v)
                    if d and d != dotted:
                        r = self.lookup(d, depth + 1)
                        if r is not None:
                            return r
                return ('const', m, tail)
            if tail in m.imports:
                return self.lookup(m.imports[tail], depth + 1) or ('ext', m.imports[tail])
            for s in m.stars:
                r = self.lookup(s + '.' + tail, depth + 1)
                if r is not None:
                    return r
        if isinstance(m, Cls):
            f = m.methods.get(tail)
            if f:
                return f
        if isinstance(m, tuple) and m[0] == 'ext':
            return ('ext', m[1] + '.' + tail)
        return None

    # ------------------------------------------------------------------ classes
    def cls(self, name):
        c = self.classes.get(name)
        if c is None:
            raise AnalysisBroken('class %s has vanished' % name)
        return c

    def base_classes(self, c):
        if getattr(c, 'ext', False):
            return []
        out = []
        for r in c.base_refs:
            b = self.lookup(r)
            if isinstance(b, Cls):
                out.append(b)
            else:
                d = b[1] if isinstance(b, tuple) and b[0] == 'ext' else r
                out.append(self._extcls(d))
        return out

    _exts = {}

    def _extcls(self, d):
        if d.startswith('builtins.'):
            d = d[9:]
        if d not in self._exts:
            self._exts[d] = Ext(d)
        return self._exts[d]

    def mro(self, c):
        if getattr(c, 'ext', False):
            return [c]
        cache = self.__dict__.setdefault('_mro', {})
        if c in cache:
            return cache[c]
        bases = self.base_classes(c)
        seqs = [list(self.mro(b)) for b in bases] + [list(bases)]
        res = [c]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                h = s[0]
                if h.name == 'object' and any(len(t) > 1 or t[0].name != 'object' for t in seqs):
                    continue
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            res.append(h)
            for s in seqs:
                if s and s[0] is h:
                    del s[0]
            for s in seqs:
                if h in s:
                    s.remove(h)
        cache[c] = res
        return res

    def find(self, c, name, after=None, setter=False):
        """Resolve a member in the MRO.  -> Func | ('attr', Cls, expr) | ('ext', Ext) | None"""
        mro = self.mro(c)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for k in mro:
            if getattr(k, 'ext', False):
                if k.name != 'object' or name in dir(object):
                    if ext_has(k.name, name):
                        return ('ext', k)
                continue
            if setter:
                if name in k.setters:
                    return k.setters[name]
                if name in k.methods and k.methods[name].kind == 'property':
                    return None
                continue
            if name in k.methods:
                return k.methods[name]
            if name in k.attrs:
                return ('attr', k, k.attrs[name])
        return None

    def is_sub(self, c, name):
        return any(k.name == name or k.name.split('.')[-1] == name for k in self.mro(c))

    def subclasses(self, name):
        return [c for c in self.classes.values() if self.is_sub(c, name)]

    def func(self, clsname, name):
        """Anchor lookup; raises AnalysisBroken when a public anchor vanished."""
        if clsname is None:
            for m in self.mods.values():
                if name in m.funcs:
                    return m.funcs[name]
            raise AnalysisBroken('function %s has vanished' % name)
        c = self.cls(clsname)
        f = self.find(c, name)
        if not isinstance(f, Func):
            raise AnalysisBroken('%s.%s has vanished' % (clsname, name))
        return f

    def rel(self, f):
        return os.path.relpath(f.mod.path, self.repo)


_NDARRAY = set('''__setitem__ __getitem__ __iadd__ __isub__ __imul__ __itruediv__ __ifloordiv__ __imod__ __ipow__
__ilshift__ __irshift__ __iand__ __ior__ __ixor__ __imatmul__ __reduce__ __setstate__ __deepcopy__ __copy__ copy view flags
size shape ndim data flat __new__ __array_finalize__ __array_wrap__ __repr__ __str__ __len__ __iter__ __contains__
__eq__ __ne__ __lt__ __gt__ __le__ __ge__ fill put sort astype ravel reshape sum any all min max T dtype __init__
__setattr__ __getattribute__ __hash__ __dir__ __reduce_ex__ __delattr__ itemset resize partition'''.split())


def ext_has(cls, name):
    import builtins
    import collections
    if cls == 'object':
        return name in dir(object)
    if cls in ('numpy.ndarray',):
        return name in _NDARRAY
    short = cls.split('.')[-1]
    for ns in (builtins, collections):
        if hasattr(ns, short):
            return hasattr(getattr(ns, short), name)
    return True
