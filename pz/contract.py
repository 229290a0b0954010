"""All functions of the package against the reference contract."""
import ast
import os
import time

from . import refine as R
from . import terms as T
from .engine import Analysis, Frame, St, Raise, TooComplex
from .src import AnalysisBroken, Cls, Func, Program

HERE = os.path.dirname(os.path.abspath(__file__))
CONTRACT = os.path.join(os.path.dirname(HERE), 'contract')
CONCRETE = ['ObsAr', 'Param', 'Parameterized', 'Model', 'ParamConcatenation']


class Unit(object):
    """one function of the contract, resolved for a class, and what it resolves to in the package"""
    __slots__ = ('label', 'cls', 'name', 'setter', 'fs', 'fp', 'why', 'classes')

    def __init__(self, label, cls, name, setter, fs, fp):
        self.label, self.cls, self.name, self.setter, self.fs, self.fp = label, cls, name, setter, fs, fp
        self.why = None
        self.classes = [cls]

    @property
    def private(self):
        return self.name.startswith('_') and not (self.name.startswith('__') and self.name.endswith('__'))


class Result(object):
    def __init__(self, unit, status, deltas=(), note='', npaths=0, fine=False):
        self.unit, self.status, self.deltas, self.note, self.npaths, self.fine = unit, status, list(deltas), note, npaths, fine


def generator(node):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node))


def int_attributes(prog):
    """attributes which every store gives an integer: a literal, or what they held and a literal"""
    good, bad = set(), set()

    def lit(v):
        return isinstance(v, ast.Constant) and isinstance(v.value, int) and not isinstance(v.value, bool)
    for m in prog.mods.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.ClassDef):
                for y in x.body:
                    if isinstance(y, ast.Assign):
                        for t in y.targets:
                            if isinstance(t, ast.Name):
                                (good if lit(y.value) else bad).add(t.id)
                    elif isinstance(y, (ast.FunctionDef, ast.ClassDef)):
                        bad.add(y.name)
            elif isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load):
                bad.add(x.attr) if x not in ints_in(m, lit) else good.add(x.attr)
    return good - bad


def ints_in(m, lit):
    r = m.__dict__.get('_intstores')
    if r is None:
        r = m._intstores = set()
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Assign):
                ok = lit(x.value) or isinstance(x.value, ast.BinOp) and isinstance(x.value.op, (ast.Add, ast.Sub)) and lit(x.value.right) and \
                    any(ast.unparse(t) == ast.unparse(x.value.left) for t in x.targets)
                if ok:
                    r.update(t for t in x.targets if isinstance(t, ast.Attribute))
            elif isinstance(x, ast.AugAssign) and isinstance(x.op, (ast.Add, ast.Sub)) and lit(x.value) and isinstance(x.target, ast.Attribute):
                r.add(x.target)
    return r


def definitions(prog):
    """how often a name is defined as a function"""
    n = {}
    for m in prog.mods.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.FunctionDef):
                n[x.name] = n.get(x.name, 0) + 1
    return n


class Refinement(object):
    def __init__(self, impl=None, spec=None, forks=None, time_limit=420, limit=3000):
        self.S = spec or Program(CONTRACT)
        self.P = impl or Program()
        # a class-level value of the contract is a setting a subclass or an instance may change
        self.S.symbolic = self.P.symbolic = {n for c in self.S.classes.values() for n in c.attrs}
        # what a function of the contract may change is what its contract may change: each is held to it on its own
        an = R.Analysis(self.S)
        an.modset('')
        nS, nP = definitions(self.S), definitions(self.P)
        self.P.promised = {f: w for f, w in self.S.__dict__['_mods'].items() if nS.get(f, 0) >= nP.get(f, 0) > 0}
        self.P.__dict__.pop('_mods', None)
        T.INTS.clear()
        T.INTS.update(int_attributes(self.S) & int_attributes(self.P))
        self.C = R.Comparer(self.S, self.P)
        self.shared = self.C.shared
        self.forks = forks or {}
        self.t0 = time.time()
        self.time_limit = time_limit
        self.limit = limit
        self.units = {}
        self._sum = {}
        self._dec = {}
        self._enumerate()

    # ---------------------------------------------------------------- units
    def _enumerate(self):
        seen = {}
        order = CONCRETE + [c for c in sorted(self.S.classes) if c not in CONCRETE]
        for cn in order:
            sc = self.S.classes[cn]
            pc = self.P.classes.get(cn)
            names, setters = [], []
            for k in self.S.mro(sc):
                if getattr(k, 'ext', False):
                    continue
                names.extend(n for n in k.methods if n not in names)
                setters.extend(n for n in k.setters if n not in setters)
            for st, ns in ((False, names), (True, setters)):
                for n in ns:
                    fs = self.S.find(sc, n, setter=st)
                    if not isinstance(fs, Func):
                        continue
                    fp = self.P.find(pc, n, setter=st) if pc is not None else None
                    if fp is None and st and pc is not None:
                        fp = None
                    pq = fp.qual if isinstance(fp, Func) else ('ext', repr(fp)) if fp is not None else None
                    k = (fs.qual, pq, st, n)
                    if k in seen:
                        seen[k].classes.append(cn)
                        continue
                    label = '%s.%s%s' % (cn if fs.cls.name != cn and pq != fs.qual else fs.cls.name, n, '=' if st else '')
                    while label in self.units:
                        label = '%s.%s%s' % (cn, n, '=' if st else '') if not label.startswith(cn + '.') else label + "'"
                    u = Unit(label, cn, n, st, fs, fp)
                    if pc is None:
                        u.why = 'class %s has vanished' % cn
                    seen[k] = u
                    self.units[label] = u
        for m in self.S.mods.values():
            pm = self.P.mods.get(m.name)
            for n, fs in m.funcs.items():
                fp = pm.funcs.get(n) if pm else None
                if fp is None:
                    # moved to another module of the package
                    c = [q.funcs[n] for q in self.P.mods.values() if n in q.funcs]
                    fp = c[0] if len(c) == 1 else None
                label = m.name.split('.')[-1] + ':' + n
                self.units[label] = Unit(label, None, n, False, fs, fp)

    # ---------------------------------------------------------------- summaries
    def summary(self, side, u, minus=frozenset(), forks=None, lvmap=None):
        k = (side, u.label, minus, forks, lvmap)
        if k in self._sum:
            return self._sum[k]
        prog = self.S if side == 'S' else self.P
        f = u.fs if side == 'S' else u.fp
        cls = u.cls
        if u.cls is not None and u.cls not in prog.classes:
            raise AnalysisBroken('class %s has vanished' % u.cls)
        names = self.shared - minus
        pmap = {}
        if side == 'P':
            pmap = R.param_map(u.fs, u.fp)
        fk = forks if forks is not None else self.try_calls(u)
        an, ps = R.summarise(prog, cls, f, pmap=pmap, opaque=names, baseline=names, forks=fk, limit=self.limit, lvmap=dict(lvmap or ()))
        self._sum[k] = (an, ps)
        return an, ps

    def try_calls(self, u):
        """calls the contract protects by a try or with statement: these may raise, wherever they are made"""
        if u.label in self.forks:
            return frozenset(self.forks[u.label])
        out = set()
        for n in ast.walk(u.fs.node):
            if isinstance(n, (ast.Try, ast.With)):
                for b in n.body:
                    for x in ast.walk(b):
                        if isinstance(x, ast.Call):
                            if isinstance(x.func, ast.Attribute):
                                out.add(x.func.attr)
                            elif isinstance(x.func, ast.Name):
                                out.add(x.func.id)
                        elif isinstance(x, ast.Delete):
                            out.add('__delitem__')
                        elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                            out.add(x.attr)
        return frozenset(out & (self.shared | {'f', 'g', '__delitem__', 'operation', 'optimize_parallel'}))

    # ---------------------------------------------------------------- one unit
    def coarse(self, u, proj=None, minus=frozenset(), forks=None):
        if u.why:
            return Result(u, R.UNKNOWN, note=u.why)
        if u.fp is None:
            if u.private:
                return Result(u, R.UNKNOWN, note='private helper %s is gone; its callers are compared with it inlined' % u.name)
            return Result(u, R.DIFF, note='%s is not defined any more' % u.label)
        if not isinstance(u.fp, Func):
            return Result(u, R.DIFF, note='%s is no longer implemented by the package (%r)' % (u.label, u.fp))
        if u.fs.kind != u.fp.kind and 'decorated' not in (u.fs.kind, u.fp.kind):
            return Result(u, R.DIFF if {u.fs.kind, u.fp.kind} & {'property'} else R.UNKNOWN, note='%s is now a %s' % (u.label, u.fp.kind))
        try:
            sa, sp = self.summary('S', u, minus, forks)
            an, pp = self.summary('P', u, minus, forks)
            m = loopvars(sa.steps, an.steps)
            if m:
                an, pp = self.summary('P', u, minus, forks, m)
            st, ds = self.C.compare(sp, pp, proj)
        except TooComplex as e:
            return Result(u, R.UNKNOWN, note='too complex: %s' % e)
        except RecursionError:
            return Result(u, R.UNKNOWN, note='too deep')
        if st == R.DIFF and generator(u.fs.node) != generator(u.fp.node):
            return Result(u, R.UNKNOWN, ds, npaths=len(pp), note='a generator, and a function that may return one')
        return Result(u, st, ds, npaths=len(pp))

    def all(self):
        """coarse status of every unit"""
        if not hasattr(self, '_all'):
            self._all = {l: self.coarse(u) for l, u in self.units.items()}
            self.changed = frozenset(r.unit.name for r in self._all.values() if r.status != R.EQUAL)
        return self._all

    def coarse_memo(self, label):
        return self.all()[label]

    def callers(self, name):
        """labels of units whose contract or implementation mentions name"""
        out = []
        for l, u in self.units.items():
            for f in (u.fs, u.fp):
                if isinstance(f, Func) and any((isinstance(x, ast.Attribute) and x.attr == name) or (isinstance(x, ast.Name) and x.id == name)
                                               for x in ast.walk(f.node)):
                    out.append(l)
                    break
        return out

    def decide(self, label, proj=None, forks=None, depth=0, minus=frozenset()):
        """final verdict on a unit: a difference counts only if it is visible from a public entry"""
        self.all()
        u = self.units.get(label)
        if u is None:
            raise AnalysisBroken('contract has no %s' % label)
        if proj is None and forks is None:
            k = (label, minus)
            if k not in self._dec:
                self._dec[k] = Result(u, R.UNKNOWN, note='recursive')
                self._dec[k] = self._decide(u, label, proj, forks, depth, minus)
            return self._dec[k]
        return self._decide(u, label, proj, forks, depth, minus)

    def _decide(self, u, label, proj, forks, depth, minus):
        r = self.coarse(u, proj, minus=minus, forks=forks)
        if r.status == R.EQUAL:
            return r
        if r.status == R.DIFF and not r.deltas:
            return r
        if r.status == R.DIFF:
            # calls only one side makes, replaced by what they do
            cs, cp = self.calls(u.fs), self.calls(u.fp)
            names = frozenset({k for k, _ in cs ^ cp} & self.shared) - R.HOOKS - {u.name}
            if names - minus:
                r3 = self.coarse(u, proj, minus=minus | names, forks=forks)
                if r3.status == R.EQUAL or r3.status == R.UNKNOWN and r3.deltas and names & {k for k, _ in cp}:
                    r3.fine = True
                    return r3
        if r.status == R.UNKNOWN and r.deltas:
            cs, cp = self.calls(u.fs), self.calls(u.fp)
            names = frozenset({k for k, _ in cs ^ cp} & self.shared) - R.HOOKS - {u.name}
            # what refuses or computes a value does so as well before the rest as after it: it stays a call
            names = frozenset(n for n in names if self.C.pure(n) or not self.C.harmless(n))
            if names - minus:
                r3 = self.coarse(u, proj, minus=minus | names, forks=forks)
                r3.fine = True
                if r3.status == R.EQUAL or r3.status == R.DIFF and r3.deltas:
                    return r3
        # once more with every changed helper inlined on both sides
        inl = frozenset(n for n in self.changed if n != u.name and (self.C.pure(n) or not self.C.harmless(n))) | minus
        if inl - minus:
            r2 = self.coarse(u, proj, minus=inl, forks=forks)
            r2.fine = True
            if r2.status == R.EQUAL:
                return r2
            if r2.status == R.UNKNOWN and r.status == R.UNKNOWN:
                r = r2 if r2.deltas else r
            elif r2.status == R.DIFF and r.status == R.UNKNOWN and u.fp is not None:
                r = r2
        if u.private and depth < 3 and u.fs.cls is not None:
            cs = [c for c in self.callers(u.name) if c != label and self.units[c].name != u.name]
            verdicts = []
            for c in cs:
                rc = self.decide(c, None, forks=None, depth=depth + 1, minus=minus | {u.name})
                if rc.status == R.EQUAL and isinstance(u.fp, Func) and not self._inlined(c, u, minus | {u.name}):
                    # dispatched dynamically: the caller cannot make up for it
                    verdicts.append(r.status)
                    break
                verdicts.append(rc.status)
                if rc.status == R.DIFF:
                    break
            if cs and all(v == R.EQUAL for v in verdicts):
                return Result(u, R.EQUAL, npaths=r.npaths, fine=True, note='equal in all callers')
            if r.status == R.DIFF and cs and not any(v == R.DIFF for v in verdicts) and \
                    not all(self.coarse_memo(c).status == R.EQUAL for c in cs):
                return Result(u, R.UNKNOWN, r.deltas, npaths=r.npaths, note='differs, callers undecided')
            if r.status == R.UNKNOWN and R.DIFF in verdicts:
                return Result(u, R.UNKNOWN, r.deltas, npaths=r.npaths)
        return r

    def calls(self, f):
        out, n = set(), {}
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, (ast.Attribute, ast.Name)):
                k = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id
                # a call of one's own method, and that of the same name of something else
                w = isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == 'self'
                n[k, w] = n.get((k, w), 0) + 1
                out.add((k, (w, n[k, w])))
        return out

    def _inlined(self, c, u, minus):
        for k, v in self._sum.items():
            if k[0] == 'P' and k[1] == c and u.name in k[2]:
                if u.fp.qual in v[0].inlined:
                    return True
        return False

    # ---------------------------------------------------------------- declarations
    def value(self, prog, mod, expr):
        an = Analysis(prog)
        fr = Frame(0, None, None, mod, None, None, None, 0, None)
        try:
            r = an.ev(expr, St(), fr)
        except TooComplex:
            return None
        if len(r) != 1 or isinstance(r[0][1], Raise) or r[0][0].flags:
            return None
        cn = R.Canon(an, prog, {})
        v = cn.t(an.deref(r[0][0], r[0][1]))
        return None if cn.unknown else v


def loopvars(s, p):
    """variables of a loop that start with the same value, and only one of them does: {implementation's: contract's}"""
    a, b = {}, {}
    for x, o, out in ((s, p, a), (p, s, b)):
        for d, init in x.items():
            if d not in o:
                out.setdefault(init, []).append(d)
    return tuple(sorted((b[i][0], a[i][0]) for i in b if len(b[i]) == 1 and len(a.get(i, ())) == 1))


def project(keep=None, val=True, exit=True):
    p = type('Proj', (), {})()
    p.keep = keep or (lambda e: True)
    p.val, p.exit = val, exit
    return p
