"""Runs the obligations of one property and reports."""
import ast
import json
import os
import sys
import time

from . import refine as R
from . import terms as T
from .contract import Refinement, project
from .props import PROPS, OMIT
from .src import AnalysisBroken, Func
from .refine import inner_attr

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('PZ_EVIDENCE') or os.path.join(HERE, 'evidence')
FINDINGS = os.path.join(HERE, 'known_findings.txt')


class Finding(object):
    """a refuted obligation"""
    def __init__(self, rule, where, text, key=None):
        self.rule, self.where, self.text = rule, where, text
        self.key = key or '%s %s' % (rule, where)


class Outcome(object):
    """what one rule or contract unit came to"""
    def __init__(self, obligation, status, note='', findings=(), paths=0, where=None):
        self.obligation, self.status, self.note = obligation, status, note
        self.findings, self.paths, self.where = list(findings), paths, where


def event_name(e):
    if e.kind == 'setitem':
        return inner_attr(e.key[1])
    if e.kind in ('delitem', 'inplace'):
        return inner_attr(e.key[2]) or e.name
    return e.name


def projection(spec):
    if not spec:
        return None
    if spec == '~':
        return project(lambda e: True, val=False, exit=False)
    names = frozenset(spec[1:].split(','))
    if spec[0] == '+':
        return project(lambda e: event_name(e) in names or e.kind == 'setattr', val=False, exit=True)
    return project(lambda e: event_name(e) not in names)


def match(rf, entry, pid):
    out = []
    e = entry.split()
    n, spec = e[0], e[1] if len(e) > 1 else None
    st = n.endswith('=')
    n = n.rstrip('=')
    for l, u in rf.units.items():
        q = u.fs.qual
        if ':' in n:
            ok = u.cls is None and l == n
        elif n.endswith('.*'):
            ok = q.startswith(n[:-1]) and u.name not in OMIT.get(pid, ())
        else:
            ok = q == n and u.setter == st
        if ok:
            out.append((l, spec))
    if not out:
        raise AnalysisBroken('property %s names %s, which the contract does not have' % (pid, n))
    return out


def where_of(rf, u):
    f = u.fp if isinstance(u.fp, Func) else None
    return '%s:%d' % (rf.P.rel(f), f.node.lineno) if f is not None else None


def signature(rf, u):
    """defaults of the public parameters, which callers outside of the package rely on"""
    if not isinstance(u.fp, Func) or u.private:
        return None
    a, b = u.fs.node.args, u.fp.node.args

    def table(args):
        xs = list(args.args)
        d = [None] * (len(xs) - len(args.defaults)) + list(args.defaults)
        t = [(x.arg, y) for x, y in zip(xs, d)]
        return t, {x.arg: y for x, y in zip(args.kwonlyargs, args.kw_defaults)}
    ta, ka = table(a)
    tb, kb = table(b)
    names = dict(tb)
    names.update(kb)
    out = []
    for i, (n, d) in enumerate(ta):
        if i < len(tb):
            e = tb[i][1] if tb[i][0] == n or n not in names else names[n]
        elif n in names:
            e = names[n]
        elif b.vararg or b.kwarg:
            return None
        else:
            out.append('%s no longer accepts %s' % (u.label, n))
            continue
        if d is None:
            continue
        if e is None:
            out.append('%s now requires %s' % (u.label, n))
            continue
        if ast.dump(d) == ast.dump(e):
            continue
        va, vb = rf.value(rf.S, u.fs.mod, d), rf.value(rf.P, u.fp.mod, e)
        if va is None or vb is None or va == vb:
            continue
        out.append('%s now defaults %s to %s instead of %s' % (u.label, n, ast.unparse(e), ast.unparse(d)))
    return out


def declaration(rf, name):
    """the value of a class attribute or a module constant"""
    owner, attr = name.split('.')
    if owner in rf.S.classes:
        sc, pc = rf.S.classes[owner], rf.P.classes.get(owner)
        if pc is None:
            return Outcome(name, R.UNKNOWN, 'class %s has vanished' % owner)

        def find(prog, c):
            for k in prog.mro(c):
                if not getattr(k, 'ext', False) and attr in k.attrs:
                    return k.attrs[attr], k.mod
            return None, None
        (es, ms), (ep, mp) = find(rf.S, sc), find(rf.P, pc)
    else:
        def findm(prog):
            for m in prog.mods.values():
                if m.name.split('.')[-1] == owner and attr in m.consts:
                    return m.consts[attr], m
            c = [m for m in prog.mods.values() if attr in m.consts]
            return (c[0].consts[attr], c[0]) if len(c) == 1 else (None, None)
        (es, ms), (ep, mp) = findm(rf.S), findm(rf.P)
    if es is None:
        raise AnalysisBroken('the contract does not declare %s' % name)
    if ep is None:
        return Outcome('declaration ' + name, R.UNKNOWN, 'not declared as a plain value any more')
    if attr in mp.multi:
        return Outcome('declaration ' + name, R.UNKNOWN, 'bound more than once')
    va, vb = rf.value(rf.S, ms, es), rf.value(rf.P, mp, ep)
    w = '%s:%d' % (os.path.relpath(mp.path, rf.P.repo), ep.lineno)
    if ast.dump(es) == ast.dump(ep) or (va is not None and va == vb):
        return Outcome('declaration ' + name, R.EQUAL, where=w)
    if va is None or vb is None:
        return Outcome('declaration ' + name, R.UNKNOWN, 'value not known statically')
    return Outcome('declaration ' + name, R.DIFF, findings=[
        Finding('declaration', w, '%s is %s, the contract requires %s' % (name, ast.unparse(ep), ast.unparse(es)), 'declaration ' + name)], where=w)


def run_units(rf, pid):
    todo, outs = {}, []
    for e in PROPS[pid]['units']:
        for l, spec in match(rf, e, pid):
            todo.setdefault(l, set()).add(spec)
    for l, specs in todo.items():
        u = rf.units[l]
        if None in specs:
            specs = {None}
        for spec in sorted(specs, key=str):
            proj = projection(spec)
            r = rf.coarse(u, proj)
            if r.status != R.EQUAL:
                r = rf.decide(l, proj)
            w = where_of(rf, u)
            fs = []
            if r.status == R.DIFF:
                ds = r.deltas or [None]
                for d in ds[:6]:
                    if d is None:
                        fs.append(Finding('contract', w or l, r.note, 'contract ' + l))
                    else:
                        fs.append(Finding('contract', d.where() or w or l, '%s: %s' % (d.kind, d.describe()), 'contract ' + l))
            outs.append(Outcome('contract %s%s' % (l, ' [%s]' % spec if spec else ''), r.status, r.note, fs, r.npaths, w))
        sig = signature(rf, u)
        if sig is not None:
            outs.append(Outcome('interface ' + l, R.DIFF if sig else R.EQUAL, '',
                                [Finding('interface', where_of(rf, u), s, 'interface ' + l) for s in sig], 0, where_of(rf, u)))
    return outs


def run(pid, rf=None, thorough=False):
    t0 = time.time()
    sys.setrecursionlimit(20000)
    rf = rf or (Refinement(limit=20000, time_limit=700) if thorough else Refinement())
    rf.dense = 24 if thorough else 0
    outs = run_units(rf, pid)
    for n in PROPS[pid].get('decls', ()):
        outs.append(declaration(rf, n))
    from . import rules
    for n in PROPS[pid].get('rules', ()):
        outs.extend(getattr(rules, n)(rf))
    return rf, outs, time.time() - t0


def dependencies(rf, pid, deadline):
    """What the functions of a property call, transitively, decided as well.  A difference there is a difference of another
    property (which has its own check): it is listed, not alarmed."""
    by = {}
    for l, u in rf.units.items():
        by.setdefault(u.name, []).append(l)
    own = {l for e in PROPS[pid]['units'] for l, _ in match(rf, e, pid)}
    seen, todo, out = set(own), sorted(own), []
    while todo:
        u = rf.units[todo.pop()]
        if not isinstance(u.fs, Func):
            continue
        for n in ast.walk(u.fs.node):
            k = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
            for l in by.get(k, ()):
                if l not in seen:
                    seen.add(l)
                    todo.append(l)
    for l in sorted(seen - own):
        if time.time() > deadline:
            out.append({'obligation': l, 'status': 'not reached'})
            continue
        u = rf.units[l]
        r = rf.coarse(u, None)
        if r.status != R.EQUAL:
            r = rf.decide(l, None)
        out.append({'obligation': l, 'status': r.status, 'paths': r.npaths, 'where': where_of(rf, u)})
    return out


def known(pid):
    out = {}
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                _, _, rest = l.partition(' key=')
                k, _, text = rest.partition(' | ')
                out[k.strip()] = text.strip()
    return out


def main(argv):
    pid = argv[0]
    thorough = '--thorough' in argv
    tier = 'thorough' if thorough else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        rf, outs, wall = run(pid, thorough=thorough)
    except AnalysisBroken as e:
        print('analysis of %s is not possible: %s' % (pid, e))
        return 2
    kf = known(pid)
    bad, listed = [], []
    for o in outs:
        for f in o.findings if o.status == R.DIFF else ():
            (listed if f.key in kf else bad).append((o, f))
    st = {}
    for o in outs:
        st[o.status] = st.get(o.status, 0) + 1
    deps = dependencies(rf, pid, time.time() + 400) if thorough else None
    os.makedirs(EVIDENCE, exist_ok=True)
    samples = [{'obligation': o.obligation, 'status': o.status, 'where': o.where, 'paths': o.paths} for o in outs[:12]]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the source under %s. Each obligation is a function (resolved through the class hierarchy), '
                           'an interface default, a declaration or a rule instance that the property depends on; all paths of a function are '
                           'summarised by interprocedural dataflow and compared with the contract.' % rf.P.repo,
            'obligations_total': len(outs),
            'obligations_by_result': {'held': st.get(R.EQUAL, 0), 'refuted': st.get(R.DIFF, 0), 'undecided': st.get(R.UNKNOWN, 0)},
            'functions_analysed': len({o.where for o in outs if o.where}),
            'paths_compared': sum(o.paths for o in outs),
            'files': len(rf.P.files),
            'undecided': [{'obligation': o.obligation, 'note': o.note} for o in outs if o.status == R.UNKNOWN],
            'refuted': [{'rule': f.rule, 'where': f.where, 'text': f.text[:2000]} for o, f in bad],
            'samples': samples,
        },
        'assumptions': ['numpy, scipy and the standard library behave as documented',
                        'user subclasses use the documented extension points only'],
        'wall_s': round(wall, 2),
        'violations': len(bad),
    }
    if deps is not None:
        ev['coverage']['dependencies'] = {
            'rule': 'functions reached from the obligations by calls, compared in the same way; differences there are reported by the check of their own property',
            'analysed': len(deps), 'held': sum(x['status'] == R.EQUAL for x in deps), 'other': [x for x in deps if x['status'] != R.EQUAL]}
    with open(os.path.join(EVIDENCE, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    for k in sorted({f.key for o, f in listed}):
        print('KNOWN-FINDING: property=%s %s' % (pid, kf[k]))
    print('%s: %d obligations, %d held, %d undecided, %d refuted (%.1f s)' % (
        pid, len(outs), st.get(R.EQUAL, 0), st.get(R.UNKNOWN, 0), st.get(R.DIFF, 0), wall))
    for o in outs:
        if o.status == R.UNKNOWN:
            print('  undecided: %s %s' % (o.obligation, o.note))
    if bad:
        rp = os.path.join(EVIDENCE, pid + '.violation.txt')
        with open(rp, 'w') as fh:
            for o, f in bad:
                fh.write('%s\n  at %s\n  %s\n\n' % (o.obligation, f.where, f.text))
        for o, f in bad[:8]:
            print('  %s at %s: %s' % (o.obligation, f.where, f.text[:600]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0
