"""Shared state of a run: the source index, canonical walks of every function, role propagation, results."""
import ast
import json
import os
import time

from .ctx import AnalysisError, Ctx, Fn, Resolver, walk_own
from . import norm

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Result:
    """Obligations of one rule set: each names its construct (stable key), where it is, and whether it holds."""

    def __init__(self, prop):
        self.prop = prop
        self.obls = []          # (rule, construct, loc, ok, message)
        self.notes = []
        self.units = set()

    def ob(self, rule, construct, loc, ok, msg=''):
        self.obls.append((rule, construct, loc, bool(ok), msg))
        return ok

    def unit(self, fn):
        self.units.add(fn.qual if hasattr(fn, 'qual') else str(fn))

    def count(self, rule):
        return sum(1 for o in self.obls if o[0] == rule)

    def floor(self, rule, n):
        c = self.count(rule)
        if c < n:
            raise AnalysisError('rule %s of %s: only %d instances found, at least %d confirmed by hand on the '
                                'reference tree (anchors vanished?)' % (rule, self.prop, c, n))

    def bad(self):
        out, seen = [], set()
        for o in self.obls:
            if not o[3]:
                k = (o[0], o[1])
                if k not in seen:
                    seen.add(k)
                    out.append(o)
        return out


class Env:
    """One analysis session over one source tree."""

    def __init__(self, repo=None, overlay=None):
        self.ctx = Ctx(repo, overlay)
        self.res = Resolver(self.ctx)
        self._walks = {}

    def walk(self, fn, inline=None, tag='', **kw):
        k = (fn, tag)
        if k not in self._walks:
            self._walks[k] = norm.Walker(fn, self.res, inline, **kw)
        return self._walks[k]

    # every function inlined into its callers, except those in `anchors`
    def walk_inl(self, fn, anchors=frozenset()):
        k = (fn, 'inl', anchors)
        if k not in self._walks:
            self._walks[k] = norm.Walker(fn, self.res, lambda f: f.qual not in anchors and f.native == fn.native)
        return self._walks[k]

    @property
    def native_fns(self):
        return [f for f in self.ctx.fns if f.native]

    # ------------------------------------------------------------ roles
    ATTR_ROLES = {
        'partition_leaves_trees': 'PART', 'leaf_idx_trees': 'LEAFIDX', 'leaves_nb': 'LEAVESNB', 'values': 'VALUES',
        'features': 'FEAT', 'thresholds': 'THR', 'children_left': 'CL', 'children_right': 'CR',
        'node_idx_trees': 'NODEIDX', 'max_depth': 'MAXDEPTH', 'values_binary': 'VALUES', 'max_var': 'MAXVAR',
    }

    def roles(self):
        """(Fn, param) -> role, propagated from the attributes of the tree containers along every resolved call."""
        if hasattr(self, '_roles'):
            return self._roles
        roles = {}
        for f in self.ctx.fns:
            for p in f.params:
                if f.native and p in self.ATTR_ROLES:
                    roles[(f, p)] = self.ATTR_ROLES[p]
        calls = []
        for f in self.ctx.fns:
            for n in walk_own(f.node):
                if isinstance(n, ast.Call):
                    c = self.res.callee(f, n)
                    if c:
                        m, _, _ = self.res.bind(c[0], c[1], n)
                        calls.append((f, c[0], m))
        changed = True
        while changed:
            changed = False
            for f, g, m in calls:
                for p, a in m.items():
                    r = None
                    if isinstance(a, ast.Attribute) and a.attr in self.ATTR_ROLES:
                        r = self.ATTR_ROLES[a.attr]
                    elif isinstance(a, ast.Name):
                        r = roles.get((f, a.id))
                    if r and roles.get((g, p)) != r and (g, p) not in roles:
                        roles[(g, p)] = r
                        changed = True
        self._roles = roles
        return roles

    def role_of(self, fn, e):
        """Role of canonical expression e in (outermost) function fn."""
        while e[0] == 'idx':
            e = e[1]
        if e[0] == 'n':
            return self.roles().get((fn, e[1]))
        if e[0] == 'attr':
            return self.ATTR_ROLES.get(e[2])
        return None


# ------------------------------------------------------------ running one property
def load_known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding:'):
                    d = {}
                    head, _, text = line[len('finding:'):].partition(' :: ')
                    for part in head.split():
                        k, _, v = part.partition('=')
                        d[k] = v
                    d['text'] = text
                    out.append(d)
    return out


def run_property(prop, check, tier, seed, meta, extra=None):
    t0 = time.time()
    env = Env()
    r = Result(prop)
    check(env, r)
    bad = r.bad()
    known = [k for k in load_known() if k.get('property') == prop]
    kmap = {(k['rule'], k['construct']): k for k in known}
    new = [o for o in bad if (o[0], o[1]) not in kmap]
    old = [o for o in bad if (o[0], o[1]) in kmap]
    rules = {}
    for o in r.obls:
        d = rules.setdefault(o[0], {'obligations': 0, 'discharged': 0})
        d['obligations'] += 1
        d['discharged'] += o[3]
    step = max(1, len(r.obls) // 12)
    cov = {
        'explanation': meta,
        'rules': rules,
        'obligations': len(r.obls),
        'discharged': sum(1 for o in r.obls if o[3]),
        'functions_analysed': len(r.units),
        'samples': [{'rule': o[0], 'construct': o[1], 'where': o[2], 'holds': o[3], 'detail': o[4]}
                    for o in r.obls[::step][:14]],
        'notes': r.notes,
        'known_findings': [{'rule': o[0], 'construct': o[1], 'where': o[2], 'detail': o[4]} for o in old],
    }
    if extra:
        cov['thorough'] = extra(env, r)
    evd = os.path.join(VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, prop + '.json'), 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
                   'assumptions': ['The source text in the working tree is what is built; parsing is done by '
                                   'Python\'s ast, the Cython compiler\'s own parser and clang.'],
                   'wall_s': round(time.time() - t0, 3), 'violations': len(new)}, f, indent=1, default=str)
    print('%s [%s]: %d obligations in %d functions; ' % (prop, tier, len(r.obls), len(r.units)) +
          ', '.join('%s %d/%d' % (k, v['discharged'], v['obligations']) for k, v in sorted(rules.items())))
    for o in old:
        print('KNOWN-FINDING: property=%s %s: %s [%s] %s' % (prop, o[0], o[1], o[2], o[4]))
    gone = [k for k in known if (k['rule'], k['construct']) not in {(o[0], o[1]) for o in bad}]
    for k in gone:
        print('note: recorded finding %s / %s was not met on this tree' % (k['rule'], k['construct']))
    if new:
        vp = os.path.join(evd, prop + '.violations.txt')
        with open(vp, 'w') as f:
            for o in new:
                f.write('%s: rule %s, construct %s: %s\n' % (o[2], o[0], o[1], o[4]))
        for o in new[:40]:
            print('%s: rule %s, construct %s: %s' % (o[2], o[0], o[1], o[4]))
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(vp, VERIF)))
        return 1
    return 0
