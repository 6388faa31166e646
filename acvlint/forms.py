"""Closed forms of whole functions, and comparing them."""
import ast
import os

from . import denote, norm
from .ctx import Fn, Mod
from .denote import IND, ONE, ZERO, Opaque, padd, plain, pmul, rebuild
from .norm import show, to_poly

HERE = os.path.dirname(os.path.abspath(__file__))
# kinds a compared form may contain: anything else is left undecided
PLAIN = {'c', 'n', 'L', 'G', 'B', 'P', 'idx', 'attr', 'poly', 'ind', 'inr', 'eq', 'ne', 'le', 'lt', 'S#', 'A#', 'C#', 'D#', 'range'}


def spec_mod(env, name):
    k = '_spec_' + name
    if not hasattr(env, k):
        p = os.path.join(HERE, 'specs', name + '.py')
        with open(p) as f:
            src = f.read()
        m = Mod('spec/%s.py' % name, ast.parse(src), src, True)
        keep = list(env.ctx.fns)
        env.ctx.index(m)
        env.ctx.fns[:] = keep
        setattr(env, k, m)
    return getattr(env, k)


def walk(env, fn):
    spec = fn.mod.rel.startswith('spec/')
    return env.walk(fn, (lambda g: True) if spec else
                    (lambda g: g.native and not g.name.startswith(('single_', 'compute_'))), 'forms')


def foreign(e, seen=None):
    """A construct in a closed form that the normal form does not interpret, or None."""
    seen = set() if seen is None else seen
    if isinstance(e, frozenset):
        for x in e:
            r = foreign(x, seen)
            if r:
                return r
        return None
    if not isinstance(e, tuple) or not e:
        return None
    if not isinstance(e[0], str):
        for x in e:
            r = foreign(x, seen)
            if r:
                return r
        return None
    if e[0] == 'c' or e[0] in ('n', 'L', 'P', 'B'):
        return None
    if e[0] not in PLAIN:
        return e[0] + ' ' + show(e)[:60]
    if e[0] in denote.REFS:
        if e[:2] not in seen:
            seen.add(e[:2])
            r = foreign(denote.TAB.body[e[1]], seen)
            if r:
                return r
        return foreign(e[2], seen)
    for x in e[1:]:
        if isinstance(x, (tuple, frozenset)):
            r = foreign(x, seen)
            if r:
                return r
    return None


def function_form(env, fn, rename=None):
    """Closed form of what fn returns: later returns where the guards of the earlier ones fail."""
    w = walk(env, fn)
    d = denote.Den(w, fn.params, (), rename)
    rets = [e for e in w.events if e.kind == 'return']
    if not rets or any(e.loops for e in rets):
        raise Opaque('returns inside a loop')
    total = None
    for e in reversed(rets):
        if e.value is None:
            raise Opaque('a return without a value')
        v = denote.generic(d, e.value, e.idx, (), set(denote.conj(e.guard)))
        if total is None:
            total = v
        else:
            g = d.cond(e.guard, e.idx, (), set())
            total = denote.choose(g, v, total)
    return total


def difference(a, b):
    """One term that the forms do not share, for the report."""
    p, q = to_poly(a), to_poly(b)
    d = [m for m in p if p[m] != q.get(m)]
    return '%d of %d terms differ' % (len(d) + len([m for m in q if m not in p]), max(len(p), len(q)))


def specialise(e, ctx):
    """Lists of lists read at the positions of the loops around the reader are one list; its length is a number."""
    fixed = {l.sym for l in ctx}

    def name(b):
        return ('n', show(b))

    def hook(e):
        if e[0] == 'call' and e[1][0] == 'attr' and e[1][2] in ('size', '__len__') and not e[2] and settled(e[1][1]):
            return ('n', '|' + show(e[1][1]) + '|')
        if e[0] == 'call' and e[1] == ('n', 'len') and len(e[2]) == 1 and settled(e[2][0]):
            return ('n', '|' + show(e[2][0]) + '|')
        if e[0] == 'idx' and e[1][0] == 'n' and len(e[2]) > 1:
            k = 0
            while k < len(e[2]) - 1 and e[2][k] in fixed:
                k += 1
            if k and e[1][1] not in KEEP:
                return ('idx', ('n', show(('idx', e[1], e[2][:k]))), e[2][k:])
        return None

    def settled(b):
        while b[0] == 'idx':
            if any(x not in fixed for x in b[2]):
                return False
            b = b[1]
        return b[0] == 'n'
    return deep(e, hook)


KEEP = {'X', 'data', 'values', 'partition_leaves_trees', 'leaf_idx_trees', 'fX', 'y_pred', 'leaves_nb'}


def deep(e, hook):
    memo = {}

    def go(e):
        if isinstance(e, frozenset):
            return frozenset(go(x) for x in e)
        if not isinstance(e, tuple) or not e:
            return e
        k = e[0]
        if k not in ('c', 'poly', 'ind', 'inr') and k not in denote.REFS and isinstance(k, str):
            h = hook(e)
            if h is not None:
                return h
        if k in ('c', 'n', 'L', 'B', 'P'):
            return e
        if k == 'poly':
            r = ZERO
            for mono, co in e[1]:
                t = norm.C(co)
                for a, x in mono:
                    t = pmul(t, denote.ppow(go(a), x))
                r = padd(r, t)
            return r
        if k in denote.REFS:
            if e not in memo:
                bs, body = denote.opened(e)
                bs = [(s, tuple(go(x) if isinstance(x, tuple) else x for x in d)) for s, d in bs]
                body = go(body)
                if k == 'S#':
                    r = denote.SUM(bs, body)
                elif k == 'C#':
                    r = denote.compare(*body)
                elif k == 'D#':
                    r = body
                else:
                    r = body
                    for s, d in reversed(bs):
                        r = denote.ALL(s, d, r)
                memo[e] = r
            return memo[e]
        if k == 'ind':
            return IND(go(e[1]))
        if k == 'inr':
            return denote.inrange(go(e[1]), ('range', go(e[2]), go(e[3])))
        r = tuple(go(x) if isinstance(x, (tuple, frozenset)) else x for x in e)
        h = hook(r) if isinstance(k, str) else None
        return r if h is None else h
    return go(e)


def names_in(e, out=None, seen=None):
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if isinstance(e, tuple) and len(e) == 2 and e[0] == 'n':
        out.add(e[1])
    elif isinstance(e, tuple) and e and e[0] in denote.REFS:
        if e[:2] not in seen:
            seen.add(e[:2])
            names_in(denote.TAB.body[e[1]], out, seen)
        names_in(e[2], out, seen)
    elif isinstance(e, (tuple, frozenset)):
        for x in e:
            if isinstance(x, (tuple, frozenset)):
                names_in(x, out, seen)
    return out


def search_forms(env, fn, rename=None):
    """Closed forms of the probabilities a coalition search compares: (event, form in terms of S, S_size and sample)."""
    w = walk(env, fn)
    out = []
    for e in w.events:
        if e.kind != 'assign' or e.op is not None or e.target[0] != 'idx' or e.value[0] == 'c' or len(e.loops) < 2:
            continue
        if not in_guard(e):
            continue
        v, frozen = denote.value_at(w, fn.params, e.value, e, names=rename)
        names = names_in(v)
        if 'partition_leaves_trees' not in names:
            continue
        out.append((e, v, frozen))
    return out


def in_guard(e):
    """The value is compared with what is stored there."""
    return any(has(c, e.target) for c in denote.conj(e.guard))


def has(c, t):
    return c == t or isinstance(c, (tuple, frozenset)) and any(has(x, t) for x in c if isinstance(x, (tuple, frozenset)))
