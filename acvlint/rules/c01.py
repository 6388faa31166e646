"""Leaf-region membership. Every order comparison between a sample value and a bound of a leaf region, in every
native kernel and Python function that receives the leaf partition (roles propagated from the tree container's
attributes along resolved calls, helpers inlined), is put in canonical form; the rule asks that ties go to the
upper-bound side (x <= high, low < x), that both bounds of the same region are tested together with the right
polarity, and that the feature tested is the feature of the bound."""
import ast

from ..ctx import walk_own
from ..norm import subterms, show, skey

CM = ('lt', 'le')


def bound(env, fn, e):
    """(prefix, feature, 0|1) when e is one bound of a leaf region."""
    if e[0] == 'idx' and env.role_of(fn, e) == 'PART' and len(e[2]) >= 2 and e[2][-1] in (('c', 0), ('c', 1)):
        base = e[1]
        return (base,) + e[2][:-2], e[2][-2], e[2][-1][1]
    return None


def classify(env, fn, a):
    """atom -> (sample, prefix, feature, which, inside?, tie_ok)"""
    if a[0] not in CM:
        return None
    l, r = a[1], a[2]
    bl, br = bound(env, fn, l), bound(env, fn, r)
    if bl and br or not (bl or br):
        return None
    if br:
        pre, f, w = br
        smp = l
        less = True          # sample (<|<=) bound
    else:
        pre, f, w = bl
        smp = r
        less = False         # bound (<|<=) sample
    strict = a[0] == 'lt'
    if w == 1:
        inside = less
        tie = (less and not strict) or (not less and strict)
    else:
        inside = not less
        tie = (not less and strict) or (less and not strict)
    return smp, pre, f, w, inside, tie


def groups(env, fn, e, out):
    """Collect membership atoms with their connective: out[(sample,prefix,feature)] -> list of (which, inside, conn)."""
    k = e[0]
    if k in ('and', 'or'):
        for x in e[1]:
            c = classify(env, fn, x)
            if c:
                out.append((k, e, c, x))
            else:
                groups(env, fn, x, out)
    elif k == 'poly':
        for m, co in e[1]:
            cs = [(a, classify(env, fn, a)) for a, n in m]
            whole = ('and', frozenset(a for a, c in cs if c))
            for a, c in cs:
                if c:
                    out.append(('and', whole, c, a))
                else:
                    groups(env, fn, a, out)
    else:
        c = classify(env, fn, e)
        if c:
            out.append(('lone', e, c, e))
            return
        for x in e[1:] if isinstance(e, tuple) else ():
            if isinstance(x, tuple) and x:
                if isinstance(x[0], str):
                    groups(env, fn, x, out)
                else:
                    for y in x:
                        if isinstance(y, tuple) and y and isinstance(y[0], str):
                            groups(env, fn, y, out)
            elif isinstance(x, frozenset):
                for y in x:
                    if isinstance(y, tuple) and y and isinstance(y[0], str):
                        groups(env, fn, y, out)


def check(env, r):
    roles = env.roles()
    fns = {f for (f, p), ro in roles.items() if ro == 'PART'}
    for f in env.ctx.fns:
        if any(isinstance(n, ast.Attribute) and env.ATTR_ROLES.get(n.attr) == 'PART' for n in walk_own(f.node)):
            fns.add(f)
    fns = sorted(fns, key=lambda f: f.qual)
    for fn in fns:
        w = env.walk_inl(fn)
        seen = set()
        for e in w.events:
            for form in ([e.guard] if e.guard is not None else []) + ([e.value] if isinstance(e.value, tuple) and
                                                                      e.value and isinstance(e.value[0], str) else []):
                out = []
                groups(env, fn, form, out)
                for conn, whole, (smp, pre, f, wh, inside, tie), atom in out:
                    sk = (e.fn, conn, skey(whole), skey(atom))
                    if sk in seen:
                        continue
                    seen.add(sk)
                    r.unit(fn)
                    what = '%s bound vs %s' % ('upper' if wh else 'lower', show(smp).split('[')[0])
                    con = '%s/%s' % (fn.qual, what.replace(' ', '-'))
                    r.ob('tie-side', con, e.loc(), tie,
                         '' if tie else '`%s`: a sample exactly on the %s bound is put on the wrong side'
                         % (show(atom), 'upper' if wh else 'lower'))
                    sf = smp[2][-1] if smp[0] == 'idx' else None
                    r.ob('same-feature', con, e.loc(), sf == f,
                         '' if sf == f else '`%s` compares feature %s of the sample with the bound of feature %s'
                         % (show(atom), show(sf) if sf else '?', show(f)))
                    # the other bound, same sample and region, same polarity and connective
                    mates = [c for x in (whole[1] if whole[0] in ('and', 'or') else [whole])
                             for c in [classify(env, fn, x)] if c and c[:3] == (smp, pre, f)]
                    both = {c[3] for c in mates} == {0, 1} and all(c[4] == inside for c in mates)
                    good = both and (conn == 'and') == inside and conn != 'lone'
                    r.ob('both-bounds', con, e.loc(), good,
                         '' if good else '`%s` does not test lower and upper bound of the region together' % show(whole))
    r.floor('tie-side', 60)
