"""Averages over the surviving samples. For every projected walk the accumulations into the estimate and into the weights
are put together (helpers inlined, local accumulators substituted, branches of a guard turned into factors) and compared
with the quantity the kernel is named after: every tree counts 1/number of trees, every surviving sample 1/number of
survivors, and a sample counts for what its output says (equal class, output in the closed interval, output at most t, the
output itself). Indicators are compared by enumerating all orderings of the outputs and interval ends."""
import ast
import itertools

from ..norm import (AND, OR, NOT, TRUE, FALSE, Atoms, ev, show, subst, subterms, to_poly, from_poly, mul, add, power,
                    mentions, neg)
from ..walks import walk_roots, is_idx, refs

BOOL = ('lt', 'le', 'eq', 'ne', 'and', 'or', 'not', 'in', 'notin')
Y, YX, T0, T1, TT, DOWN, UP, CLF = [('n', '#' + k) for k in ('y', 'yx', 't0', 't1', 't', 'down', 'up', 'clf')]


def kind_of(name):
    for k in ('quantile_diff', 'quantile', 'cdf', 'exp', 'sdp', 'ddp', 'cdp'):
        if '_%s' % k in name:
            return k
    return None


def clf_guard(e, fn):
    def f(t):
        if isinstance(t, tuple) and t and t[0] in ('eq', 'ne') and ('n', 'classifier') in t[1:]:
            o = t[2] if t[1] == ('n', 'classifier') else t[1]
            if o in (('c', 1), ('c', True)):
                return CLF if t[0] == 'eq' else NOT(CLF)
            if o in (('c', 0), ('c', False)):
                return NOT(CLF) if t[0] == 'eq' else CLF
        return None
    e = subst(e, f)
    return subst(e, lambda t: CLF if t == ('n', 'classifier') else None)


def numeric(poly, o, b, syms):
    """Value of a polynomial whose atoms are conditions or numbers of the valuation."""
    tot = 0
    for m, c in poly.items():
        v = c
        for a, n in m:
            if a[0] in BOOL or a == CLF:
                x = 1 if ev(a, o, b) else 0
            elif a[0] == 'ite':
                x = numeric(to_poly(a[2] if ev(a[1], o, b) else a[3]), o, b, syms)
                if x is None:
                    return None
            else:
                return None
            v = v * (x ** n if n > 0 else (x if x else 1))
        tot += v
    return tot


def check(env, r):
    for wf in walk_roots(env):
        one(env, r, wf)
    r.floor('estimate', 13)
    r.floor('weights', 5)


def size_of(d):
    return ('call', ('attr', d, 'size'), (), ())


def one(env, r, wf):
    fn, w = wf.root, wf.w
    kind = kind_of(fn.name)
    if kind is None:
        return
    last = wf.inserts[-1].idx
    tl = wf.treeloop
    depth = [l.sym for l in wf.inserts[0].loops].index(wf.b) + 1
    ntrees = tl.dom[2] if tl.kind == 'range' else None
    accs = {}      # target -> list of (guard, value, event, sample sym)
    zeros = set()
    for e in w.events:
        if e.kind != 'assign' or e.value is None:
            continue
        intree = any(l.sym == wf.b for l in e.loops)
        inlevels = len(e.loops) > depth and e.loops[depth].sym in {l.sym for l in wf.inserts[0].loops}
        if intree and not inlevels and e.idx > last:
            if e.op is None and e.value == ('c', 0):
                zeros.add(e.target)
            elif e.op == '+' and len(e.loops) - depth <= 1:
                accs.setdefault(e.target, []).append(e)
    if not accs:
        return
    r.unit(fn)
    locals_ = {t for t in accs if t in zeros}
    outs = {t: es for t, es in accs.items() if t not in zeros}
    groups = {}
    for t, es in outs.items():
        base = t
        while is_idx(base):
            base = base[1]
        groups.setdefault(base, []).extend(es)
    masks = None
    for base, es in sorted(groups.items(), key=str):
        total, err, arr = {}, None, is_idx(es[0].target)
        parts = []
        for e in es:
            for g, v, d, s in contribs(wf, e, accs, locals_, depth):
                if v is None:
                    err = 'the value added cannot be read'
                    break
                parts.append((g, v, d, s, e))
        if err or not parts:
            continue
        rule = 'weights' if arr else 'estimate'
        ok, why = compare(env, wf, kind, rule, parts, ntrees, base, depth)
        r.ob(rule, fn.qual, parts[0][4].loc(), ok, why)


def contribs(wf, e, accs, locals_, depth):
    """(guard, value per sample, sample set or None, sample term)"""
    lp = e.loops[depth:]
    g = e.guard
    if lp:
        yield g, e.value, lp[0], e
        return
    # += of a local accumulator: expand
    p = to_poly(e.value)
    for m, c in p.items():
        loc = [a for a, n in m if a in locals_ and n == 1]
        if len(loc) != 1:
            yield g, None, None, None
            return
        rest = from_poly({tuple(x for x in m if x[0] != loc[0]): c})
        for e2 in accs[loc[0]]:
            lp2 = e2.loops[depth:]
            if not lp2:
                yield g, None, None, None
                return
            yield AND(g, e2.guard), mul(rest, e2.value), lp2[0], e2


def compare(env, wf, kind, rule, parts, ntrees, base, depth):
    fn, w = wf.root, wf.w
    norm = []
    scale_after = after_scale(w, wf, base, ntrees)
    for g, v, lp, e2, e in parts:
        # sample and survivor set
        if lp.kind == 'iter':
            d, s = lp.dom, lp.sym
            size = [size_of(d), ('call', ('n', 'len'), (d,), ())]
            smp = s
        else:
            hi = lp.dom[2]
            if lp.dom[1] != ('c', 0) or lp.dom[3] != ('c', 1):
                return False, 'the samples are not visited from the first on'
            if hi[0] == 'call' and hi[1][0] == 'attr' and hi[1][2] == 'size':
                d = hi[1][1]
                smp = ('idx', d, (lp.sym,))
                size = [hi]
            else:
                d, smp, size = None, lp.sym, []
        mask = None
        if d is None:
            # mask form: factor mask[i], and the sum of the mask as size
            p = to_poly(v)
            msk = {a for m in p for a, n in m if is_idx(a) and a[2] == (lp.sym,) and n == 1 and a[1] != ('n', 'y_data')}
            if len(msk) != 1:
                return False, 'the samples are not those that survived the walk'
            mask = msk.pop()
            v = mul(v, power(mask, -1))
            for x in w.events:
                if x.kind == 'assign' and x.op == '+' and x.loops[depth:] and x.target[0] == 'n':
                    l2 = x.loops[depth]
                    if subst(x.value, lambda t: lp.sym if t == l2.sym else None) == mask and l2.dom == lp.dom and \
                            any(z.kind == 'assign' and z.target == x.target and z.value == ('c', 0) and
                                len(z.loops) == depth for z in w.events):
                        size.append(x.target)

        def f(t):
            if t == ('idx', ('n', 'y_data'), (smp,)):
                return Y
            if t == ('idx', ('n', 'local_diff'), (smp,)):
                return None
            if t == ('n', 'y_x'):
                return YX
            if t == ('idx', ('n', 't'), (('c', 0),)):
                return T0
            if t == ('idx', ('n', 't'), (('c', 1),)):
                return T1
            if t == ('n', 'down'):
                return DOWN
            if t == ('n', 'up'):
                return UP
            return None
        v2 = subst(v, f)
        v2 = subst(v2, lambda t: TT if t == ('n', 't') else None)
        g2 = clf_guard(subst(g, f), fn)
        # drop what only says that there is a survivor
        g2 = subst(g2, lambda t: TRUE if t in [('lt', ('c', 0), z) for z in size] + [('ne', ('c', 0), z) for z in size] +
                   [('ne', z, ('c', 0)) for z in size] + [('le', ('c', 1), z) for z in size] else None)
        v2 = clf_guard(v2, fn)
        if rule == 'weights' and not (is_idx(e.target) and e.target[2][-1] == smp):
            return False, 'the weight added belongs to another sample'
        val = None
        for z in size:
            cand = mul(v2, z)
            if not (set(subterms(cand)) & set(size)):
                val = cand
                break
        if val is None:
            return False, 'a surviving sample does not count 1/(number of survivors): it adds `%s`' % show(v2)
        nt = mul(val, ntrees) if not scale_after else val
        if ntrees in set(subterms(nt)):
            return False, 'a tree does not count 1/(number of trees): `%s`' % show(v2)
        norm.append((g2, nt))
    return match(kind, rule, norm, fn)


def after_scale(w, wf, base, ntrees):
    """The accumulated quantity is divided by the number of trees after the loop over the trees."""
    inv = power(ntrees, -1)
    for e in w.events:
        if any(l.sym == wf.b for l in e.loops):
            continue
        if e.kind == 'assign' and e.op == '*' and e.value == inv and (e.target == base or (is_idx(e.target) and e.target[1] == base)):
            return True
        if e.kind in ('assign', 'return') and e.value is not None:
            for t in subterms(e.value):
                if isinstance(t, tuple) and t and t[0] == 'poly':
                    for m, c in to_poly(t).items():
                        d = dict(m)
                        if d.get(ntrees) == -1 and any(base in set(subterms(a)) for a in d if a != ntrees):
                            return True
    return False


def match(kind, rule, norm, fn):
    if kind in ('exp',) or (kind == 'quantile' and rule == 'estimate') or kind == 'quantile_diff' and rule == 'estimate':
        want = Y
        for clf in (True, False):
            tot = ('c', 0)
            for g, v in norm:
                gg = subst(g, lambda t: (TRUE if clf else FALSE) if t == CLF else None)
                gg = resimplify(gg)
                if gg == TRUE:
                    tot = add(tot, v)
                elif gg != FALSE:
                    return False, 'a sample is counted under a condition: %s' % show(gg)
            if tot != want:
                return False, 'a sample counts `%s` instead of its output' % show(tot)
        return True, ''
    if rule == 'weights':
        spec = {True: TRUE, False: TRUE}
    elif kind == 'sdp':
        spec = {True: ('eq', Y, YX), False: AND(('le', T0, Y), ('le', Y, T1))}
    elif kind == 'ddp':
        spec = {True: NOT(('eq', Y, YX)), False: NOT(AND(('le', T0, Y), ('le', Y, T1)))}
    elif kind == 'cdp':
        if 'down' in fn.params:
            spec = {True: ('eq', Y, YX), False: AND(('le', DOWN, Y), ('le', Y, UP))}
        else:
            spec = {True: NOT(('eq', Y, YX)), False: AND(('le', T0, Y), ('le', Y, T1))}
    elif kind == 'cdf':
        spec = {True: ('le', Y, TT), False: ('le', Y, TT)}
    else:
        return True, ''
    if fn.name.endswith(('_v0', '_v0_weights')) and kind == 'sdp' and rule == 'estimate':
        sq = add(add(power(Y, 2), power(YX, 2)), mul(('c', -2), mul(Y, YX)))
        spec = {True: ('eq', Y, YX), False: ('le', sq, TT)}
    for clf in (True, False):
        A = Atoms()
        sp = spec[clf]
        A.collect(sp)
        gs = []
        for g, v in norm:
            gg = resimplify(subst(g, lambda t: (TRUE if clf else FALSE) if t == CLF else None))
            v = resimplify_val(subst(v, lambda t: (TRUE if clf else FALSE) if t == CLF else None))
            gs.append((gg, v))
            A.collect(gg)
            for m in to_poly(v):
                for a, n in m:
                    for t in subterms(a):
                        if isinstance(t, tuple) and t and t[0] in BOOL:
                            A.collect(t)
        if 3 ** len(A.pairs) * 2 ** len(A.bools) > 200000:
            return False, 'too many conditions'
        for o, b in A.assignments():
            if consistent(o):
                tot = 0
                for gg, v in gs:
                    if ev(gg, o, b):
                        x = numeric(to_poly(v), o, b, None)
                        if x is None:
                            return False, 'a sample counts `%s`' % show(v)
                        tot += x
                if tot != (1 if ev(sp, o, b) else 0):
                    return False, 'a sample counts %s where %s is %s (%s, %s)' % (
                        tot, show(sp), ev(sp, o, b), 'classification' if clf else 'regression',
                        ', '.join('%s %s %s' % (show(p[0]), '<=>'[q + 1], show(p[1])) for p, q in o.items()))
    return True, ''


def consistent(o):
    """Interval ends in order, with the ordering of a third value transitive."""
    def rel(a, b):
        if (a, b) in o:
            return o[(a, b)]
        if (b, a) in o:
            return -o[(b, a)]
        return None
    for lo, hi in ((T0, T1), (DOWN, UP)):
        a, b = rel(lo, Y), rel(Y, hi)
        if a is not None and b is not None:
            # lo <= hi: never y < lo and y > hi
            if a > 0 and b > 0:
                return False
        c = rel(lo, hi)
        if c is not None and c > 0:
            return False
    return True


def resimplify(e):
    if not isinstance(e, tuple):
        return e
    if e[0] == 'and':
        return AND(*[resimplify(x) for x in e[1]])
    if e[0] == 'or':
        return OR(*[resimplify(x) for x in e[1]])
    if e[0] == 'not':
        return NOT(resimplify(e[1]))
    return e


def resimplify_val(v):
    return v
