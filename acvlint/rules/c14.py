"""Shapley values are those of their definition, whatever implementation computes them.  For every Shapley kernel
(parallel, sequential, cached, cached and sequential, one sample) the analysis extracts, by substitution of reaching
definitions, what each accumulation adds for a tree, leaf, player, coalition, sample and output, as a closed form over
leaf-membership counts; it must be the form of the definition (acvlint/specs/shap.py).  The coalition must be listed from the
bits of the counter as in the definition; buffers must be cleared per tree when they are collected per tree and collected
over all their entries; the sum must be divided by the number of players.  The counts the caches hold must be those the
cached kernels read."""
from collections import Counter

from .. import denote, forms, norm, shapley, tables
from ..norm import C, show, to_poly

KERNELS = {
    'shap': ('shap_values_leaves_pa', 'shap_values_leaves_nopa', 'single_shap_values', 'single_shap_values_nopa'),
    'shap_cache': ('shap_values_leaves_cache', 'shap_values_leaves_cache_nopa'),
    'shap_normalized': ('shap_values_leaves_normalized',),
    'shap_normalized_cache': ('shap_values_leaves_normalized_cache', 'shap_values_leaves_normalized_cache_nopa'),
    'shap_acv': ('shap_values_acv_leaves', 'shap_values_acv_leaves_nopa', 'single_shap_values_acv_leaves',
                 'single_shap_values_acv_leaves_nopa'),
}
CACHES = {
    'leaves_cache': ('leaves_cache', 'leaves_cache_nopa'),
    'leaves_cache_normalized': ('leaves_cache_normalized', 'leaves_cache_normalized_nopa'),
}
DRIVERS = {'acv_adap': ('shap_values_acv_leaves_adap', 'shap_values_acv_leaves_adap_nopa')}
ZERO, ONE = C(0), C(1)


def check(env, r):
    spec = forms.spec_mod(env, 'shap')
    fns = {}
    for f in env.native_fns:
        if 'shap' in f.name or 'cache' in f.name:
            fns.setdefault(f.name, []).append(shapley.aligned(f))
    todo = 0

    def undecided(f, why):
        nonlocal todo
        todo += 1
        r.notes.append('undecided: %s: %s' % (f.qual, why))

    for name, kernels in KERNELS.items():
        want = None
        for k in kernels:
            for f in fns.get(k, []):
                r.unit(f)
                if want is None:
                    want = facts(env, spec.funcs[name])
                try:
                    got = shapley.total(env, f)
                except shapley.Short as x:
                    r.ob('contribution-equals-definition', f.qual, f.loc(f.node), False, str(x))
                    continue
                except denote.Opaque as x:
                    undecided(f, x)
                    continue
                kernel(env, r, f, name, got, want, undecided)
    for name, caches in CACHES.items():
        want = None
        for k in caches:
            for f in fns.get(k, []):
                r.unit(f)
                if want is None:
                    want = shapley.counts(env, spec.funcs[name])
                cache(env, r, f, name, want, undecided)
    for name, drivers in DRIVERS.items():
        want = None
        for k in drivers:
            for f in fns.get(k, []):
                r.unit(f)
                if want is None:
                    want = written(env, spec.funcs[name])
                try:
                    got = written(env, f)
                except denote.Opaque as x:
                    undecided(f, x)
                    continue
                r.ob('sample-by-sample', f.qual, f.loc(f.node), got == want,
                     '%s does not explain each sample with its own active variables: it computes %s'
                     % (f.name, show(got)[:300]))
    tables.check(env, r, undecided)
    r.notes.append('%d undecided' % todo)
    r.floor('contribution-equals-definition', 12)
    r.floor('coalition-listed', 9)
    r.floor('collected-and-divided', 9)
    r.floor('cache-counts', 6)
    r.floor('players-listed', 9)


def facts(env, sf):
    t = shapley.total(env, sf)
    w = shapley.walk(env, sf)
    lists = {k: shapley.filling(w, e, rs, g) for k, (v, e, rs, g) in t.items() if 'counter' in k[0]}
    return t, lists, divisor(w, t)


def kernel(env, r, f, name, got, want, undecided):
    w = shapley.walk(env, f)
    if not got:
        undecided(f, 'nothing is added to Shapley values')
        return
    t, lists, div = want
    for k in sorted(set(got) | set(t), key=str):
        where = f.loc(f.node)
        if k not in got:
            r.ob('contribution-equals-definition', '%s %s' % (f.qual, k[1]), where, False,
                 'the contribution of players %s the path of a leaf is missing' % ('on' if k[1] == 'in' else 'off'))
            continue
        v, e, rs, g = got[k]
        where = '%s:%d' % (f.mod.rel, getattr(e.node, 'lineno', 0))
        if k not in t:
            odd = {x for x in k[0]} ^ {x for y in t for x in y[0]}
            r.ob('contribution-equals-definition', '%s %s' % (f.qual, k[1]), where, False,
                 'a contribution is added over the loops %s (player %s), which the definition does not have (differs by %s)'
                 % (', '.join(k[0]), k[1], ', '.join(sorted(odd)) or 'the condition on the player'))
            continue
        r.ob('contribution-equals-definition', '%s %s' % (f.qual, k[1]), where, v == t[k][0],
             'what a leaf contributes is not that of its definition (specs/shap.py:%s): %s'
             % (name, '' if v == t[k][0] else forms.difference(v, t[k][0])))
        if 'counter' in k[0]:
            try:
                fl = shapley.filling(w, e, rs, g)
            except denote.Opaque as x:
                undecided(f, x)
                fl = None
            if fl is not None:
                if fl != lists[k] and not comparable(fl, lists[k]):
                    undecided(f, 'how the coalition is listed')
                else:
                    r.ob('coalition-listed', f.qual, where, fl == lists[k],
                         'the variables of a coalition are not listed from the bits of its number: %s' % listed(fl, lists[k]))
        if 'counter' in k[0]:
            playing(env, r, f, w, e, rs, g, where, undecided)
    try:
        bad = collected(w, got)
        d = divisor(w, got)
    except denote.Opaque as x:
        undecided(f, x)
        return
    r.ob('collected-and-divided', f.qual, f.loc(f.node), not bad, '; '.join(bad))
    r.ob('divided-by-players', f.qual, f.loc(f.node), d == div,
         'the sum over coalitions is divided by %s, not by %s' % (show(d), show(div)))


def comparable(a, b):
    """Same writes up to guards, ranges and values: a difference is then a difference of meaning."""
    sig = lambda fl: [(op, t[0], t[1] if t[0] == 'n' else t[1], len(doms)) for op, t, v, gd, doms in fl]
    a, b = Counter(map(str, sig(a))), Counter(map(str, sig(b)))
    return a == b or not a - b


def listed(a, b):
    for x, y in zip(a, b):
        if x != y and len(a) == len(b):
            return '%s %s= %s if %s over %s' % (show(x[1]), x[0] or '', show(x[2]), ' and '.join(show(c) for c in x[3]) or 'true',
                                               ', '.join(show(d) for d in x[4]) or 'nothing')
    return 'missing writes'


# ---------------------------------------------------------------- collection
def returned(w):
    ret = [e for e in w.events if e.kind == 'return']
    if len(ret) != 1:
        raise denote.Opaque('%d returns' % len(ret))
    v = ret[0].value
    return forms.deep(v, lambda x: x[2][0] if x[0] == 'call' and x[1][0] == 'attr' and x[1][2] in ('asarray', 'array')
                      and x[1][1] == ('n', 'np') and len(x[2]) == 1 else None)


def divisor(w, got):
    """What the accumulated sum is divided by, in canonical names."""
    v = returned(w)
    p = to_poly(v)
    if len(p) != 1:
        raise denote.Opaque('returns %s' % show(v))
    (m, c), = p.items()
    phi = [a for a, x in m if a[0] == 'n' and x == 1]
    if len(phi) != 1:
        raise denote.Opaque('returns %s' % show(v))
    rest = norm.from_poly({tuple((a, -x) for a, x in m if a != phi[0]): 1 / c if c != 1 else 1})
    for v, e, rs, g in got.values():
        return shapley.canonical(rest, e, rs, g)


def phi_of(w):
    (m, c), = to_poly(returned(w)).items()
    return [a for a, x in m if a[0] == 'n'][0]


def collected(w, got):
    phi = phi_of(w)
    bad = []
    bufs = {}
    for k, (v, e, rs, g) in got.items():
        bufs.setdefault(e.target[1], []).append((e, rs))
    init = [e for e in w.events if e.kind == 'assign' and e.target == phi]
    if len(init) != 1 or init[0].loops or denote.init_value(init[0].value) != ZERO:
        bad.append('%s does not start from zero' % show(phi))
    adds = shapley.contributions_of(w)
    for buf, uses in bufs.items():
        rest = [e for e in w.events if e.kind == 'assign' and e.target[0] == 'idx' and e.target[1] == buf
                and not any(e is x for x in adds)]
        if buf == phi:
            odd = [e for e in rest if not (e.op == '+' and e.value[0] == 'idx' and e.value[1] in bufs)]
            if odd:
                bad.append('%s is changed by %s' % (show(buf), show(odd[0].value)[:80]))
            continue
        alloc = [e for e in w.events if e.kind == 'assign' and e.target == buf]
        if len(alloc) != 1 or denote.init_value(alloc[0].value) != ZERO:
            raise denote.Opaque('%s is allocated %d times' % (show(buf), len(alloc)))
        dims = allocated(w, buf)
        col = [e for e in w.events if e.kind == 'assign' and e.op == '+' and e.target[0] == 'idx' and e.target[1] == phi
               and e.value[0] == 'idx' and e.value[1] == buf]
        if not col:
            if any(forms.has(e.value, buf) for e in w.events if e.kind == 'assign' and e.target[0] == 'idx'
                   and e.target[1] != buf):
                raise denote.Opaque('%s is collected otherwise' % show(buf))
            bad.append('%s is never added to %s' % (show(buf), show(phi)))
            continue
        if len(col) > 1:
            raise denote.Opaque('%s is collected %d times' % (show(buf), len(col)))
        col = col[0]
        tree = [l for l, role in uses[0][1].items() if role == 'b'][0]
        inside = tree in col.loops
        if not inside and any(shapley.role(l, {}) == 'b' for l in col.loops):
            if alloc[0].loops == () and len(col.loops) > len(col.value[2]):
                bad.append('%s, summed over the trees, is added once per tree' % show(buf))
        bad += covers(w, col, col.value[2], buf, dims, uses, 'collected')
        e0, rs0 = uses[0]
        for pos, x in enumerate(e0.target[2]):
            # the sample, the feature and the output of the buffer are those of phi
            role = {l.sym: r for l, r in rs0.items()}.get(x)
            if role in ('leaf', 'counter', 'b'):
                if forms.has(col.target, col.value[2][pos]):
                    bad.append('axis %d of %s (%s) indexes %s' % (pos, show(buf), role, show(phi)))
            elif col.value[2][pos] not in col.target[2]:
                bad.append('axis %d of %s does not index %s' % (pos, show(buf), show(phi)))
        kept = [x for pos, x in enumerate(col.value[2])
                if {l.sym: r for l, r in rs0.items()}.get(e0.target[2][pos]) not in ('leaf', 'counter', 'b')]
        if list(col.target[2]) != kept:
            bad.append('%s is added to %s' % (show(col.value), show(col.target)))
        if denote.conj(col.guard):
            raise denote.Opaque('%s is collected under a condition' % show(buf))
        zero = [e for e in rest if e.op is None and e.value == ZERO]
        if [e for e in rest if e not in zero]:
            raise denote.Opaque('%s is changed' % show(buf))
        fresh = tree in alloc[0].loops
        if inside and not fresh:
            z = [e for e in zero if tree in e.loops and e.idx < e0.idx]
            if not z:
                bad.append('%s is collected for every tree but not cleared between trees' % show(buf))
            elif len(z) > 1:
                raise denote.Opaque('%s is cleared %d times' % (show(buf), len(z)))
            else:
                bad += covers(w, z[0], z[0].target[2], buf, dims, uses, 'cleared')
                if denote.conj(z[0].guard):
                    raise denote.Opaque('%s is cleared under a condition' % show(buf))
        elif not inside and [e for e in zero if tree in e.loops or any(l.dom == tree.dom for l in e.loops)]:
            bad.append('%s is cleared for every tree but collected once' % show(buf))
    return bad


def allocated(w, buf):
    alloc = [e for e in w.events if e.kind == 'assign' and e.target == buf]
    if len(alloc) != 1 or denote.init_value(alloc[0].value) is None:
        return None
    v = alloc[0].value
    while v[0] == 'call' and v[1][2] in ('asarray', 'array'):
        v = v[2][0]
    d = v[2][0]
    return tuple(d[1:]) if d[0] == 'tuple' and not (len(d) == 2 and isinstance(d[1][0], tuple)) else d[1] if d[0] == 'tuple' else (d,)


def covers(w, ev, index, buf, dims, uses, what):
    """Problems of a sweep over all entries of a buffer."""
    bad = []
    by = {l.sym: l for l in ev.loops}
    if dims is None or len(index) != len(dims):
        raise denote.Opaque('%s is %s by %s' % (show(buf), what, show(('idx', buf, tuple(index)))))
    if len(set(index)) != len(index):
        return ['%s is %s only along a diagonal' % (show(buf), what)]
    for pos, x in enumerate(index):
        if x not in by:
            raise denote.Opaque('%s is %s at %s' % (show(buf), what, show(x)))
        d = sized(w, by[x].dom)
        full = {dims[pos], sized(w, dims[pos])}
        for e, rs in uses:
            l = [l for l in rs if l.sym == e.target[2][pos]]
            if l and l[0].dom[1] == ZERO:
                if not any(forms.has(l[0].dom, y.sym) for y in e.loops if y not in ev.loops):
                    full.add(sized(w, l[0].dom[2]))
        one = 'i' not in uses[0][1].values()
        full |= {forms.deep(z, lambda t: swap(t, one)) for z in set(full)}
        if d[0] != 'range':
            raise denote.Opaque('%s is %s over %s' % (show(buf), what, show(d)))
        if d[1] == ZERO and (len(d) < 4 or d[3] == ONE) and d[2] in full:
            continue
        why = 'axis %d of %s is %s over %s' % (pos, show(buf), what, show(d))
        c = [norm.add(d[2], z, -1) for z in full]
        if d[1] != ZERO and d[1][0] == 'c' or len(d) > 3 and d[3] != ONE or any(y[0] == 'c' and y[1] < 0 for y in c) or d[2][0] == 'c' \
                or d[2] in dims:
            bad.append(why)
        else:
            raise denote.Opaque(why)
    return bad


def sized(w, v):
    """Lengths of the arrays made here are what they were made with."""
    def hook(x):
        if x[0] == 'idx' and x[1][0] == 'attr' and x[1][2] == 'shape' and x[1][1][0] == 'n' and len(x[2]) == 1 and x[2][0][0] == 'c':
            d = allocated(w, x[1][1])
            if d is not None and x[2][0][1] < len(d):
                return d[int(x[2][0][1])]
        return None
    return forms.deep(v, hook)


def swap(t, one):
    """All samples have the same variables."""
    a, b = shapley.shape('X', 0 if one else 1), shapley.shape('data', 1)
    return b if t == a else a if t == b else None


# ---------------------------------------------------------------- caches
def cache(env, r, f, name, want, undecided):
    try:
        got = shapley.counts(env, f)
    except shapley.Short as x:
        r.ob('cache-counts', f.qual, f.loc(f.node), False, str(x))
        return
    except denote.Opaque as x:
        undecided(f, x)
        return
    if len(got) != len(want):
        r.ob('cache-counts', f.qual, f.loc(f.node), False, 'returns %d arrays, not %d' % (len(got), len(want)))
        return
    for n, (a, b) in enumerate(zip(got, want)):
        e = a[3]
        where = '%s:%d' % (f.mod.rel, getattr(e.node, 'lineno', 0))
        ok = a[:3] == b[:3]
        r.ob('cache-counts', '%s #%d' % (f.qual, n), where, ok,
             'array %d of the cache: %s (specs/shap.py:%s)' % (n, why(a, b), name))
        if 'counter' in a[4].values() and n:
            w = shapley.walk(env, f)
            fl, wl = shapley.filling(w, e, a[4], a[5]), shapley.filling(None or shapley.walk(env, _fn(env, name)), b[3], b[4], b[5])
            if fl == wl or comparable(fl, wl):
                r.ob('coalition-listed', '%s #%d' % (f.qual, n), where, fl == wl,
                     'the variables of a coalition are not listed from the bits of its number: %s' % listed(fl, wl))
            else:
                undecided(f, 'how the coalition is listed')
            if n == 1:
                playing(env, r, f, w, e, a[4], a[5], where, undecided)


def playing(env, r, f, w, e, rs, g, where, undecided):
    """The players and those on the path to each leaf are listed as in the definition."""
    sf = _fn(env, 'players_acv' if 'S_star' in f.params else 'players')
    if sf not in WANT:
        sw = shapley.walk(env, sf)
        (v, se, srs, sg), = [x for k, x in shapley.total(env, sf).items()]
        WANT[sf] = described(sw, sf, se, srs, sg)
    try:
        got, names = described(w, f, e, rs, g)
    except denote.Opaque as x:
        undecided(f, x)
        return
    want, _ = WANT[sf]
    bad = differs(got, want)
    if bad is None:
        undecided(f, 'how the players are listed')
        return
    r.ob('players-listed', f.qual, where, not bad, 'the players, or those on the path to a leaf, are not listed as in the '
         'definition (specs/shap.py:%s): %s' % (sf.name, bad))


WANT = {}


def described(w, f, e, rs, g):
    evs, have = shapley.players_listed(w, f, e, rs, g)
    p = shapley.refine(evs, have, [(n, x) for n, x in g.items() if x in ('va_id', 'node')], f.params)
    plain = shapley.refine(evs, have, [(n, x) for n, x in g.items() if x in ('va_id', 'node')], f.params, 1)
    return [(shapley.freeze(a), shapley.freeze(b), ev) for a, b, ev in zip(p, plain, evs)], have


def differs(got, want):
    """'' when the same, a description of the difference, None when the two cannot be compared."""
    a, b = Counter(x[0] for x in got), Counter(x[0] for x in want)
    if a == b:
        return '' if [x[0] for x in got] == [x[0] for x in want] or same_order(got, want) else 'in another order'
    sig = lambda l: Counter((x[2][0], x[2][1], len(x[2][5])) for x in l)
    sa, sb = sig(got), sig(want)
    if sa == sb or not sa - sb and any(k[0] != 'break' for k in sb - sa):
        pb = Counter(x[1] for x in want)
        for x in got:
            if x[1] not in pb:
                return describe(x[2])
        pa = Counter(x[1] for x in got)
        for x in want:
            if x[1] not in pa:
                return 'missing: ' + describe(x[2])
        return 'other lists are used'
    if not sa - sb:
        # only breaks are missing: from a loop over a list that is shortened inside
        pa = Counter(x[1] for x in got)
        for x in want:
            if x[2][0] == 'break' and x[1] not in pa and x[2][5]:
                over = shapley.size_of(x[2][5][-1][2])
                if any(y[2][1] == 'pop_back' and y[2][2] == over and y[2][5] == x[2][5] for y in want):
                    return 'missing: ' + describe(x[2])
    return None


def same_order(got, want):
    def by_name(l):
        seqs = []
        for n in {n for x in l for n in shapley.names(x[2])}:
            seqs.append(tuple(x[0] for x in l if n in shapley.names(x[2])))
        return Counter(seqs)
    return by_name(got) == by_name(want)


def describe(ev):
    kind, op, t, v, gd, doms = ev
    what = kind if kind in ('break', 'remove') else op if kind == 'mutate' else '%s=' % (op or '')
    if isinstance(v, tuple) and v and isinstance(v[0], tuple):
        v = ', '.join(show(y) for y in v)
    elif v:
        v = show(v)
    return '%s %s %s if %s over %s' % (show(t) if t else '', what, v or '', ' and '.join(sorted(show(c) for c in gd)) or 'true',
                                       ', '.join(show(d) for d in doms) or 'nothing')


def _fn(env, name):
    return forms.spec_mod(env, 'shap').funcs[name]


def why(a, b):
    if a[0] != b[0]:
        return 'indexed by %s, not %s' % (', '.join(a[0]), ', '.join(b[0]))
    if a[2] != b[2]:
        return 'counted for players %s the path' % ('on' if a[2] == 'in' else 'off')
    return 'the count differs: %s' % forms.difference(a[1], b[1]) if a[1] != b[1] else ''


# ---------------------------------------------------------------- one sample at a time
def written(env, f):
    """What a function stores per entry of the array it returns, loops by position."""
    w = env.walk(f, lambda g: False, 'driver')
    v = returned(w)
    ws = [e for e in w.events if e.kind == 'assign' and e.target[0] == 'idx' and e.target[1] == v]
    if not ws:
        raise denote.Opaque('returns %s' % show(v))
    cases = []
    for e in ws:
        if e.op is not None:
            raise denote.Opaque('accumulates')
        cases.append((e, e.value, e.guard))
    loops = [l for l in cases[0][0].loops]
    out = None
    for e, val, guard in reversed(cases):
        syms = {}
        names = ('i', 'j', 'k')
        idx = list(e.target[2])
        while len(idx) < 3:
            s = denote.fresh()
            val = ('idx', val, (s,)) if val[0] != 'idx' or val[1][0] != 'call' else ('idx', val[1], tuple(val[2]) + (s,))
            idx.append(s)
        by = {l.sym: l for l in e.loops}
        full = (shapley.shape('X', 0), shapley.shape('X', 1), shapley.shape('values', 2))
        for pos, x in enumerate(idx):
            if x in by:
                d = by[x].dom
                if d[0] != 'range' or d[1] != ZERO or d[2] != full[pos]:
                    raise denote.Opaque('runs over %s' % show(d))
            syms[x] = ('n', '<%s>' % names[pos])
        val = denote.sub_syms(val, syms)
        val = forms.deep(val, lambda t: ('n', t[1].split(':')[-1].replace('_nopa', '')) if t[0] in ('fn', 'n') else None)
        gd = denote.sub_syms(guard, syms)
        out = val if out is None or gd == norm.TRUE else ('ite', gd, val, out)
    return pushed(out)


def pushed(v):
    """Choices outermost, on equalities rather than on their negation."""
    if v[0] == 'ite':
        c, a, b = v[1], pushed(v[2]), pushed(v[3])
        n = norm.NOT(c)
        return ('ite', n, b, a) if norm.skey(n) < norm.skey(c) else ('ite', c, a, b)
    if v[0] == 'idx':
        b = pushed(v[1])
        if b[0] == 'ite':
            return ('ite', b[1], pushed(('idx', b[2], v[2])), pushed(('idx', b[3], v[2])))
        if b[0] == 'idx':
            return ('idx', b[1], tuple(b[2]) + tuple(v[2]))
    return v
