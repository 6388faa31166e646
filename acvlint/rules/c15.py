"""Coalition searches. For every driver that looks for the minimal sufficient (or counterfactual) coalition of each sample:
the enumeration goes through all coalitions of each size in ascending order from the smallest size asked for; best value,
size and subset of a sample are replaced together, by those of the coalition just evaluated and only when it is at least as
good; the value belongs to that sample and that coalition; samples that reached the level are counted with the entries of
their own subset and leave the search; the search is not ended early unless it may be; stale subset entries are erased."""
from ..norm import (AND, NOT, OR, TRUE, equiv, implies, mentions, mul, power, show, skey, subterms, subst, to_poly)
from ..walks import is_idx

ONE, MINUS1, ZERO = ('c', 1), ('c', -1), ('c', 0)
PER_SAMPLE = ('X', 'x', 'y_X', 'y_x', 't', 'down', 'up', 'DOWN', 'UP', 'cond', 'fX', 'fx')
KERNELS = ('single_', 'compute_')


def base_of(e):
    while is_idx(e):
        e = e[1]
    return e


def idx(b, *i):
    return ('idx', b, tuple(i))


def shape(a, i):
    return idx(('attr', ('n', a), 'shape'), ('c', i))


def size_call(v):
    return ('call', ('attr', v, 'size'), (), ())


def unwrap(e):
    while e[0] == 'call' and e[1][0] == 'attr' and e[1][2] in ('array', 'asarray') and e[2]:
        e = e[2][0]
    return e


def drivers(env):
    for f in env.native_fns:
        if 'pi_level' in f.params and 'minimal' in f.params and f.name.startswith('global_'):
            yield f


def flat(e):
    """Index path of an element."""
    out = []
    while is_idx(e):
        out = list(e[2]) + out
        e = e[1]
    return e, out


class Driver:
    def __init__(self, env, f):
        self.env, self.f = env, f
        self.w = env.walk(f, lambda g: g.native and not g.name.startswith(KERNELS), 'c15')
        self.ev = self.w.events
        ret = [e for e in self.ev if e.kind == 'return' and e.value is not None and e.value[0] == 'tuple']
        self.ret = ret[-1] if ret else None

    def assigns(self, base, op=None):
        return [e for e in self.ev if e.kind == 'assign' and is_idx(e.target) and base_of(e.target) == base and e.op == op]

    def last_value(self, name):
        v = [e.value for e in self.ev if e.kind == 'assign' and e.target == name]
        return v[-1] if v else None


def check(env, r):
    for f in drivers(env):
        r.unit(f)
        one(env, r, f)
    r.floor('together', 24)
    r.floor('only-if-better', 12)
    r.floor('counted', 12)
    r.floor('leaves', 10)
    r.floor('not-ended-early', 12)
    r.floor('enumeration', 30)
    r.floor('stale-entries', 10)
    r.floor('own-value', 12)
    r.floor('starts-empty', 30)


def one(env, r, f):
    d = Driver(env, f)
    q = f.qual
    if d.ret is None:
        r.notes.append('%s: no tuple is returned' % q)
        return
    parts = d.ret.value[1:] if not (len(d.ret.value) == 2 and isinstance(d.ret.value[1], tuple) and d.ret.value[1] and isinstance(d.ret.value[1][0], tuple)) else d.ret.value[1]
    if len(parts) != 4:
        r.notes.append('%s: %d results' % (q, len(parts)))
        return
    star, ln, best = (unwrap(p) for p in parts[1:])
    glob = None
    for t in subterms(parts[0]):
        if isinstance(t, tuple) and t and t[0] == 'call' and unwrap(t) != t:
            glob = unwrap(t)
    glob = glob or base_of(parts[0])
    n0 = shape('X', 0)
    want = mul(('call', ('attr', ('n', 'np'), 'asarray'), (glob,), ()), power(n0, -1))
    got = subst(parts[0], lambda t: ('call', ('attr', ('n', 'np'), 'asarray'), (glob,), ()) if t and t[0] == 'call' and unwrap(t) == glob and t != glob else None)
    r.ob('frequencies', q, d.ret.loc(), got == want, 'the frequencies returned are %s, not the counts over the number of samples' % show(parts[0]))
    # ---- enumeration
    s0 = next((e.loops for e in d.assigns(best) if len(e.loops) >= 3), None)
    if s0 is None:
        r.ob('together', q, f.loc(), False, 'the best probability is never updated within the enumeration of coalitions')
        return
    L0, L1 = s0[0], s0[1]
    enum(r, d, q, L0, L1)
    # ---- updates
    ups = [e for e in d.assigns(best) if e.loops[:2] == (L0, L1) or list(e.loops[:2]) == [L0, L1]]
    lens = [e for e in d.assigns(ln) if list(e.loops[:2]) == [L0, L1]]
    stars = [e for e in d.assigns(star) if list(e.loops[:2]) == [L0, L1]]
    fills = [e for e in stars if e.value == MINUS1]
    stars = [e for e in stars if e.value != MINUS1]
    sizes = [size_call(idx(flat_power, L0.sym, L1.sym)) for flat_power in d.powers]
    used = set()
    for k, e in enumerate(sorted(ups, key=lambda e: e.idx)):
        j = e.target[2]
        full = [s for s in sizes if equiv_eq(e.guard, s, shape('X', 1)) or equiv_eq(e.guard, s, shape('data', 1))]
        con = '%s/%s' % (q, 'all features' if full else 'better coalition')
        if e.value == ONE:
            r.ob('only-if-better', con, e.loc(), bool(full), 'the probability is set to one under the condition %s, not for the coalition of all features' % show(e.guard)[:120])
        else:
            cur = e.target
            ok = implies(e.guard, ('le', cur, e.value)) is True or e.guard in (('le', cur, e.value), ('lt', cur, e.value)) or \
                has_conj(e.guard, cur, e.value)
            r.ob('only-if-better', con, e.loc(), ok, 'the best probability %s is replaced by %s under the condition %s' % (show(cur), show(e.value)[:60], show(e.guard)[:100]))
            own(r, d, q, e, L0, L1, j)
        # partners
        pl = [x for x in lens if x.target[2] == j and same(x.guard, e.guard) and list(x.loops) == list(e.loops)]
        okl = bool(pl) and all(x.value in sizes for x in pl)
        r.ob('together', con + '/size', (pl[0] if pl else e).loc(), okl,
             'with the probability, the size of the explanation is %s' % ('not updated' if not pl else 'set to %s, not to the size of the coalition' % show(pl[0].value)[:80]))
        ps = [x for x in stars if len(x.target[2]) == 2 and x.target[2][0] == j[0] and same(x.guard, e.guard) and list(x.loops[:-1]) == list(e.loops)]
        oks = False
        for x in ps:
            s = x.loops[-1]
            coal, path = flat(x.value)
            direct = x.value == idx(d.power, L0.sym, L1.sym, s.sym) or flat(x.value) == (base_of(d.power), flat(d.power)[1] + [L0.sym, L1.sym, s.sym])
            copy = path == [s.sym] and coal in d.coals(L0, L1)
            oks = oks or (x.target[2][1] == s.sym and (direct or copy) and s.kind == 'range' and s.dom[1] == ZERO and s.dom[2] in sizes + [size_call(coal)])
        r.ob('together', con + '/subset', (ps[0] if ps else e).loc(), oks,
             'with the probability, the subset of the explanation is %s' % ('not updated' if not ps else 'not the coalition evaluated (%s for %s)' % (show(ps[0].value)[:60], show(ps[0].loops[-1].dom))))
        used |= {id(x) for x in pl + ps}
    for x in lens + stars:
        if id(x) not in used:
            r.ob('together', '%s/%s alone' % (q, 'size' if x in lens else 'subset'), x.loc(), False,
                 '%s is changed without the probability it belongs to' % show(x.target))
    ok = False
    late = [x for x in d.assigns(star) if x.value == MINUS1 and x.loops and x.loops[0] is L0 and L1 not in x.loops]
    if all(e.value == ONE or has_conj(e.guard, ('n', 'pi_level'), e.value) for e in ups):
        fills = fills + late        # only what reached the level is kept at all: erased when the sample leaves
    for x in fills:
        s = x.loops[-1]
        if len(x.target[2]) == 2 and x.target[2][1] == s.sym and s.kind == 'range' and s.dom[2] in (shape('X', 1), shape('data', 1), idx(('attr', star, 'shape'), ONE)):
            j = x.target[2][0]
            if s.dom[1] == idx(ln, j) and (x.guard == TRUE or x in late and x.guard == ('le', ('n', 'pi_level'), idx(best, j))) or s.dom[1] == ZERO and any(same(x.guard, u.guard) for u in ups) or s.dom[1] in sizes:
                ok = True
    r.ob('stale-entries', q, (fills[0] if fills else d.ret).loc(), ok, 'entries of a longer explanation found earlier are not erased from the subset')
    ending(r, d, q, L0, L1, star, ln, best, glob)
    start(r, d, q, star, ln, best, glob)


def same(a, b):
    return a == b or equiv(a, b) is True


def equiv_eq(g, a, b):
    want = ('eq',) + tuple(sorted((a, b), key=skey))
    if g in (('eq', a, b), ('eq', b, a), want):
        return True
    return g in (('le', b, a),)


def has_conj(g, cur, v):
    if g[0] == 'and':
        return any(has_conj(x, cur, v) for x in (g[1] if isinstance(g[1], frozenset) else g[1:]))
    return g in (('le', cur, v), ('lt', cur, v))


def mut(e):
    return e.op


def enum(r, d, q, L0, L1):
    """Sets d.power (the enumerated coalitions), checks how they are built and walked through."""
    p = None
    if L1.kind == 'range':
        u = L1.dom[2]
        if u[0] == 'call' and u[1][0] == 'attr' and u[1][2] == 'size':
            p = base_of(u[1][1])
        elif u[0] == 'call' and u[1] == ('n', 'len'):
            p = base_of(u[2][0])
    d.power = p or ('n', 'power')
    d.powers = [d.power]
    ok = L1.kind == 'range' and L1.dom[1] == ZERO and L1.dom[3] == ONE and L1.dom[2] in (size_call(idx(d.power, L0.sym)), ('call', ('n', 'len'), (idx(d.power, L0.sym),), ()))
    r.ob('enumeration', q + '/all of a size', d.f.loc(L1.node), ok, 'the coalitions of a size are gone through as %s, not all of them' % show(L1.dom)[:80])
    # how it is filled
    app = [e for e in d.ev if e.kind == 'mutate' and e.op == 'append' and e.target == d.power]
    lo = None
    if app and app[-1].loops:
        a = app[-1]
        ls = a.loops[-1]
        inner = None
        bufs = [x for x in d.ev if x.kind == 'mutate' and x.op == 'append' and a.value and x.target in (a.value[0] if isinstance(a.value[0], tuple) and a.value[0] and isinstance(a.value[0][0], str) is False else a.value,) or
                x.kind == 'mutate' and x.op == 'append' and len(x.loops) == len(a.loops) + 1 and list(x.loops[:-1]) == list(a.loops)]
        for x in bufs:
            c = x.loops[-1]
            if c.dom[0] == 'call' and 'combinations' in repr(c.dom[1]):
                inner = (x, c)
        if inner is not None and ls.kind == 'range':
            x, c = inner
            lo = ls.dom[1]
            space, k = c.dom[2][0], c.dom[2][1]
            n = ('call', ('n', 'len'), (space,), ())
            from ..norm import add
            okr = k == ls.sym and ls.dom[3] == ONE and ls.dom[2] == add(n, ONE)
            r.ob('enumeration', q + '/sizes', d.f.loc(ls.node), okr, 'the sizes enumerated are %s of %s' % (show(ls.dom)[:80], show(k)))
            val = x.value
            okv = any(t == c.sym for t in subterms(val)) and 'sum' in repr(val) or any(t == c.sym for t in subterms(val)) and 'chain' in repr(val)
            r.ob('enumeration', q + '/members', x.loc(), okv and same(x.guard, a.guard), 'a combination of groups is enumerated as %s (if %s)' % (show(val)[:80], show(x.guard)[:60]))
            r.ob('enumeration', q + '/every size kept', a.loc(), a.guard == TRUE or not any(mentions(a.guard, {y}) for y in ('minimal', 'pi_level', 'stop')), 'coalitions of a size are kept only if %s' % show(a.guard)[:80])
            for b in d.ev:
                if b.kind == 'break' and b.loops and b.loops[-1] is ls or b.kind == 'break' and b.loops and b.loops[-1] is c:
                    okb = b.loops[-1] is ls and b.idx > a.idx
                    lim = [t[1] for t in subterms(b.guard) if isinstance(t, tuple) and len(t) == 2 and t[0] == 'c' and isinstance(t[1], (int, float)) and t[1] > 1]
                    r.ob('enumeration', q + '/cap', b.loc(), okb and lim and min(lim) >= 2 ** 15, 'the enumeration is cut short when %s' % show(b.guard)[:80])
            groups(r, d, q, space)
    start_ok = L0.kind == 'range' and L0.dom[3] == ONE and L0.dom[2] in (('call', ('n', 'len'), (d.power,), ()), size_call(d.power))
    first = L0.dom[1] if L0.kind == 'range' else None
    okm = start_ok and (first == ('n', 'minimal') and lo in (ZERO, None) or first == ZERO and lo in (('n', 'minimal'), None))
    r.ob('enumeration', q + '/ascending from minimal', d.f.loc(L0.node), okm, 'the search goes through the sizes %s of an enumeration that starts at %s' % (show(L0.dom)[:60], show(lo) if lo else '?'))

    def coals(l0, l1):
        out = []
        for e in d.ev:
            if e.kind == 'assign' and is_idx(e.target) and list(e.loops[:2]) == [l0, l1] and len(e.loops) == 3 and e.guard == TRUE and e.op is None:
                b, path = flat(e.target)
                vb, vp = flat(e.value)
                s = e.loops[2]
                if path == [s.sym] and vb == base_of(d.power) and vp == flat(d.power)[1] + [l0.sym, l1.sym, s.sym] and s.kind == 'range' and s.dom[1] == ZERO and s.dom[2] == size_call(idx(d.power, l0.sym, l1.sym)):
                    out.append(b)
        return out
    d.coals = coals


def groups(r, d, q, space):
    """Single features of the search space outside every group, and the groups, are what is combined."""
    alts = []

    def leaves(v, g):
        if v[0] == 'ite':
            leaves(v[2], AND(g, v[1]))
            leaves(v[3], AND(g, NOT(v[1])))
        else:
            alts.append((g, v))
    if space[0] == 'n':
        for e in d.ev:
            if e.kind == 'assign' and e.target == space and e.op is None:
                alts.append((e.guard, e.value))
    else:
        leaves(space, TRUE)
    want = ('iter', ('n', 'search_space')) if 'search_space' in d.f.params else None
    for g, v in alts:
        for t in subterms(v):
            if isinstance(t, tuple) and len(t) == 5 and t[:2] == ('comp', 'list') and t[4] == (('list', ('L', 'comp0')),) and len(t[2]) == 1:
                dom = t[2][0]
                okd = dom[:2] == want if want else dom[0] == 'range' and dom[1][1] == ZERO and dom[1][2] in (shape('X', 1), shape('data', 1)) and dom[1][3] == ONE
                r.ob('enumeration', d.f.qual + '/features', d.f.loc(), okd, 'the single features searched are %s' % show(dom[1])[:100])
                okf = t[3] == TRUE or t[3][:2] == ('notin', ('L', 'comp0')) and mentions(t[3][2], {'C'})
                r.ob('enumeration', d.f.qual + '/features kept', d.f.loc(), okf, 'the single features searched are those with %s' % show(t[3])[:100])


def own(r, d, q, e, L0, L1, j):
    """The value compared is that of sample j and of the coalition evaluated."""
    v = e.value
    if is_idx(v) and base_of(v)[0] == 'n' and len(v[2]) == 1:
        # a buffer slot: what was stored there
        src = [x for x in d.ev if x.kind == 'assign' and x.target == v and list(x.loops[:2]) == [L0, L1] and x.idx < e.idx and x.op is None]
        r.ob('own-value', q + '/slot', e.loc(), v[2] == j and bool(src), 'the probability of sample %s is compared with the slot %s' % (show(j[0]), show(v)))
        if not src:
            return
        v = src[-1].value
    b, path = flat(v)
    if b[0] == 'call' and b[1][0] in ('fn', 'n', 'attr'):
        name = b[1][1].split(':')[-1] if b[1][0] in ('fn', 'n') else b[1][2]
        g = next((g for g in d.env.native_fns if g.qual == b[1][1]), None) or next((g for g in d.env.native_fns if g.name == name), None)
        if g is not None:
            args = dict(zip(g.params, b[2]))
            args.update({k: x for k, x in b[3]})
            for p in g.params:
                if p in d.f.params and p not in PER_SAMPLE and p != 'S':
                    r.ob('own-value', '%s/%s' % (q, p), e.loc(), p in args and unwrap(args[p]) == ('n', p), 'the estimate is made with %s=%s' % (p, show(args[p])[:60] if p in args else 'its default'))
            masks, bad = set(), []
            for p, a in args.items():
                if p in PER_SAMPLE:
                    src, pth = flat(a)
                    u = unwrap(src)
                    if p == 't' and u == ('n', 't') and not pth and not d.f.ctypes.get('t', '').count('['):
                        continue
                    if u in (('n', p), ('n', p.lower()), ('n', p.upper())) or (p in ('x', 'X') and u == ('n', 'X')) or (p.lower().startswith('y_x') and u in (('n', 'y_X'), ('n', 'y'))) or \
                            (p.lower() == 'fx' and u == ('n', 'fX')):
                        masks.add(tuple(pth[:1]))
                    else:
                        bad.append('%s is %s' % (p, show(a)[:60]))
            s = args.get('S')
            sb, sp = flat(s) if s is not None else (None, [])
            if sp and sp[-1][0] == 'slice':
                want = ('ddp' in g.name or 'cdp' in g.name) and 'cond' not in g.params      # the changed variables are searched, the others are kept
                k = size_call(idx(d.power, L0.sym, L1.sym))
                low = sp[-1][1] in (None, ZERO, ('c', None))
                if want:
                    ok = low and complement(d, sb, size_of(sp[-1]), k, L0, L1)
                else:
                    ok = sb in d.coals(L0, L1) and low and size_of(sp[-1]) == k
                r.ob('own-value', q + '/coalition', e.loc(), ok, 'the estimate is made for %s, not for the coalition reported' % show(s)[:80])
            elif s is not None:
                r.ob('own-value', q + '/coalition', e.loc(), s == idx(d.power, L0.sym, L1.sym), 'the estimate is made for %s, not for the coalition reported' % show(s)[:80])
            r.ob('own-value', q + '/samples', e.loc(), not bad and len(masks) == 1, 'the estimate is made for other samples: %s' % ('; '.join(bad) or 'rows differ: %s' % [show(m[0]) if m else 'all' for m in masks]))
            if masks and len(masks) == 1:
                m = next(iter(masks))
                if m and any(isinstance(t, tuple) and t == ('n', 'bool') for t in subterms(m[0])):
                    buf = unwrap(m[0])
                    sets = [x for x in d.ev if x.kind == 'assign' and base_of(x.target) == buf and is_idx(x.target) and list(x.loops[:2]) == [L0, L1] and x.value == ONE]
                    zero = [x for x in d.ev if x.kind == 'assign' and x.target == buf and list(x.loops) == [L0, L1] and 'zeros' in repr(x.value)]
                    ok = len(sets) == 1 and bool(zero) and path and path[0] == e.loops[2].sym and sets[0].guard == TRUE
                    r.ob('own-value', q + '/alignment', e.loc(), ok and remaining(d, sets[0].loops[2].dom, L0, L1) and remaining(d, e.loops[2].dom, L0, L1) and
                         elem(d, sets[0].target[2][0], sets[0].loops[2].sym) and elem(d, j[0], e.loops[2].sym),
                         'the rows estimated are not the samples left, in their order')
                elif m and path == []:
                    r.ob('own-value', q + '/alignment', e.loc(), m[0] == j[0], 'the estimate is made for row %s' % show(m[0]))
            return
    # computed in place: everything indexed by sample uses the slot of this sample
    rows = {t[2][-1] if base_of(t) != ('n', 'X') else t[2][0] for t in subterms(v) if is_idx(t) and base_of(t)[0] == 'n' and t[2] and base_of(t)[1] in ('X', 'fX')}
    r.ob('own-value', q + '/in place', e.loc(), all(x == j[0] for x in rows) and remaining(d, e.loops[2].dom, L0, L1) and elem(d, j[0], e.loops[2].sym),
         'the probability of %s is computed from row %s' % (show(j[0]), ', '.join(show(x) for x in rows)))


def complement(d, b, size, k, L0, L1):
    """Does b[:size] list every feature that is not in the coalition."""
    from ..norm import add, neg
    for n in ('data', 'X'):
        m = shape(n, 1)
        if size != add(m, neg(k)):
            continue
        st = [e for e in d.ev if e.kind == 'assign' and is_idx(e.target) and base_of(e.target) == b and list(e.loops[:2]) == [L0, L1] and len(e.loops) == 3]
        if len(st) != 1 or st[0].guard != TRUE:
            return False
        s = st[0].loops[2]
        src, path = flat(st[0].value)
        if s.kind != 'range' or s.dom[1:] != (ZERO, size, ONE) or path != [s.sym] or st[0].target[2] != (s.sym,):
            return False
        init = [e for e in d.ev if e.kind == 'assign' and e.target == src and list(e.loops) == [L0, L1]]
        rem = [e for e in d.ev if e.kind == 'mutate' and e.target == src and list(e.loops[:2]) == [L0, L1]]
        if len(init) == 1 and len(rem) == 1 and rem[0].op == 'remove' and rem[0].guard == TRUE and len(rem[0].loops) == 3:
            l = rem[0].loops[2]
            cb, cp = flat(rem[0].value[0])
            rng = repr(init[0].value)
            return l.kind == 'range' and l.dom[1:] == (ZERO, k, ONE) and cp == [l.sym] and cb in d.coals(L0, L1) and "('n', 'list')" in rng and "('n', 'range')" in rng and \
                any(t == m for t in subterms(init[0].value)) and rng.count("'c', ") == 1
    return False


def size_of(sl):
    return sl[2] if len(sl) > 2 else None


def remaining(d, dom, L0, L1):
    """range(0, number of samples left)"""
    if dom[0] != 'range' or dom[1] != ZERO or dom[3] != ONE:
        return False
    u = dom[2]
    if u == size_call(('n', 'R')) or u[0] == 'call' and u[1][0] == 'attr' and u[1][2] == 'size' and u[1][1] == d.rname():
        return True
    if u[0] == 'n':
        vs = [x.value for x in d.ev if x.kind == 'assign' and x.target == u and x.loops and x.loops[0] is L0]
        return bool(vs) and all(v == size_call(d.rname()) for v in vs)
    return False


def rname(d):
    if not hasattr(d, '_r'):
        d._r = ('n', 'R')
        for e in d.ev:
            if e.kind == 'expr' and 'std_remove' in repr(e.value if e.value is not None else e.target):
                for t in subterms(e.value if e.value is not None else e.target):
                    if isinstance(t, tuple) and len(t) == 3 and t[0] == 'attr' and t[2] == 'begin':
                        d._r = t[1]
    return d._r


Driver.rname = rname


def elem(d, j, i):
    """Is j the i-th of the samples left (directly or through the copy kept of them)."""
    R = d.rname()
    if j == idx(R, i):
        return True
    if is_idx(j) and j[2] == (i,) and base_of(j) != R:
        st = [x for x in d.ev if x.kind == 'assign' and is_idx(x.target) and base_of(x.target) == base_of(j)]
        return bool(st) and all(len(x.loops) >= 1 and x.target[2] == (x.loops[-1].sym,) and x.value == idx(R, x.loops[-1].sym) and x.guard == TRUE for x in st)
    return False


def ending(r, d, q, L0, L1, star, ln, best, glob):
    R = d.rname()
    push = [e for e in d.ev if e.kind == 'mutate' and e.op in ('push_back', 'append') and e.loops and e.loops[0] is L0 and mentions(e.guard, {'pi_level'})]
    counts = [e for e in d.assigns(glob, '+') if e.loops and e.loops[0] is L0]
    pl = ('n', 'pi_level')
    done = None
    for e in push:
        v = e.value
        while isinstance(v, tuple) and len(v) == 1:
            v = v[0]
        lp = e.loops[-1]
        b = [t for t in subterms(e.guard) if is_idx(t) and base_of(t) == best]
        ok = len(b) >= 1 and e.guard == ('le', pl, b[0]) and elem(d, b[0][2][0], lp.sym) and elem(d, v, lp.sym) and len(e.loops) == 2 and remaining(d, lp.dom, L0, L1)
        r.ob('leaves', q + '/who', e.loc(), ok, 'sample %s leaves the search when %s' % (show(v)[:40], show(e.guard)[:80]))
        done = e.target
    r.ob('leaves', q, (push[0] if push else d.ret).loc(), bool(push), 'samples that reached the level do not leave the search')
    if done is not None:
        clears = [e for e in d.ev if e.kind == 'mutate' and e.op == 'clear' and e.target == done and e.loops and e.loops[0] is L0]
        r.ob('leaves', q + '/list emptied', push[0].loc(), any(c.guard == TRUE and c.idx < push[0].idx for c in clears), 'samples found earlier are removed again at every size')
        rm = [e for e in d.ev if e.kind == 'expr' and 'std_remove' in repr((e.value, e.target)) and e.loops and e.loops[0] is L0]
        pb = [e for e in d.ev if e.kind == 'mutate' and e.op == 'pop_back' and e.target == R and e.loops and e.loops[0] is L0]
        ok = len(rm) == 1 and len(pb) == 1 and len(rm[0].loops) == 2 and rm[0].loops[-1] is pb[0].loops[-1] and rm[0].guard == TRUE == pb[0].guard and \
            rm[0].loops[-1].kind in ('range', 'iter') and rm[0].idx > push[0].idx
        if ok:
            lp = rm[0].loops[-1]
            t = repr(rm[0].value if rm[0].value is not None else rm[0].target)
            ok = repr(idx(done, lp.sym)) in t and lp.dom[1] == ZERO and lp.dom[2] == size_call(done) if lp.kind == 'range' else repr(lp.sym) in t
        r.ob('leaves', q + '/removed', (rm[0] if rm else push[0]).loc(), ok, 'not exactly the samples that reached the level are removed from the search')
    okc = False
    for e in counts:
        lp = e.loops[-1]
        el = e.target[2][0]
        if is_idx(el) and base_of(el) == star and len(el[2]) == 2 and len(e.loops) == 3:
            j, s = el[2]
            okc = s == lp.sym and lp.kind == 'range' and lp.dom[1] == ZERO and lp.dom[2] == idx(ln, j) and lp.dom[3] == ONE and e.value == ONE and \
                e.guard == ('le', pl, idx(best, j)) and elem(d, j, e.loops[-2].sym) and remaining(d, e.loops[-2].dom, L0, L1)
    r.ob('counted', q, (counts[0] if counts else d.ret).loc(), okc and len(counts) == 1,
         'the frequencies do not count each feature of the subset of each sample that just reached the level once')
    # exits
    n = 0
    for e in d.ev:
        if e.kind == 'break' and e.loops and e.loops[-1] in (L0, L1):
            n += 1
            half = mul(('c', half_()), shape('X', 1))
            ok = e.loops[-1] is L0 and (not push or e.idx > max(x.idx for x in push + counts))
            g = e.guard
            empty = [('eq', ZERO, size_call(R)), ('eq', size_call(R), ZERO), ('le', size_call(R), ZERO)]
            alts = list(conj_alts(g))
            oks = True
            for a in alts:
                em = any(x in a for x in empty)
                big = any(x[0] in ('le', 'lt') and (x[1] == half and 'S_size' in repr(x[2]) or x[1] == shape('X', 1) and 'S_size' in repr(x[2]) or x[1] == half and repr(x[2]).count(repr(L0.sym))) for x in a)
                stop = ('n', 'stop') in a or 'stop' not in d.f.params
                oks = oks and (em and True or big and stop)
            r.ob('not-ended-early', q, e.loc(), ok and oks, 'the search ends when %s' % show(g)[:120])
        elif e.kind in ('return', 'continue') and e is not d.ret and e.loops and L0 in e.loops:
            r.ob('not-ended-early', q + '/' + e.kind, e.loc(), e.kind == 'continue' and e.loops[-1] not in (L0, L1), 'the search is left when %s' % show(e.guard)[:80])
    if not n:
        r.ob('not-ended-early', q, d.ret.loc(), True)


def half_():
    from fractions import Fraction
    return Fraction(1, 2)


def conj_alts(g):
    """Disjunctive normal form of a condition: sets of atoms."""
    if g[0] == 'or':
        for x in (g[1] if isinstance(g[1], frozenset) else g[1:]):
            yield from conj_alts(x)
    elif g[0] == 'and':
        sets = [frozenset()]
        for x in (g[1] if isinstance(g[1], frozenset) else g[1:]):
            sets = [a | b for a in sets for b in conj_alts(x)]
        yield from sets
    else:
        yield frozenset([g])


def start(r, d, q, star, ln, best, glob):
    for nm, want in ((best, 'zeros'), (ln, 'zeros'), (glob, 'zeros')):
        vs = [e for e in d.ev if e.kind == 'assign' and e.target == nm and not e.loops]
        r.ob('starts-empty', '%s/%s' % (q, show(nm)), (vs[0] if vs else d.ret).loc(), bool(vs) and want in repr(vs[-1].value), '%s starts as %s' % (show(nm), show(vs[-1].value)[:60] if vs else 'nothing'))
    vs = [e for e in d.ev if e.kind == 'assign' and e.target == star and not e.loops]
    ok = bool(vs) and minus_ones(vs[-1].value)
    r.ob('starts-empty', '%s/%s' % (q, show(star)), (vs[0] if vs else d.ret).loc(), ok, 'the subsets start as %s, not as -1' % (show(vs[-1].value)[:60] if vs else 'nothing'))
    R = d.rname()
    vs = [e for e in d.ev if e.kind == 'assign' and is_idx(e.target) and base_of(e.target) == R]
    ok = len(vs) == 1 and vs[0].loops and vs[0].target[2] == (vs[0].loops[-1].sym,) and vs[0].value == vs[0].loops[-1].sym and vs[0].loops[-1].dom[1:] == (ZERO, shape('X', 0), ONE)
    r.ob('starts-empty', q + '/samples left', (vs[0] if vs else d.ret).loc(), ok, 'the search does not start with every sample')


def minus_ones(v):
    p = to_poly(v)
    if len(p) == 1:
        (m, c), = p.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'call':
            n = m[0][0][1]
            n = n[2] if n[0] == 'attr' else n[1]
            return c == -1 and n in ('ones', 'ones_like') or c == 1 and n in ('full', 'full_like') and MINUS1 in m[0][0][2]
    return False
