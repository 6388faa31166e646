"""Swing values are the Shapley values of the same-decision indicator.  For each driver that returns (values, swings,
frequencies) the analysis extracts what is added per player, coalition and sample, by substitution of reaching definitions,
and splits by the sign of the change d the player brings: the value grows by w * d for a weight w = 1 / C(players - 1, size of
the coalition), the swings by w * d / players in the first column if d > 0 and in the second if d < 0, the frequencies by
one in the column of the sign; the value is divided by the number of players when it is returned.  The change is the value of
the coalition with the player less that of the same coalition without it, of the same sample; the coalition is listed from
the bits of its number over the other players, whole groups, its size counted in players; the players are the groups and the
variables in no group, each once."""
from .. import denote, forms, norm, shapley
from ..norm import C, show, to_poly

ZERO, ONE = C(0), C(1)
DRIVERS = ('swing_sv_clf', 'swing_sv_clf_nopa', 'swing_sv_clf_direct', 'swing_sv_clf_direct_nopa', 'swing_tree_shap', 'swing_tree_shap_clf')
KERNELS = ('compute_sdp_swing', 'compute_sdp_swing_nopa', 'compute_sdp_swing_diff', 'compute_sdp_swing_diff_nopa')
LISTERS = ('convert_list', 'chain_l', 'powerset', 'convert_list_v2')
D, MINUS, PLUS = ('n', '@change'), ('n', '@without'), ('n', '@with')


def terms(v):
    return [x for x in norm.subterms(v) if isinstance(x, tuple) and x]


class Skip(Exception):
    pass


class Wrong(Exception):
    pass


def check(env, r):
    for f in env.ctx.fns:
        if f.name not in DRIVERS or f.cls is not None:
            continue
        r.unit(f)
        w = env.walk(f, lambda g: g.mod is f.mod and g.name not in KERNELS + LISTERS + ('binomialC',) + DRIVERS
                     and not g.name.startswith(('single_', 'compute_')) and g.cls is None, 'swing')
        if not getattr(w, 'shapley', False):
            for e in w.events:
                shapley.settle(e)
            w.shapley = True
        for part in (values, coalition, players):
            try:
                part(env, r, f, w)
            except (Skip, denote.Opaque) as x:
                r.notes.append('undecided: %s %s: %s' % (f.qual, part.__name__, x))
            except Wrong as x:
                r.ob(part.__name__, f.qual, f.loc(f.node), False, str(x))
            except (IndexError, KeyError, TypeError, ValueError) as x:   # code of a shape this rule does not read
                r.notes.append('undecided: %s %s: %s' % (f.qual, part.__name__, x))
    r.floor('values', 3)


# ---------------------------------------------------------------- what is returned and added
def strip(v):
    while v[0] == 'call' and v[1][0] == 'attr' and v[1][1] == ('n', 'np') and v[1][2] in ('array', 'asarray') and len(v[2]) == 1:
        v = v[2][0]
    return v


def outputs(w):
    ret = [e for e in w.events if e.kind == 'return']
    if len(ret) != 1 or ret[0].value[0] != 'tuple' or len(ret[0].value) != 4:
        raise Skip('does not return three arrays')
    vs = [forms.deep(x, lambda y: strip(y) if strip(y) != y else None) for x in ret[0].value[1:]]
    out = []
    for v in vs:
        p = to_poly(v)
        if len(p) != 1:
            raise Skip('returns %s' % show(v)[:80])
        (m, c), = p.items()
        a = [x for x, k in m if x[0] == 'n' and k == 1 and x[1] not in w.fn.params and arrays(w, x)]
        if len(a) != 1:
            raise Skip('returns %s' % show(v)[:80])
        out.append((a[0], norm.from_poly({tuple((x, -k) for x, k in m if x != a[0]): 1 / c if c != 1 else 1})))
    return out


def arrays(w, x):
    return [e for e in w.events if e.kind == 'assign' and e.target == x and e.value[0] == 'call' and e.value[1][0] == 'attr'
            and e.value[1][2] in ('zeros', 'empty', 'zeros_like', 'full', 'ones')]


def fname(v):
    if v[0] != 'call':
        return None
    h = v[1]
    return h[1].split(':')[-1] if h[0] in ('fn', 'n') else h[2] if h[0] == 'attr' else None


def is_value(v, w):
    """A value of a coalition: a call of a kernel, or of the function given."""
    return v[0] == 'call' and (fname(v) in KERNELS or v[1] == ('n', 'value_function'))


def top(v, w):
    """The atoms of v that hold a value of a coalition: the call, an entry of it, or its comparison with the threshold."""
    out = []

    def go(x):
        if isinstance(x, frozenset):
            for y in x:
                go(y)
            return
        if not isinstance(x, tuple) or not x:
            return
        if x[0] == 'idx' and is_value(x[1], w) or is_value(x, w):
            out.append(x)
            return
        if x[0] in ('le', 'lt') and any(is_value(y, w) or y[0] == 'idx' and is_value(y[1], w) for y in x[1:]) \
                and any(names(y) & {'threshold', 'thresholds'} and not has_value(y, w) for y in x[1:]):
            out.append(x)
            return
        for y in x:
            go(y)
    go(v)
    return set(out)


def names(x):
    return {n for n in norm.names_in(x)} if x else set()


def has_value(x, w):
    return any(is_value(y, w) for y in terms(x))


def call_of(x):
    return x if x[0] == 'call' else call_of(x[1]) if x[0] == 'idx' else next(call_of(y) for y in x[1:] if any(
        z[0] == 'call' and (fname(z) in KERNELS or z[1] == ('n', 'value_function')) for z in terms(y)))


def coal(x, w):
    """What the call takes as coalition: (list, size) in the kernels, the list itself in Python."""
    c = call_of(x)
    kw = dict(c[3]) if len(c) > 3 and c[3] else {}
    if c[1] == ('n', 'value_function'):
        if 'S' not in kw:
            raise Skip('the coalition of %s' % show(c)[:60])
        s = kw['S']
        while s[0] == 'call' and s[1][0] == 'attr' and s[1][2] in ('astype', 'array', 'asarray'):
            s = s[1][1] if s[1][2] == 'astype' else s[2][0]
        return s
    ps = params(w, fname(c))
    args = dict(zip(ps, c[2]))
    args.update(kw)
    return args


def params(w, name):
    for g in w.env_fns:
        if g.name == name:
            return list(g.params)
    raise Skip('kernel %s' % name)


def parts(f, w):
    """The change the player brings, as the pair of atoms or the one."""
    out = outputs(w)
    adds = [e for e in w.events if e.kind == 'assign' and e.target[0] == 'idx' and e.target[1] in [a for a, d in out]]
    ts = set()
    for e in adds:
        ts |= top(e.value, w) | top(e.guard, w)
    return out, adds, sorted(ts, key=str)


def values(env, r, f, w):
    w.env_fns = env.ctx.fns
    w.fn = f
    out, adds, ts = parts(f, w)
    if not adds:
        raise Skip('nothing is added')
    hook = {}
    if len(ts) == 2:
        a, b = ts
        if a[0] == b[0] == 'idx' and a[1] == b[1]:
            raise Wrong('the change is read at %s and at %s' % (show(a)[-40:], show(b)[-40:]))
        sa, sb = coal(a, w), coal(b, w)
        which = bigger(w, sa, sb)
        if which is None:
            raise Skip('which coalition has the player')
        hook = {a: PLUS, b: MINUS} if which == 0 else {b: PLUS, a: MINUS}
    elif len(ts) == 1:
        hook = {ts[0]: D}
    else:
        raise Skip('%d values of coalitions' % len(ts))
    where = f.loc(f.node)
    for t in ts:
        sample(w, f, t, adds)
    div = out[0][1]

    def put(v):
        v = forms.deep(v, lambda x: hook.get(x))
        return forms.deep(v, lambda x: norm.add(D, MINUS) if x == PLUS else None) if PLUS in hook.values() else v
    phi, swings, prop = [a for a, d in out]
    for a, d in out[1:]:
        if d != ONE:
            raise Skip('%s is divided when returned' % show(a))
    got = {}
    for e in adds:
        col = ()
        if e.target[1] != phi:
            col = e.target[2][-1]
            if col[0] != 'c':
                raise Skip('column %s' % show(col))
            col = (int(col[1]),)
        if e.op != '+':
            raise Wrong('%s is overwritten, not added to' % show(e.target)[:60])
        g = put(e.guard)
        v = put(e.value)
        for sign in (1, 0, -1):
            t = decided(g, sign)
            if t[0] != 'c':
                raise Skip('the condition %s' % show(g)[:100])
            if not t[1]:
                got.setdefault((e.target[1], col, sign), ZERO)
                continue
            x = decided(v, sign)
            k = (e.target[1], col, sign)
            got[k] = norm.add(got.get(k, ZERO), x)
    if not [e for e in adds if e.target[1] == phi]:
        raise Wrong('nothing is added to %s' % show(phi))
    weight = binomial(got.get((phi, (), 1), ZERO))
    if weight is None:
        g = got.get((phi, (), 1), ZERO)
        if MINUS in terms(g):
            raise Wrong('what is added is not a multiple of the change: %s' % show(g)[:80])
        if not [x for x in terms(g) if x[0] in ('call', 'op')]:
            raise Wrong('the change is added without the weight of the coalition: %s' % show(g)[:80])
        raise Skip('no binomial in %s' % show(got.get((phi, (), 1), ZERO))[:100])
    n, k, wt = weight
    nplayers = div if div != ONE else norm.add(n, ONE)
    if norm.add(n, norm.add(nplayers, C(-1)), -1) != ZERO:
        raise Wrong('the weight is one of %s players, the sum is divided by %s' % (show(norm.add(n, ONE))[:60], show(nplayers)[:60]))
    per = norm.mul(wt, norm.power(nplayers, -1))
    d = {1: D, 0: ZERO, -1: D}
    want = {}
    for s in (1, 0, -1):
        want[phi, (), s] = norm.mul(wt if div != ONE else per, d[s])
        for c in (0, 1):
            want[swings, (c,), s] = norm.mul(per, D) if s == (1, 0, -1)[0 if c == 0 else 2] else ZERO
        for c, sg in enumerate((1, -1, 0)):
            want[prop, (c,), s] = ONE if s == sg else ZERO
    for key in sorted(set(got) | set(want), key=str):
        a, col, s = key
        g, x = got.get(key, ZERO), want.get(key, ZERO)
        r.ob('values', '%s %s%s' % (f.qual, show(a), list(col) if col else ''), where, g == x,
             'for a change that is %s, %s%s grows by %s, not by %s' % (
                 {1: 'positive', 0: 'zero', -1: 'negative'}[s], show(a), list(col) if col else '', show(g)[:120], show(x)[:120]))
    start(w, r, f, [a for a, _ in out])
    around(w, r, f, adds, nplayers)


def count_of(adds, out):
    return out[0][1] if out[0][1] != ONE else norm.add(weight_of(adds, out)[0], ONE)


def start(w, r, f, outs):
    for a in outs:
        for e in w.events:
            if e.kind == 'assign' and e.target == a and e.value[0] == 'call' and e.value[2] and e.value[1][2] == 'zeros' or \
                    e.kind == 'assign' and e.target == a and e.value[0] == 'call' and len(e.value) > 3 and e.value[3]:
                sh = e.value[2][0] if e.value[2] else dict(e.value[3]).get('shape')
                if sh and sh[0] == 'tuple':
                    dims = [show(x) for x in sh[1:]]
                    if dims[0] not in ('X.shape[0]', 'len(X)') and dims[0] in ('X.shape[1]', 'data.shape[0]', 'data.shape[1]') or \
                            dims[1] in ('X.shape[0]', 'data.shape[0]'):
                        raise Wrong('%s has one entry per (%s), not per sample and variable' % (show(a), ', '.join(dims[:2])))
        ini = [e for e in w.events if e.kind == 'assign' and e.target == a]
        ok = len(ini) == 1 and not ini[0].loops and ini[0].value[1][2] in ('zeros', 'zeros_like')
        if ini and not ok and ini[0].value[0] == 'call' and ini[0].value[1][2] not in ('empty', 'ones', 'full') and not any(e.loops for e in ini):
            raise Skip('how %s starts' % show(a))
        r.ob('values', '%s %s starts' % (f.qual, show(a)), f.loc(f.node), ok, '%s does not start from zeros, once' % show(a))


def decided(v, sign):
    """v for a change of this sign."""
    def cmp0(x):
        if x[0] in ('lt', 'le', 'eq', 'ne') and len(x) == 3:
            dif = norm.add(x[1], x[2], -1)
            p = to_poly(dif)
            if len(p) == 1:
                (m, c), = p.items()
                if m == ((D, 1),):
                    s = sign * (1 if c > 0 else -1)
                    return C(1 if {'lt': s < 0, 'le': s <= 0, 'eq': s == 0, 'ne': s != 0}[x[0]] else 0)
        return None

    def h(x):
        y = cmp0(x)
        if y is not None:
            return y
        if x == D and sign == 0:
            return ZERO
        if x[0] == 'call' and fname(x) in ('max', 'min', 'fmax', 'fmin', 'maximum', 'minimum') and len(x[2]) == 2 and ZERO in x[2] \
                and D in x[2]:
            big = fname(x) in ('max', 'fmax', 'maximum')
            return (D if sign > 0 else ZERO) if big else (D if sign < 0 else ZERO)
        if x[0] == 'ite':
            c = decided(x[1], sign)
            if c in (C(0), ('c', False)):
                return decided(x[3], sign)
            if c in (C(1), ('c', True)):
                return decided(x[2], sign)
        if x[0] in ('and', 'or', 'not'):
            return logic(x, sign)
        return None
    return forms.deep(v, h)


def logic(x, sign):
    def t(y):
        y = decided(y, sign)
        return y if y[0] != 'c' else ('c', bool(y[1]))
    if x[0] == 'not':
        return norm.NOT(t(x[1]))
    return (norm.AND if x[0] == 'and' else norm.OR)(*[t(y) for y in x[1]])


def binomial(v):
    p = to_poly(v)
    if len(p) != 1:
        return None
    (m, c), = p.items()
    for a, k in m:
        b = a
        if a[0] == 'op' and a[1] == 'Pow' and a[3] == C(-1) and k == 1:
            b, k = a[2], -1
        if b[0] == 'call' and fname(b) in ('binomialC', 'comb', 'binom') and k == -1:
            args = list(b[2]) + [x for _, x in (b[3] if len(b) > 3 and b[3] else ())]
            return args[0], args[1], norm.from_poly({((a, 1 if b is not a else -1),): 1})
    return None


def sample(w, f, t, adds):
    """The entry of the value is that of the sample whose row is added to."""
    if t[0] != 'idx':
        return
    for e in adds:
        if t in terms(e.value) and t[2] != e.target[2][:1]:
            raise Wrong('the change of sample %s is added to row %s' % (show(t[2][0]), show(e.target[2][0])))


def bigger(w, a, b):
    """0 if coalition a is b with the player, 1 if the other way round."""
    if isinstance(a, dict):
        sizes = [x.get('S_size') for x in (a, b)]
        if None in sizes or {k: v for k, v in a.items() if k != 'S_size'} != {k: v for k, v in b.items() if k != 'S_size'}:
            raise Wrong('the values with and without the player are not taken of the same data and coalition')
        for k in (0, 1):
            if has_len(norm.add(sizes[k], sizes[1 - k], -1)):
                return k
        return None
    return differ(a, b)


def differ(a, b):
    d = to_poly(norm.add(a, b, -1))
    for k, s in ((0, 1), (1, -1)):
        if len(d) == 1:
            (m, c), = d.items()
            if c == s and len(m) == 1 and fname(m[0][0]) == 'convert_list':
                return k
    return None


def has_len(d):
    p = to_poly(d)
    if len(p) != 1:
        return False
    (m, c), = p.items()
    return c == 1 and len(m) == 1 and (m[0][0][0] == 'idx' or fname(m[0][0]) in ('size', 'len'))


# ---------------------------------------------------------------- loops
def around(w, r, f, adds, nplayers):
    """Every player, coalition, sample and variable of the player is visited once."""
    for e in adds:
        kinds = []
        for l in e.loops:
            kinds.append(kind(w, f, l, nplayers, e))
        if None in kinds:
            raise Skip('a loop around what is added')
        need = {'player', 'coalition', 'variable'} | ({'sample'} if e.target[2][0][0] == 'L' else set())
        if set(kinds) != need or len(kinds) != len(need):
            raise Skip('the loops around what is added: %s' % kinds)
    r.ob('values', '%s loops' % f.qual, f.loc(f.node), True, '')


def kind(w, f, l, nplayers, e):
    d = l.dom
    if d[0] == 'range':
        lo, hi = d[1], d[2]
        x = None
        if hi == nplayers:
            x = 'player'
        elif hi == ('op', 'Pow', C(2), norm.add(nplayers, C(-1))) or hi == ('op', 'LShift', ONE, norm.add(nplayers, C(-1))):
            x = 'coalition'
        elif hi == ('idx', ('attr', ('n', 'X'), 'shape'), (ZERO,)):
            x = 'sample'
        elif hi[0] == 'idx' or fname(hi) in ('size', 'len'):
            x = 'variable'
        else:
            for z in (-2, -1, 0, 1, 2):
                if z and hi == ('op', 'Pow', C(2), norm.add(nplayers, C(z - 1))):
                    raise Wrong('the loop over the coalitions runs over %s of them' % show(hi)[:60])
            for c in (-1, 1):
                for k, y in ((nplayers, 'players'), (('op', 'Pow', C(2), norm.add(nplayers, C(-1))), 'coalitions'),
                             (('idx', ('attr', ('n', 'X'), 'shape'), (ZERO,)), 'samples')):
                    if norm.add(hi, C(c)) == k:
                        raise Wrong('a loop over the %s does not run over all of them, or over more' % y)
            return None
        if lo != ZERO:
            if lo[0] == 'c' and x:
                raise Wrong('the loop over each %s starts at %s' % (x, show(lo)))
            return None
        return x
    if fname(d) == 'powerset':
        return 'coalition'
    if fname(d) == 'tqdm' and len(d[2]) and fname(d[2][0]) == 'powerset':
        return 'coalition'
    if fname(d) == 'convert_list':
        return 'variable'
    if d[0] == 'n':
        return 'player'
    return None


# ---------------------------------------------------------------- the coalition
def coalition(env, r, f, w):
    w.env_fns = env.ctx.fns
    w.fn = f
    out, adds, ts = parts(f, w)
    where = f.loc(f.node)
    if not f.native:
        return coalition_py(r, f, w, ts, where)
    args = coal(ts[0], w)
    S = args['S']
    sizes = [coal(t, w)['S_size'] for t in ts]
    nplayers = count_of(adds, out)
    n, k, wt = binomial([norm.mul(e.value, ONE) for e in adds if e.target[1] == out[0][0]][0]) or weight_of(adds, out)
    for x, what in [(k, 'players')] + [(s, 'variables') for s in sizes]:
        if x[0] == 'c':
            raise Wrong('the %s of a coalition are not counted: %s' % (what, show(x)))
    cnt = [s for s in sizes if s[0] == 'n']
    if not cnt or k[0] != 'n':
        raise Skip('the counters of the coalition: %s, %s' % ([show(s) for s in sizes], show(k)))
    size = cnt[0]
    if size == k:
        raise Wrong('the weight takes the number of variables of the coalition for its number of players')
    fill = [e for e in w.events if e.kind == 'assign' and e.target[0] == 'idx' and e.target[1] == S]
    su = [e for e in w.events if e.kind == 'assign' and e.target == size]
    ku = [e for e in w.events if e.kind == 'assign' and e.target == k]
    if any(e.value is None for e in fill + su + ku):
        raise Skip('writes')
    for name, ev in (('variables', su), ('players', ku)):
        z = [e for e in ev if e.op is None]
        inc = [e for e in ev if e.op == '+']
        if len(z) == 1 and not inc and all(x.loops != [] for x in z):
            raise Wrong('the %s of a coalition are not counted' % name)
        if not z and len(inc) == 1 or len(z) == 1 and not z[0].loops:
            raise Wrong('the count of the %s of a coalition is not set back for each coalition' % name)
        if not inc and any(x.value == x.target for x in z):
            raise Wrong('the %s of a coalition are not counted' % name)
        if len(z) != 1 or len(inc) != 1:
            raise Skip('how the %s of the coalition are counted' % name)
        whole = name == 'variables' and bulk(w, inc[0], fill, size)
        if z[0].value != ZERO or inc[0].value != ONE and not whole:
            if z[0].value[0] != 'c' or inc[0].value[0] != 'c':
                raise Skip('the %s of a coalition are counted from %s by %s' % (name, show(z[0].value), show(inc[0].value)))
            raise Wrong('the %s of a coalition are counted from %s by %s' % (name, show(z[0].value), show(inc[0].value)))
        lk = [kind(w, f, l, nplayers, z[0]) for l in z[0].loops]
        if lk != ['player', 'coalition']:
            raise Wrong('the count of the %s of a coalition is not set back for each coalition' % name) if set(lk) <= {'player', 'coalition'} \
                else Skip('where the count of the %s is set back' % name)
        bits(w, f, inc[0], nplayers, 2 if name == 'variables' and not whole else 1, name)
    inc = [e for e in su if e.op == '+'][0]
    own = [e for e in fill if e.target[2][0] == size or bulk(w, inc, [e], size)]
    tail = [e for e in fill if e not in own]
    if not own and not [x for x in w.events if x.kind in ('mutate', 'assign') and x.target in (S, size) and x.op not in (None, '+')] \
            and all(len(x.loops) == 3 for x in tail):
        raise Wrong('the coalition is not filled')
    if len(own) != 1:
        raise Skip('how the coalition is filled')
    e = own[0]
    bits(w, f, e, nplayers, 2, 'listed variables')
    ci, cj = e.loops[-2].sym, e.loops[-1].sym
    src = entry(e.value)
    if src is None:
        raise Skip('what the coalition is filled with: %s' % show(e.value)[:80])
    base, ix = src
    if ix != (ci, cj):
        raise Wrong('entry %s of the coalition is read at %s' % (show(e.target)[:40], show(e.value)[:60]))
    order(w, e, su, fill)
    z = e.loops[-1].dom[2]
    if z[0] == 'idx' and z[2] != (ci,) and len(z[2]) == 1:
        raise Wrong('the variables of a player are taken up to the size %s' % show(z)[:60])
    others(w, f, base, nplayers, e.loops[-1].dom)
    va = e.loops[0].sym
    if len(ts) == 2:
        with_ = [s for s in sizes if s != size][0]
        grow = norm.add(with_, size, -1)
        if len(tail) != 1:
            raise Skip('how the player is appended')
        t = tail[0]
        j = t.loops[-1].sym
        if t.target[2][0] != norm.add(size, j) or t.guard != ('c', True):
            raise Skip('where the player is appended')
        src = entry(t.value)
        if src is None or len(src[1]) != 2:
            raise Skip('what is appended')
        if src[1] != (va, j):
            raise Wrong('the player appended to the coalition is %s' % show(t.value)[:60])
        if t.loops[-1].dom[1:3] != (ZERO, grow):
            raise Wrong('%s variables of the player are appended, %s are taken' % (show(t.loops[-1].dom[2])[:40], show(grow)[:40]))
        own_size(w, grow, va)
        own_list(w, src[0])
    else:
        if args.get('va') != va:
            raise Wrong('the change is asked for player %s, not for the one of the loop' % show(args.get('va'))[:40])
        for key in ('va_id', 'va_id_a'):
            if key in args:
                own_list(w, args[key])
        if 'len_va_id' in args:
            own_size(w, ('idx', args['len_va_id'], (va,)), va)
        if args.get('S_size') != size:
            raise Wrong('the size of the coalition is given as %s' % show(args.get('S_size'))[:60])
    for a in adds:
        z = a.loops[-1].dom
        if z[0] == 'range' and z[2][0] == 'idx' and len(z[2][2]) == 1 and z[2][2] != (va,):
            raise Wrong('the change is added to as many variables as %s' % show(z[2])[:60])
        tgt = a.target[2][1]
        src = entry(tgt)
        if tgt == va or src is not None and len(src[1]) == 2 and src[1][0] == va and src[1][1][0] == 'c':
            raise Wrong('the change of a player is added to %s only' % show(tgt)[:60])
        if src is None or len(src[1]) != 2 or len(a.loops) != 4:
            raise Skip('the variable that is added to')
        if src[1] != (va, a.loops[-1].sym):
            raise Wrong('the change of a player is added to %s' % show(tgt)[:60])
        own_list(w, src[0])
    r.ob('coalition', f.qual, where, True, '')


def bulk(w, inc, fill, size):
    """The entries of one player are written from the size on, which then grows by their number."""
    return any(len(e.loops) == len(inc.loops) + 1 and [l.sym for l in e.loops[:-1]] == [l.sym for l in inc.loops]
               and e.target[2][0] == norm.add(size, e.loops[-1].sym) and e.loops[-1].dom[0] == 'range'
               and e.loops[-1].dom[1:3] == (ZERO, inc.value) for e in fill)


def weight_of(adds, out):
    for e in adds:
        if e.target[1] == out[0][0]:
            for x in terms(e.value):
                if x[0] == 'call' and fname(x) in ('binomialC', 'comb', 'binom'):
                    return x[2][0], x[2][1], None
    raise Skip('no weight')


def entry(v):
    if v[0] != 'idx':
        return None
    base, ix = v[1], v[2]
    while base[0] == 'idx':
        base, ix = base[1], base[2] + ix
    return base, ix


def bits(w, f, e, nplayers, depth, what):
    """The event is under the loops player, coalition, others (, variables of the other) and the test of the bit."""
    if len(e.loops) != 2 + depth:
        if len(e.loops) == 3 and depth == 2 or len(e.loops) == 4 and depth == 1:
            if e.op == '+' and e.value == ONE:
                raise Wrong('the %s of a coalition are counted once per %s' % (what, 'variable' if depth == 1 else 'player'))
        raise Skip('the loops that fill the coalition')
    ctr, ci = e.loops[1], e.loops[2]
    if ci.dom[0] == 'range' and ci.dom[1][0] == 'c' and ci.dom[1] != ZERO:
        raise Wrong('the coalition leaves out some of the others')
    if ci.dom[0] != 'range' or ci.dom[1] != ZERO:
        raise Skip('the loop over the other players')
    if ci.dom[2] != norm.add(nplayers, C(-1)):
        if ci.dom[2] == nplayers or norm.add(ci.dom[2], C(2)) == nplayers:
            raise Wrong('the coalition is not made of the %s others' % show(norm.add(nplayers, C(-1)))[:40])
        raise Skip('the loop over the other players')
    if e.loops[2].dom[1] != ZERO:
        raise Wrong('the coalition leaves out some of the others')
    b = shapley.bits(e.guard)
    want = norm.cmp('ne', ZERO, ('op', 'BitAnd', ctr.sym, ('op', 'LShift', ONE, ci.sym)))
    if b != want and shapley.bits(norm.cmp('ne', ZERO, ('op', 'BitAnd', ('op', 'LShift', ONE, ci.sym), ctr.sym))) != b:
        if one_bit(b, ctr.sym, ci.sym):
            raise Wrong('the %s of a coalition are taken by the test %s' % (what, show(b)[:60]))
        if b == ('c', True) or shapley.bits(norm.NOT(b)) == want:
            raise Wrong('the %s of a coalition do not follow the bits of its number' % what)
        raise Skip('the test of the bit: %s' % show(b)[:80])


def one_bit(b, ctr, ci):
    """A comparison of the bit of this player in the number of the coalition with a constant (another than the test of it)."""
    if b[0] in ('lt', 'le', 'eq', 'ne') and len(b) == 3:
        x = [y for y in b[1:] if y[:2] == ('op', 'BitAnd')]
        o = [y for y in b[1:] if y[0] == 'c']
        if len(x) == len(o) == 1:
            y = set(x[0][2:])
            return y <= {ctr, ci, ZERO, ONE} or ('op', 'LShift', ONE, ci) in y and (ctr in y or any(z[0] == 'c' for z in y))
    return False


def order(w, e, su, fill):
    inc = [x for x in su if x.op == '+'][0]
    if w.events.index(inc) < w.events.index(e):
        if inc.value != ONE:
            raise Skip('the order of the size and the entries')
        raise Wrong('the size of the coalition is counted up before the entry is written')


def others(w, f, base, nplayers, dom):
    """The table the coalition is read from lists the players but the one of the loop."""
    sizes = dom[2]
    if base[0] != 'n':
        raise Skip('the list of the others %s' % show(base))
    ev = [e for e in w.events if e.kind == 'assign' and e.target[0] == 'idx' and e.target[1] == base]
    lst = base
    if ev:
        if len(ev) != 1:
            raise Skip('the list of the others')
        e = ev[0]
        src = entry(e.value)
        if src is None or len(src[1]) != 2 or len(e.loops) != 3:
            raise Skip('the list of the others')
        i, j = e.loops[1].sym, e.loops[2].sym
        if e.target[2] != (i, j) or src[1] != (i, j):
            raise Wrong('entry %s of the table of the others is %s' % (show(e.target)[:40], show(e.value)[:40]))
        full(e, i, 'the table of the others')
        if e.loops[1].dom[1:3] != (ZERO, norm.add(nplayers, C(-1))):
            raise Wrong('the table of the others is filled for %s players' % show(e.loops[1].dom[2])[:40])
        lst = src[0]
    if sizes[0] == 'idx':
        sz = [e for e in w.events if e.kind == 'assign' and e.target[0] == 'idx' and e.target[1] == sizes[1]]
        if len(sz) == 1 and shapley.size_of(sz[0].value) is not None:
            x = shapley.size_of(sz[0].value)
            if x != ('idx', lst, (sz[0].loops[-1].sym,)) or sz[0].target[2] != (sz[0].loops[-1].sym,):
                raise Wrong('the sizes of the other players are those of %s' % show(x)[:60])
    ms = [e for e in w.events if e.kind == 'mutate' and e.target == lst]
    asg = [e for e in w.events if e.kind == 'assign' and e.target == lst and e.loops]
    kinds = [e.op for e in ms]
    va = None
    if kinds == ['assign', 'erase'] and not asg:
        va = ms[0].loops[0].sym if ms[0].loops else None
        at = to_poly(ms[1].value[0])
        rest = {m: c for m, c in at.items() if not (len(m) == 1 and fname(m[0][0]) in ('begin', 'end'))}
        if fname(ms[1].value[0]) is None and any(fname(m[0][0]) == 'end' for m in at if m):
            raise Wrong('the player left out is counted from the end')
        if norm.from_poly(rest) != va:
            raise Wrong('the player left out of the others is %s' % show(norm.from_poly(rest))[:60])
        if len(ms[0].loops) != 1 or len(ms[1].loops) != 1:
            raise Wrong('the list of the others is not made afresh for each player')
        return
    if kinds == ['remove'] and len(asg) == 1 and fname(asg[0].value) in ('copy', 'list'):
        x = ms[0].value[0]
        if x[0] == 'idx' and x[2] != (ms[0].loops[0].sym,):
            raise Wrong('the player left out of the others is %s' % show(x)[:60])
        return
    raise Skip('how the others are listed (%s)' % kinds)


def listed(w, x):
    """The table as (source list) when it is a copy entry by entry."""
    ev = [e for e in w.events if e.kind == 'assign' and e.target[0] == 'idx' and e.target[1] == x]
    if len(ev) != 1:
        raise Skip('table %s' % show(x))
    return ev[0]


def own_list(w, x):
    if x[0] != 'n':
        return
    if not [e for e in w.events if e.kind == 'assign' and e.target[0] == 'idx' and e.target[1] == x]:
        return
    e = listed(w, x)
    src = entry(e.value)
    if src is None or len(src[1]) != 2 or len(e.loops) != 2:
        raise Skip('the table of the players')
    i, j = [l.sym for l in e.loops]
    if e.target[2] != (i, j) or src[1] != (i, j):
        raise Wrong('entry %s of the table of players is %s' % (show(e.target)[:40], show(e.value)[:40]))
    full(e, i, 'the table of the players')
    n = count_of(*parts(w.fn, w)[1::-1])
    d = e.loops[0].dom
    if d[0] == 'range' and d[2] != n and any(norm.add(d[2], C(k)) == n for k in (-2, -1, 1, 2)):
        raise Wrong('the table of the players is filled for %s of them' % show(d[2])[:40])


def full(e, i, what):
    z = e.loops[-1].dom
    if z[0] == 'range' and z[1][0] == 'c' and z[1] != ZERO or e.loops[-2].dom[0] == 'range' and e.loops[-2].dom[1][0] == 'c' \
            and e.loops[-2].dom[1] != ZERO:
        raise Wrong('%s is not filled from the first entry' % what)
    if z[0] == 'range' and z[2][0] == 'idx' and len(z[2][2]) == 1 and z[2][2] != (i,):
        raise Wrong('%s is filled up to %s' % (what, show(z[2])[:40]))


def own_size(w, x, va):
    if x[0] == 'idx' and x[1][0] == 'n':
        if x[2] != (va,):
            raise Wrong('the size of the player is taken of %s' % show(x)[:60])
        ev = [e for e in w.events if e.kind == 'assign' and e.target[0] == 'idx' and e.target[1] == x[1]]
        if len(ev) == 1:
            y = shapley.size_of(ev[0].value)
            if y is not None and (y[0] != 'idx' or y[2] != (ev[0].loops[-1].sym,)):
                raise Wrong('the size of a player is that of %s' % show(y)[:60])
            if y is None and ev[0].value[0] == 'c':
                raise Wrong('the size of a player is %s' % show(ev[0].value))


def coalition_py(r, f, w, ts, where):
    cs = [coal(t, w) for t in ts]
    rest = [{k: v for k, v in (call_of(t)[3] or ()) if k != 'S'} for t in ts]
    for a in rest:
        for k, v in a.items():
            if k in f.params and v[0] == 'n' and v[1] in f.params and v[1] != k:
                raise Wrong('the value of a coalition is taken with %s for %s' % (show(v), k))
        for k in ('X', 'data'):
            if k not in a and k in f.params and any(k in b for b in rest):
                raise Wrong('the value of a coalition is taken without %s' % k)
    if len(cs) != 2:
        raise Skip('%d values' % len(cs))
    k = bigger(w, *cs)
    if k is None:
        raise Skip('which coalition has the player')
    small = cs[1 - k]
    if fname(small) != 'chain_l':
        raise Skip('the coalition %s' % show(small)[:60])
    S = small[2][0]
    (m, c), = to_poly(norm.add(cs[k], small, -1)).items()
    pl = m[0][0][2][0]
    out, adds, _ = parts(f, w)
    e = adds[0]
    play = [l for l in e.loops if kind(w, f, l, None, e) == 'player']
    coa = [l for l in e.loops if kind(w, f, l, None, e) == 'coalition']
    var = [l for l in e.loops if kind(w, f, l, None, e) == 'variable']
    if not (len(play) == len(coa) == len(var) == 1):
        raise Skip('the loops')
    if S != coa[0].sym:
        raise Wrong('the coalition whose value is taken is %s' % show(S)[:60])
    if pl != play[0].sym:
        raise Wrong('the player added to the coalition is %s' % show(pl)[:60])
    b = weight_of(adds, out)
    if b[1] != ('call', ('n', 'len'), (S,), ()):
        if fname(b[1]) == 'len' and (b[1][2][0] == small or fname(b[1][2][0]) in ('chain_l',)):
            raise Wrong('the weight takes the number of variables of the coalition for its number of players')
        raise Skip('the size in the weight: %s' % show(b[1])[:60])
    if var[0].dom[2][0] != play[0].sym:
        raise Wrong('the change is added to the variables of %s' % show(var[0].dom)[:60])
    for a in adds:
        if a.target[2][1] != a.loops[-1].sym:
            raise Wrong('the change is added to column %s' % show(a.target[2][1])[:40])
    d = coa[0].dom
    d = d[2][0] if fname(d) == 'tqdm' else d
    sm = d[2][0]
    asg = [e for e in w.events if e.kind == 'assign' and e.target == sm]
    ini = [e for e in asg if len(e.loops) == 1]
    if len(ini) != 1:
        raise Skip('how the others are listed')
    sets = setdiff(ini[0].value)
    if sets is None:
        union(ini[0].value)
        raise Skip('how the others are listed: %s' % show(ini[0].value)[:80])
    if fname(sets[1]) != 'convert_list':
        raise Skip('what is left out of the others')
    if sets[1][2][0] != play[0].sym:
        raise Wrong('the player left out of the others is %s' % show(sets[1])[:60])
    later = [e for e in asg if len(e.loops) > 1]
    seen = set()
    for e in later:
        g = e.loops[-1]
        if g.kind != 'iter' or g.dom != ('n', 'C'):
            raise Skip('the groups among the others')
        sd = setdiff(e.value) if e.op is None else None
        if sd is not None and sd[1] == g.sym and sd[0] == sm:
            seen.add('-')
        elif e.op == '+' and e.value in (('list', g.sym), ('call', ('n', 'list'), (g.sym,), ())):
            seen.add('+' if e.value[0] == 'list' else 'flat')
        elif e.op == '+' and norm.neg(e.value) == ('list', g.sym):
            raise Wrong('the groups among the others are taken away')
        else:
            union(e.value)
            raise Skip('the groups among the others: %s' % show(e.value)[:80])
        conds = conj(e.guard)
        groups_on(conds)
        sub = [x for x in conds if x[0] == 'call' and fname(x) == 'issubset']
        if not sub:
            if any(x[0] == 'not' and fname(x[1]) == 'issubset' for x in conds):
                raise Wrong('groups with the player are treated as one of the others')
            raise Skip('the condition on the groups')
    if later and seen != {'-', '+'}:
        raise Wrong('the groups among the others do not replace their variables (%s)' % ', '.join(sorted(seen)))
    r.ob('coalition', f.qual, where, True, '')


def conj(g):
    return list(g[1]) if g[0] == 'and' else [g]


def union(v):
    if fname(v) == 'list' and len(v[2]) == 1:
        p = to_poly(v[2][0])
        if len(p) == 2 and all(c == 1 and len(m) == 1 and fname(m[0][0]) == 'set' for m, c in p.items()):
            raise Wrong('sets of variables are joined where one is to be left out: %s' % show(v)[:60])


def groups_on(conds):
    for x in conds:
        if x[0] in ('eq', 'ne') and ('list',) in x[1:]:
            y = x[2] if x[1] == ('list',) else x[1]
            if y == ('idx', ('n', 'C'), (ZERO,)) and x[0] == 'eq':
                raise Wrong('groups are taken into account when there are none, and only then')


def setdiff(v):
    """list(set(a) - set(b)), or [x for x in a if x not in b], as (a, b)."""
    if v[0] == 'comp':
        c = [x for x in terms(v) if x[0] == 'notin']
        it = [x for x in terms(v) if x[0] == 'iter' and len(x) == 3]
        sub = [x for x in terms(v) if x[0] == 'comp']
        if len(c) == len(it) == len(sub) == 1 and c[0][1] == it[0][2] and it[0][2] not in terms(c[0][2]):
            return it[0][1], c[0][2]
    if fname(v) == 'list' and len(v[2]) == 1:
        v = v[2][0]
    p = to_poly(v)
    if len(p) != 2:
        return None
    a = [m[0][0] for m, c in p.items() if c == 1 and len(m) == 1]
    b = [m[0][0] for m, c in p.items() if c == -1 and len(m) == 1]
    if len(a) != 1 or len(b) != 1 or fname(a[0]) != 'set' or fname(b[0]) != 'set':
        return None
    return a[0][2][0], b[0][2][0]


# ---------------------------------------------------------------- the players
def players(env, r, f, w):
    w.env_fns = env.ctx.fns
    w.fn = f
    out, adds, ts = parts(f, w)
    n = count_of(adds, out)
    where = f.loc(f.node)
    if not f.native:
        return players_py(r, f, w, n, adds, where)
    lst = shapley.size_of(n)
    if lst is None:
        if n == ('idx', ('attr', ('n', 'X'), 'shape'), (ONE,)):
            raise Wrong('the number of players is that of the variables, whatever the groups')
        raise Skip('the number of players %s' % show(n)[:60])
    ms = [e for e in w.events if e.kind == 'mutate' and e.target == lst]
    asg = [e for e in w.events if e.kind == 'assign' and e.target == lst]
    nv = ('idx', ('attr', ('n', 'X'), 'shape'), (ONE,))
    comp = [e for e in asg if e.value[0] == 'comp']
    if len(comp) != 1 or len(ms) != 2 or [e.op for e in ms] != ['append', 'append']:
        raise Skip('how the players are listed')
    c = comp[0].value
    c0 = c[2][0] if c[2] and isinstance(c[2][0], tuple) else None
    dom = c0[1] if c0 and c0[0] == 'range' and isinstance(c0[1], tuple) else None
    if dom is None or dom[0] != 'range':
        raise Skip('the players without groups')
    if dom[1:3] != (ZERO, nv):
        raise Wrong('without groups the players are %s' % show(dom)[:60])
    one, grp = ms
    if len(one.loops) > len(grp.loops):
        one, grp = grp, one
    if len(one.loops) != 1 or len(grp.loops) != 2 or one.loops[0].dom != grp.loops[0].dom:
        raise Skip('the loops that list the players')
    if one.loops[0].dom[1:3] != (ZERO, nv):
        raise Wrong('the players are listed from the variables %s' % show(one.loops[0].dom)[:60])
    i, g = one.loops[0].sym, grp.loops[1].sym
    if one.value[0] != ('list', i) or grp.value[0] != g:
        raise Wrong('what is listed as a player is %s or %s' % (show(one.value[0])[:40], show(grp.value[0])[:40]))
    a, b = conj(one.guard), conj(grp.guard)
    groups_on(a)
    groups_on(b)
    elem(c)
    outs = [x for x in a if x[0] in ('in', 'notin') and x[1] == i]
    ins = [x for x in b if x[0] in ('in', 'notin') and x[1] == i]
    if len(outs) != 1 or not ins:
        raise Skip('the conditions on the players')
    if outs[0][0] == 'in':
        raise Wrong('a variable that is in a group is listed on its own')
    mine = [x for x in ins if x[2] == g]
    if not mine:
        raise Skip('the group of a variable')
    if mine[0][0] != 'in':
        raise Wrong('a variable stands for a group it is not in')
    if len(ins) > 1 and any(x[0] == 'notin' for x in ins):
        raise Wrong('a group is listed for a variable in no group')
    rem = [e for e in w.events if e.kind == 'mutate' and e.op in ('remove', 'pop') and e.loops and e.loops[-1] is grp.loops[-1]]
    if len(rem) != 1 or rem[0].target != grp.loops[1].dom:
        if not rem:
            raise Wrong('a group is listed once for each of its variables')
        raise Skip('how a listed group is removed')
    if rem[0].op == 'remove' and rem[0].value[0] != g or set(conj(rem[0].guard)) != set(b):
        raise Wrong('the group removed from the list is not the one just listed')
    coal_va = outs[0][2]
    if coal_va[0] == 'comp':
        txt = show(coal_va)
        ok = len(coal_va[2]) == 2 or 'comp1' in txt
        member = coal_va[-1]
        while isinstance(member, tuple) and member and isinstance(member[0], tuple):
            member = member[0]
        if isinstance(member, tuple) and member and member[0] == 'idx' and member[1] == ('n', 'C') and any(x[0] == 'c' for x in member[2]):
            raise Wrong('the variables in groups are those of one group: %s' % show(member))
        doms = [x for x in terms(coal_va) if x[0] == 'range' and len(x) > 2 and isinstance(x[2], tuple)]
        bad = [d for d in doms if d[1][0] == 'c' and d[1] != ZERO]
        if bad:
            raise Wrong('the variables in groups are listed from %s' % show(bad[0][1]))
    r.ob('players', f.qual, where, True, '')


def elem(c):
    e = c[-1]
    while isinstance(e, tuple) and e and isinstance(e[0], tuple):
        e = e[0]
    if e[0] == 'list' and len(e) == 2 and not (e[1][0] == 'L' and str(e[1][1]).startswith('comp')):
        raise Wrong('without groups the players are %s' % show(e)[:60])


def misses(v, nv):
    if fname(v) not in ('list', 'arange') or len(v[2]) != 1 and fname(v) == 'list':
        return False
    x = v[2][0] if fname(v) == 'list' else v
    b = x[2] if fname(x) in ('range', 'arange') else x[1:3] if x[0] == 'range' else ()
    lo, hi = (ZERO, b[0]) if len(b) == 1 else b[:2] if b else (ZERO, None)
    return hi is not None and (lo[0] == 'c' and lo != ZERO or any(norm.add(hi, C(k)) == nv for k in (-1, 1)))


def players_py(r, f, w, n, adds, where):
    e = adds[0]
    play = [l for l in e.loops if kind(w, f, l, None, e) == 'player']
    if len(play) != 1:
        raise Skip('the loop over the players')
    lst = play[0].dom
    nv = ('idx', ('attr', ('n', 'X'), 'shape'), (ONE,))
    if n[0] != 'n':
        if n == nv:
            raise Wrong('the number of players is that of the variables, whatever the groups')
        if shapley.size_of(n) != lst:
            raise Skip('the number of players')
    else:
        got = []
        for e in w.events:
            if e.kind == 'assign' and e.target == n:
                it = e.loops[-1] if e.loops else None
                if e.op is None and e.value == nv and not it:
                    got.append('variables')
                elif e.op == '+' and it is None and shapley.size_of(e.value) == ('n', 'C'):
                    got.append('groups')
                elif e.op == '+' and it and it.dom == ('n', 'C') and e.value == norm.neg(('call', ('n', 'len'), (it.sym,), ())):
                    got.append('-in groups')
                elif e.op == '+' and (e.value[0] == 'c' or e.value == norm.neg(('call', ('n', 'len'), (('n', 'C'),), ()))
                                      or it and e.value == ('call', ('n', 'len'), (it.sym,), ())):
                    raise Wrong('the number of players is changed by %s' % show(e.value)[:60])
                else:
                    raise Skip('the number of players: %s' % show(e.value)[:60])
        if sorted(got) != ['-in groups', 'groups', 'variables']:
            raise Wrong('the number of players counts %s' % ', '.join(got))
    got = []
    for e in w.events:
        if e.kind == 'assign' and e.target in (lst, n):
            groups_on(conj(e.guard))
        if e.kind == 'assign' and e.target == lst:
            it = e.loops[-1] if e.loops else None
            v = e.value
            sd = setdiff(v) if e.op is None else None
            if e.op is None and fname(v) == 'list' and v[2][0] == ('range', ZERO, nv, ONE) or e.op is None and show(v) == 'list(range(X.shape[1]))':
                got.append('variables')
            elif sd and it and it.dom == ('n', 'C') and sd == (lst, it.sym):
                got.append('-in groups')
            elif e.op == '+' and it and it.dom == ('n', 'C') and v in (('list', it.sym),):
                got.append('groups')
            elif e.op is None and not it and misses(v, nv):
                raise Wrong('the players are listed from %s' % show(v)[:60])
            elif e.op == '+' and it and v in (it.sym, ('call', ('n', 'list'), (it.sym,), ())):
                raise Wrong('the variables of a group are players one by one')
            else:
                raise Skip('how the players are listed: %s' % show(v)[:60])
    if sorted(got) != ['-in groups', 'groups', 'variables']:
        raise Wrong('the players are %s' % ', '.join(got))
    r.ob('players', f.qual, where, True, '')
