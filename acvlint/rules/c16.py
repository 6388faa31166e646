"""Lists of all sufficient explanations. A coalition is listed for a sample exactly when its probability reaches the level
and it contains no coalition listed before; coalitions and probabilities are listed side by side; the frequencies count
the features of what was listed, divided by how many coalitions were; the placeholders the lists start with are taken off."""
from ..norm import AND, TRUE, mul, show, subterms
from . import c15
from .c15 import ONE, ZERO, base_of, flat, idx, is_idx, shape, size_call


def drivers(env):
    return [f for f in env.native_fns if 'pi_level' in f.params and f.name.startswith('sufficient_')]


def conj(g):
    if g[0] == 'and':
        out = []
        for x in (g[1] if isinstance(g[1], frozenset) else g[1:]):
            out += conj(x)
        return out
    return [] if g == TRUE else [g]


def check(env, r):
    for f in drivers(env):
        r.unit(f)
        one(env, r, f)
    for f in env.ctx.fns:
        if not f.native:
            placeholders(env, r, f)
    r.floor('enumeration', 12)
    r.floor('listed', 2)
    r.floor('own-value', 4)
    r.floor('side-by-side', 2)
    r.floor('frequencies', 4)
    r.floor('placeholders', 6)


def one(env, r, f):
    d = c15.Driver(env, f)
    q = f.qual
    ret = d.ret
    if ret is None or len(c15_parts(ret.value)) != 3:
        r.ob('side-by-side', q, f.loc(), False, 'coalitions, probabilities and frequencies are not returned together')
        return
    lst, pro, freq = c15_parts(ret.value)
    lst, pro = c15.unwrap(lst), c15.unwrap(pro)
    adds = [e for e in d.ev if e.kind == 'mutate' and e.op in ('push_back', 'append') and e.target and e.target[0] == 'idx' and base_of(e.target) == lst]
    if not adds or len(adds[0].loops) < 3:
        r.ob('listed', q, ret.loc(), False, 'no coalition is added to the list within the enumeration')
        return
    e = adds[0]
    L0, L1, LI = e.loops[0], e.loops[1], e.loops[2]
    c15.enum(r, d, q, L0, L1)
    cur = idx(d.power, L0.sym, L1.sym)
    i = e.target[2][0]
    ok = len(adds) == 1 and len(e.loops) == 3 and i == LI.sym and LI.kind == 'range' and LI.dom[1:] == (ZERO, shape('X', 0), ONE) and e.value and c15.unwrap(e.value[0]) == cur
    r.ob('listed', q + '/who', e.loc(), ok, 'what is listed for a sample is %s, for %s' % (show(e.value[0])[:80] if e.value else '?', show(LI.dom)))
    lv = [x for x in conj(e.guard) if x[0] in ('le', 'lt') and x[1] == ('n', 'pi_level')]
    rest = [x for x in conj(e.guard) if x not in lv]
    r.ob('listed', q + '/level', e.loc(), len(lv) == 1 and lv[0][0] == 'le', 'a coalition is listed if %s' % show(e.guard)[:160])
    if lv:
        v = lv[0][2]
        value(r, d, q, e, v, L0, L1, i)
        ps = [x for x in d.ev if x.kind == 'mutate' and x.op == e.op and x.target and x.target[0] == 'idx' and base_of(x.target) == pro]
        r.ob('side-by-side', q, (ps[0] if ps else e).loc(), len(ps) == 1 and list(ps[0].loops) == list(e.loops) and c15.same(ps[0].guard, e.guard) and ps[0].target[2] == (i,) and ps[0].value == (v,),
             'with the coalition, the list of probabilities gets %s' % ('nothing' if not ps else show(ps[0].value[0])[:80] + ' if ' + show(ps[0].guard)[:80]))
        pruning(r, d, q, e, rest, lst, cur, L0, L1, LI)
    counted(r, d, q, e, freq, cur, L0, L1)
    for nm, what in ((lst, 'list'), (pro, 'list of probabilities')):
        vs = [x for x in d.ev if x.kind == 'assign' and x.target == nm and not x.loops]
        okv = bool(vs) and vs[-1].value[0] == 'comp' and repr(vs[-1].value).count("('c', -1)") == 1
        r.ob('placeholders', '%s/%s' % (q, what), (vs[0] if vs else e).loc(), okv, 'the %s starts as %s, not with one placeholder for each sample' % (what, show(vs[-1].value)[:60] if vs else 'nothing'))
    for x in d.ev:
        if x.kind in ('break', 'return', 'continue') and x is not ret and x.loops and (x.loops[-1] in (L0, L1) or x.kind == 'return'):
            r.ob('listed', q + '/ended early', x.loc(), False, 'the enumeration is left when %s' % show(x.guard)[:100])


def c15_parts(v):
    if v[0] != 'tuple':
        return ()
    p = v[1:]
    return p[0] if len(p) == 1 and isinstance(p[0], tuple) and p[0] and isinstance(p[0][0], tuple) else p


def value(r, d, q, e, v, L0, L1, i):
    b, path = flat(v)
    if b[0] == 'n':
        src = [x for x in d.ev if x.kind == 'assign' and (x.target == b or base_of(x.target) == b) and list(x.loops[:2]) == [L0, L1] and x.idx < e.idx]
        r.ob('own-value', q + '/slot', e.loc(), bool(src) and (src[-1].target == b and len(path) == 1 or src[-1].target[2] == (i,)), 'the probability compared was not computed for this coalition')
        if not src:
            return
        b, path = flat(src[-1].value) if src[-1].target != b else (src[-1].value, path)
    g = next((g for g in d.env.native_fns if b[0] == 'call' and g.qual == b[1][1]), None)
    if g is None:
        r.notes.append('%s: how the probability is computed is not recognised' % q)
        return
    args = dict(zip(g.params, b[2]))
    args.update({k: x for k, x in b[3]})
    for p in g.params:
        if p == 'S':
            s = args.get(p)
            sb, sp = flat(s)
            ok = s == idx(d.power, L0.sym, L1.sym) or sb in d.coals(L0, L1) and sp and sp[-1][0] == 'slice' and sp[-1][1] in (None, ZERO, ('c', None)) and sp[-1][2] == size_call(idx(d.power, L0.sym, L1.sym))
            r.ob('own-value', q + '/coalition', e.loc(), ok, 'the estimate is made for %s, not for the coalition listed' % show(s)[:80])
        elif p in d.f.params:
            r.ob('own-value', '%s/%s' % (q, p), e.loc(), p in args and c15.unwrap(args[p]) == ('n', p), 'the estimate is made with %s=%s' % (p, show(args[p])[:60] if p in args else 'its default'))
    r.ob('own-value', q + '/row', e.loc(), path == [i], 'the probability compared is that of row %s' % ', '.join(show(x) for x in path))


def pruning(r, d, q, e, rest, lst, cur, L0, L1, LI):
    con = q + '/no superset'
    if not rest:
        r.ob('listed', con, e.loc(), False, 'a coalition that contains one listed before is listed as well')
        return
    flags = [t for x in rest for t in subterms(x) if isinstance(t, tuple) and len(t) == 2 and t[0] == 'n']
    flags = [t for t in flags if any(x.kind == 'assign' and x.target == t and list(x.loops[:3]) == [L0, L1, LI] for x in d.ev)]
    if len(rest) != 1 or len(set(flags)) != 1:
        r.ob('listed', con, e.loc(), len(rest) > 0 and len(set(flags)) == 1, 'a coalition is listed only if %s' % ' and '.join(show(x) for x in rest)[:160])
        return
    fl = flags[0]
    ws = [x for x in d.ev if x.kind == 'assign' and x.target == fl and list(x.loops[:3]) == [L0, L1, LI]]
    init = [x for x in ws if len(x.loops) == 3]
    sets = [x for x in ws if len(x.loops) > 3]
    vals = {repr(x.value) for x in sets}
    okf = len(init) == 1 and sets and len(vals) == 1 and rest[0] in [('eq', a, b) for a, b in ((init[0].value, fl), (fl, init[0].value))] + [('eq',) + tuple(sorted((init[0].value, fl), key=c15.skey))] + \
        [('not', fl)] * (init[0].value in (('c', False), ZERO)) and init[0].value != sets[0].value and \
        set(conj(init[0].guard)) <= set(conj(e.guard))
    r.ob('listed', con, e.loc(), okf, 'the mark of a superset (%s) starts as %s, is set to %s, and a coalition is listed if %s' % (
        show(fl), show(init[0].value) if init else '?', show(sets[0].value) if sets else '?', show(rest[0])))
    for x in sets:
        lj = x.loops[3]
        prev = idx(lst, LI.sym, lj.sym)
        okj = len(x.loops) == 4 and lj.kind == 'range' and lj.dom[1] in (ZERO, ONE) and lj.dom[2] == size_call(idx(lst, LI.sym)) and lj.dom[3] == ONE
        r.ob('listed', con + '/all listed before', x.loc(), okj, 'the coalition is compared with %s' % show(lj.dom)[:80])
        brk = [y for y in d.ev if y.kind == 'break' and y.loops and y.loops[-1] is lj]
        r.ob('listed', con + '/comparison left', (brk[0] if brk else x).loc(), all(c15.same(AND(y.guard, TRUE), x.guard) for y in brk), 'the comparison with the coalitions listed before is left when %s' % (show(brk[0].guard)[-120:] if brk else ''))
        g = [y for y in conj(x.guard) if y not in conj(e.guard)]
        cnt = next((t for y in g for t in subterms(y) if isinstance(t, tuple) and len(t) == 2 and t[0] == 'n' and any(z.kind == 'assign' and z.target == t and z.op == '+' and lj in z.loops for z in d.ev)), None)
        if cnt is None:
            r.notes.append('%s: the test for a superset is not a count; not judged further' % q)
            continue
        n = size_call(prev)
        okg = len(g) == 1 and g[0] in (('eq', n, cnt), ('eq', cnt, n), ('le', n, cnt))
        r.ob('listed', con + '/all members', x.loc(), okg, 'a coalition counts as a superset if %s' % ' and '.join(show(y) for y in g)[:120])
        zero = [y for y in d.ev if y.kind == 'assign' and y.target == cnt and y.op is None and len(y.loops) == 4 and y.loops[3] is lj]
        inc = [y for y in d.ev if y.kind == 'assign' and y.target == cnt and y.op == '+']
        okc = len(zero) == 1 and zero[0].value == ZERO and len(inc) == 1 and len(inc[0].loops) == 5 and inc[0].value == ONE
        if okc:
            lk = inc[0].loops[4]
            gi = [y for y in conj(inc[0].guard) if y not in conj(zero[0].guard)]
            mem = idx(lst, LI.sym, lj.sym, lk.sym)
            okc = lk.kind == 'range' and lk.dom[1:] == (ZERO, n, ONE) and len(gi) == 1 and gi[0][0] == 'in' and gi[0][1] == mem and (gi[0][2] == cur or gi[0][2][0] == 'idx' and base_of(gi[0][2]) in d.coals(L0, L1))
        r.ob('listed', con + '/membership', (inc or [x])[0].loc(), okc, 'the members of a listed coalition that are in this one are not counted each once')


def counted(r, d, q, e, freq, cur, L0, L1):
    K = [x for x in d.ev if x.kind == 'assign' and x.op == '+' and x.target[0] == 'n' and list(x.loops) == list(e.loops) and x.value == ONE and c15.same(x.guard, e.guard)]
    gl = [x for x in d.ev if x.kind == 'assign' and x.op == '+' and is_idx(x.target) and list(x.loops[:3]) == list(e.loops) and len(x.loops) == 4]
    ok = len(gl) == 1 and c15.same(gl[0].guard, e.guard) and gl[0].value == ONE
    if ok:
        s = gl[0].loops[3]
        b, p = flat(gl[0].target[2][0])
        ok = p[-1:] == [s.sym] and (b in d.coals(L0, L1) or idx(b, *p[:-1]) == cur or p == [L0.sym, L1.sym, s.sym]) and s.kind == 'range' and s.dom[1:] == (ZERO, size_call(cur), ONE)
    r.ob('frequencies', q + '/count', (gl or [e])[0].loc(), ok, 'the frequencies do not count every feature of every coalition listed once')
    okr = False
    if gl:
        for k in K:
            for t in subterms(freq):
                if isinstance(t, tuple) and t and t[0] == 'call' and t[1] == ('n', 'max') and set(t[2]) == {k.target, ONE}:
                    rest = mul(freq, t)
                    okr = okr or c15.unwrap(rest) == base_of(gl[0].target)
            init = [x for x in d.ev if x.kind == 'assign' and x.target == k.target and not x.loops]
            okr = okr and bool(init) and init[-1].value == ZERO
    r.ob('frequencies', q + '/divided', d.ret.loc(), okr, 'the frequencies returned are %s, not the counts over the number of coalitions listed' % show(freq)[:100])


def placeholders(env, r, f):
    """Every public operation that returns such a list takes off the first entry of both lists (or neither)."""
    if not f.name.startswith('sufficient_'):
        return
    w = env.walk_inl(f)
    ret = [e for e in w.events if e.kind == 'return' and e.value is not None]
    for e in ret:
        p = c15_parts(e.value) if e.value[0] == 'tuple' else ()
        if len(p) != 3:
            continue
        ok, n = True, 0
        for k in (0, 1):
            t = p[k]
            if t[0] == 'comp' and len(t[2]) == 1 and t[3] == TRUE:
                src = t[2][0][1]
                n += 1
                ok = ok and t[4] == (('idx', ('L', 'comp0'), (('slice', ONE, ('c', None), ('c', None)),)),) and src[0] == 'idx' and src[2] == (('c', k),) and src[1][0] == 'call' and 'sufficient' in repr(src[1][1])
        if n == 0 and all(x[0] == 'idx' and x[2] == (('c', k),) for k, x in enumerate(p)):
            continue
        r.unit(f)
        r.ob('placeholders', f.qual, e.loc(), ok and n == 2, 'the placeholders are not taken off both lists: %s' % ', '.join(show(x)[-80:] for x in p[:2]))
