"""Which features a coalition search ranges over: all of them up to ten, the ten most important ones above. The value
handed to the search kernels is put in the form take(n, order) for 9, 10 and 11 features."""
from ..vn import alts, show, subs
from ..wrappers import all_native_calls, cname, nfeat


class Order:
    """kind: 'all' (column order, n of them), 'desc' (most important / most used first), 'asc'."""

    def __init__(self, kind, n):
        self.kind, self.n = kind, n


def importances(v):
    return any(x[0] == 'attr' and 'importance' in x[2] for x in subs(v))


def sign(v):
    """+1 if v grows with importance, -1 if it falls, None unknown."""
    if v[0] == 'neg':
        s = sign(v[1])
        return None if s is None else -s
    if v[0] == 'op' and v[1] == 'Mult':
        for a, b in ((v[2], v[3]), (v[3], v[2])):
            if a[0] == 'const' and isinstance(a[1], (int, float)) and a[1]:
                s = sign(b)
                return None if s is None else s if a[1] > 0 else -s
        return None
    if v[0] == 'op' and v[1] == 'Sub' and not importances(v[2]):
        s = sign(v[3])
        return None if s is None else -s
    if v[0] == 'call' and cname(v) in ('array', 'asarray', 'as_float_array', 'list'):
        return sign(v[2][0]) if v[2] else None
    if v[0] == 'call' and cname(v) in ('negative',):
        s = sign(v[2][0])
        return None if s is None else -s
    if v[0] == 'attr' and 'importance' in v[2]:
        return 1
    return None


def order(v, sc):
    n = v[0]
    if n == 'idx' and v[2][0] == 'slice':
        lo, hi, step = v[2][1:]
        b = order(v[1], sc)
        if b is None:
            return None
        if lo == hi == ('const', None) and step == ('const', -1):
            return Order({'desc': 'asc', 'asc': 'desc'}.get(b.kind, 'rev'), b.n)
        if lo in (('const', None), ('const', 0)) and step in (('const', None), ('const', 1)):
            h = sc.number(hi) if hi != ('const', None) else b.n
            if h is None:
                return None
            return Order(b.kind, min(b.n, h) if h >= 0 else max(0, b.n + h))
        lo_, hi_ = (sc.number(x) if x != ('const', None) else d for x, d in ((lo, 0), (hi, b.n)))
        if lo_ is None or hi_ is None or step not in (('const', None), ('const', 1)):
            return None
        return Order('part from %s of %s' % (lo_, b.kind), max(0, min(b.n, hi_) - lo_))
    if n == 'call':
        c = cname(v)
        if c in ('list', 'array', 'asarray', 'tuple') and v[2]:
            return order(v[2][0], sc)
        if c in ('tolist', 'astype', 'copy', 'to_list') and v[1][0] == 'attr':
            return order(v[1][1], sc)
        if c in ('range', 'arange') and v[2]:
            a = [sc.number(x) for x in v[2]]
            if None in a:
                return None
            lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
            if len(a) > 2 and a[2] != 1:
                return None
            return Order('all' if lo == 0 else 'columns from %d' % lo, max(0, hi - lo))
        if c == 'argsort':
            x = v[2][0] if v[2] and v[1] != ('attr', v[2][0], 'argsort') and not (v[1][0] == 'attr' and importances(v[1][1])) else v[1][1] if v[1][0] == 'attr' else None
            s = sign(x) if x is not None else None
            return None if s is None else Order('asc' if s > 0 else 'desc', sc.d)
        if c in ('keys', 'index') and v[1][0] == 'attr':
            return order(v[1][1], sc)
        if c == 'value_counts':
            asc = dict(v[3]).get('ascending')
            return Order('asc' if asc == ('const', True) else 'desc', sc.d)
        if c == 'most_common':
            return Order('desc', sc.d)
        return None
    if n == 'attr' and v[2] == 'index':
        return order(v[1], sc)
    if n == 'comp' and len(v[2]) == 1 and len(v[3]) == 1:
        it = v[2][0]
        if v[3][0] == ('elem', it, ('const', 0)):
            return order(it, sc)
        return None
    return None


PARAMS = ('search_space', 'r_search_space', 'features_order')


def check(env, r):
    for f, sc, k, m, node, trace, fn in all_native_calls(env):
        p = next((p for p in PARAMS if m.get(p) is not None), None)
        if p is None:
            continue
        con = '%s->%s/%d features' % (f.qual, k.name, sc.d)
        for a in alts(m[p]):
            if any(x == ('param', p) for x in subs(a)):
                continue        # given by the caller
            r.unit(f)
            o = order(a, sc)
            if o is None:
                r.notes.append('%s: form of the search space not recognised: %s' % (con, show(a)[:100]))
                continue
            if sc.d <= 10:
                ok, want = o.n == sc.d and o.kind in ('all', 'desc', 'asc', 'rev'), 'all of them'
            else:
                ok, want = o.n == 10 and o.kind == 'desc', 'the ten most important ones'
            r.ob('search-space', con, fn.loc(node), ok, 'with %d features the search ranges over %d (%s), not over %s' % (sc.d, o.n, {
                'all': 'the first columns', 'desc': 'most important first', 'asc': 'least important first'}.get(o.kind, o.kind), want))
    r.floor('search-space', 40)
