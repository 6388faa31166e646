"""Closed form of what an accumulating kernel computes.

Works on the canonical events of one function: the value of a scalar or array cell at a program point is the last
unconditional reset that reaches it plus what every later update adds, written as sums over the loops of the update that
are not around the reader.  Conditions are 0/1 polynomials over indicator atoms; counters compared with the length they
count over become universally quantified conditions.  The result is a polynomial over closed atoms in a normal form that
does not depend on how loops, temporaries, buffers and early exits were arranged.  Sums and quantified conditions are
shared: equal ones have the same number.  Values that depend on an earlier iteration of a loop around the reader have no
such form: they are reported as carried.  Nothing is executed, no solver is used.
"""
import itertools
from fractions import Fraction

from .norm import C, FALSE, TRUE, NOT, from_poly, num, show, skey, to_poly, truth

ZERO, ONE = ('c', 0), ('c', 1)
LIMIT = 6000


class Opaque(Exception):
    """No closed form: why."""


class Unset(Opaque):
    def __init__(self, what):
        self.what = what
        Opaque.__init__(self, '%s is not set on every way to here' % show(what))


class Carried(Opaque):
    """The value comes from an earlier iteration of a loop around the reader."""

    def __init__(self, what, ev, loop):
        self.what, self.ev, self.loop = what, ev, loop
        Opaque.__init__(self, '%s keeps its value from an earlier iteration over %s' % (show(what), loop.sym[1].split('#')[0]))


# ---------------------------------------------------------------- polynomials with 0/1 atoms (x*x = x)
def is_ind(a):
    return a[0] in ('ind', 'inr')


def pmono(m):
    d = {}
    for a, x in m:
        d[a] = d.get(a, 0) + x
    r = tuple(sorted(((a, 1 if is_ind(a) else x) for a, x in d.items() if x), key=skey))
    if any(compound(a) for a, _ in r):
        return merged(r)
    return r


def compound(a):
    """A quantified condition whose body is not a single comparison."""
    if a[0] != 'ind' or a[1][0] != 'A#':
        return False
    i = a[1][1]
    if i not in TAB.compound:
        p = to_poly(TAB.body[i][1])
        TAB.compound[i] = not (len(p) == 1 or len(p) == 2 and () in p and p[()] == 1 and all(c == -1 for m, c in p.items() if m)
                               and all(len(m) == 1 for m in p if m))
    return TAB.compound[i]


def merged(m):
    """Conditions quantified over the same range hold together: what one says simplifies the other."""
    groups = {}
    for a, x in m:
        if a[0] == 'ind' and a[1][0] == 'A#':
            f = {('P', k): v for k, v in enumerate(a[1][2])}
            groups.setdefault(plain(TAB.body[a[1][1]][0][0], f), []).append(a)
    out = dict(m)
    for d, atoms in groups.items():
        if len(atoms) < 2 or not any(compound(a) for a in atoms):
            continue
        s = fresh()
        body = ONE
        for a in atoms:
            f = {('P', k): v for k, v in enumerate(a[1][2])}
            f[('B', 0)] = s
            body = pmul(body, plain(TAB.body[a[1][1]][1], f))
            del out[a]
        if body == ZERO:
            out[('ind', intern('A#', (d,), ZERO))] = 1
            continue
        fs, rest = literals(body)
        for q in fs + ([rest] if rest != ONE else []):
            out[('ind', intern('A#', (plain(d, {s: ('B', 0)}),), plain(q, {s: ('B', 0)})))] = 1
    return tuple(sorted(out.items(), key=skey))


def pmul(a, b):
    if a == ONE:
        return b
    if b == ONE:
        return a
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > LIMIT:
        raise Opaque('too many terms')
    p = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = pmono(m1 + m2)
            p[m] = p.get(m, 0) + Fraction(c1) * Fraction(c2)
    return from_poly(p)


def padd(a, b, sign=1):
    p = dict(to_poly(a))
    for m, c in to_poly(b).items():
        p[m] = p.get(m, 0) + sign * Fraction(c)
    return from_poly(p)


def pneg(a):
    """1 - a."""
    return padd(ONE, a, -1)


def ppow(a, n):
    if n == 1:
        return a
    if n > 1:
        return pmul(a, ppow(a, n - 1))
    p = to_poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        if c and not any(is_ind(x) for x, _ in m):
            return from_poly({tuple((x, e * n) for x, e in m): Fraction(c) ** n})
    if not p:
        return from_poly({((a, n),): Fraction(1)})
    lead = Fraction(p[min(p, key=skey)])
    base = from_poly({m: Fraction(c) / lead for m, c in p.items()})
    if len(p) > 1:
        base = intern('D#', (), base)
    return from_poly({((base, n),): lead ** n})


# ---------------------------------------------------------------- shared sums and quantified conditions
class Table:
    """Bodies of sums and of quantified conditions, with the symbols that are free in them as parameters."""

    def __init__(self):
        self.ids = {}
        self.body = []
        self.auts = []
        self.memo = {}
        self.compound = {}


TAB = Table()


def symbols(e, out=None):
    """Free loop symbols of e, in order of first occurrence."""
    if out is None:
        out = []
    if isinstance(e, frozenset):
        for x in sorted(e, key=skey):
            symbols(x, out)
    elif isinstance(e, tuple) and e:
        if e[0] == 'L':
            if e not in out:
                out.append(e)
        else:
            for x in e:
                if isinstance(x, (tuple, frozenset)):
                    symbols(x, out)
    return out


def intern(kind, ds, body):
    """Reference to a body whose own variables are ('B', k) and whose free symbols become parameters."""
    raw = (ds, body)
    fs = symbols(raw)
    best, ways = None, []
    for order in orders(fs, raw, {}):
        e = plain(raw, {s: ('P', k) for k, s in enumerate(order)})
        kk = skey(e)
        if best is None or kk < best[0]:
            best, ways = (kk, e), [order]
        elif kk == best[0]:
            ways.append(order)
    e = best[1]
    k = (kind, e)
    if k not in TAB.ids:
        TAB.ids[k] = len(TAB.body)
        TAB.body.append(e)
        TAB.auts.append([[ways[0].index(s) for s in w] for w in ways])
    return ref(kind, TAB.ids[k], tuple(ways[0]))


def ref(kind, i, args):
    auts = TAB.auts[i]
    if len(auts) > 1:
        args = min((tuple(args[j] for j in p) for p in auts), key=skey)
    return (kind, i, args)


def opened(e):
    """Domains and body of a reference, its own variables made fresh."""
    ds, body = TAB.body[e[1]]
    m = {('P', k): a for k, a in enumerate(e[2])}
    syms = [fresh() for _ in ds]
    m.update({('B', k): s for k, s in enumerate(syms)})
    return [(s, plain(d, m)) for s, d in zip(syms, ds)], plain(body, m)


REFS = ('S#', 'A#', 'C#', 'D#')
_fresh = itertools.count()


def fresh():
    return ('L', '~%d' % next(_fresh))


def plain(e, f):
    """Renaming of symbols: no new normal form is needed."""
    if isinstance(e, frozenset):
        return frozenset(plain(x, f) for x in e)
    if not isinstance(e, tuple):
        return e
    if e in f:
        return f[e]
    if e and e[0] in REFS:
        return ref(e[0], e[1], tuple(plain(x, f) for x in e[2]))
    if e and e[0] == 'poly':
        return from_poly({tuple(sorted(((plain(a, f), x) for a, x in m), key=skey)): c for m, c in e[1]})
    if e and e[0] == 'ind':
        return ('ind', order(plain(e[1], f)))
    return tuple(plain(x, f) if isinstance(x, (tuple, frozenset)) else x for x in e)


def order(c):
    if c[0] in ('eq', 'ne') and c[1] != ZERO and skey(c[2]) < skey(c[1]):
        return (c[0], c[2], c[1])
    return c


def rebuild(e, f):
    """Substitution of closed expressions for symbols, into normal form."""
    if isinstance(e, frozenset):
        return frozenset(rebuild(x, f) for x in e)
    if not isinstance(e, tuple) or not e:
        return e
    if e in f:
        return f[e]
    k = e[0]
    if k in ('c', 'n', 'L', 'G', 'B'):
        return e
    if k == 'poly':
        r = ZERO
        for mono, co in e[1]:
            t = C(co)
            for a, x in mono:
                t = pmul(t, ppow(rebuild(a, f), x))
            r = padd(r, t)
        return r
    if k in REFS:
        hit = [(a, f[a]) for a in e[2] if a in f]
        if not hit:
            return e
        kk = (e, tuple(hit))
        if kk not in TAB.memo:
            bs, body = opened(e)
            bs = [(s, dom_rebuild(d, f)) for s, d in bs]
            body = rebuild(body, f)
            if k == 'S#':
                r = SUM(bs, body)
            elif k == 'C#':
                r = compare(*body)
            elif k == 'D#':
                r = body
            else:
                r = body
                for s, d in reversed(bs):
                    r = ALL(s, d, r)
            TAB.memo[kk] = r
        return TAB.memo[kk]
    if k == 'ind':
        return IND(rebuild(e[1], f))
    if k == 'inr':
        return inrange(rebuild(e[1], f), ('range', rebuild(e[2], f), rebuild(e[3], f)))
    return tuple(rebuild(x, f) if isinstance(x, (tuple, frozenset)) else x for x in e)


def dom_rebuild(d, f):
    return tuple(rebuild(x, f) if isinstance(x, tuple) else x for x in d)


def replace(e, old, new):
    return rebuild(e, {old: new})


def sub_syms(e, ren):
    return rebuild(e, ren) if ren else e


def free_in(e, s):
    if e == s:
        return True
    if isinstance(e, (tuple, frozenset)):
        return any(free_in(x, s) for x in e if isinstance(x, (tuple, frozenset)))
    return False


# ---------------------------------------------------------------- sums
def SUM(bs, body):
    """bs: [(symbol, domain)], domain ('range', lo, hi).  Sum over all, in normal form (a polynomial)."""
    bs = list(bs)
    if not bs:
        return body
    out = ZERO
    for m, c in to_poly(body).items():
        out = padd(out, sum_mono(list(bs), list(m), c))
    return out


def sum_mono(bs, m, c):
    coef = C(Fraction(c))
    # sums inside the product join this one
    for a, x in list(m):
        if a[0] == 'S#' and x >= 1 and any(s in a[2] for s, _ in bs):
            m.remove((a, x))
            body = from_poly({tuple(m): Fraction(1)})
            for _ in range(x):
                ib, b = opened(a)
                bs = bs + ib
                body = pmul(body, b)
            return pmul(coef, SUM(bs, body))
    # a loop over a longer range than the entries that exist; a loop where one index is fixed by equality
    changed = True
    while changed:
        changed = False
        for k, (s, d) in enumerate(bs):
            for a, x in m:
                if a[0] == 'inr' and a[1] == s and d[0] == 'range' and a[2] == d[1]:
                    if a[3] == d[2] or covers(d[2], a[3]):
                        bs[k] = (s, ('range', d[1], a[3]))
                        m = [y for y in m if y[0] != a]
                        changed = True
                        break
                    if covers(a[3], d[2]):
                        m = [y for y in m if y[0] != a]
                        changed = True
                        break
                if a[0] == 'ind' and a[1][0] == 'eq' and s in a[1][1:]:
                    o = a[1][2] if a[1][1] == s else a[1][1]
                    if not free_in(o, s):
                        rest = from_poly({tuple(y for y in m if y[0] != a): Fraction(1)})
                        rest = replace(rest, s, o)
                        others = [(t, dom_rebuild(e, {s: o})) for t, e in bs if t != s]
                        rest = pmul(rest, inrange(o, d, bs))
                        return pmul(coef, SUM(others, rest))
            if changed:
                break
    # factors that do not depend on the loops
    dep = [s for s, _ in bs]
    inside, outside = [], []
    for a, x in m:
        (inside if any(free_in(a, s) for s in dep) else outside).append((a, x))
    # loops nothing depends on
    keep = []
    for s, d in bs:
        used = any(free_in(a, s) for a, _ in inside) or any(free_in(e, s) for t, e in bs if t != s)
        if not used and d[0] == 'range':
            coef = pmul(coef, padd(d[2], d[1], -1))
        else:
            keep.append((s, d))
    outp = from_poly({pmono(tuple(outside)): Fraction(1)})
    if not keep:
        return pmul(pmul(coef, outp), from_poly({pmono(tuple(inside)): Fraction(1)}))
    # independent groups of loops are separate sums
    r = pmul(coef, outp)
    for cb, cm in components(keep, inside):
        r = pmul(r, close_sum(cb, cm))
    return r


def components(bs, m):
    groups = []
    for s, d in bs:
        groups.append(({s}, [(s, d)], []))

    def link(syms):
        hit = [g for g in groups if g[0] & syms]
        if not hit:
            return None
        base = hit[0]
        for g in hit[1:]:
            base[0].update(g[0])
            base[1].extend(g[1])
            base[2].extend(g[2])
            groups.remove(g)
        return base
    allsy = {s for s, _ in bs}
    for s, d in bs:
        link({s} | {t for t in allsy if free_in(d, t)})
    for a, x in m:
        g = link({t for t in allsy if free_in(a, t)})
        g[2].append((a, x))
    return [(g[1], g[2]) for g in groups]


def close_sum(bs, m):
    body = from_poly({pmono(tuple(m)): Fraction(1)})
    fs = {t: ('P', 9) for t in symbols((tuple(d for _, d in bs), body)) if t not in dict(bs)}
    best = None
    for order_ in orders([s for s, _ in bs], (tuple(d for _, d in bs), body), fs):
        f = {s: ('B', k) for k, s in enumerate(order_)}
        dd = dict(bs)
        e = (tuple(plain(dd[s], f) for s in order_), plain(body, f))
        # the choice must not depend on the names of the symbols that are free here
        kk = skey(plain(e, fs)) if fs else skey(e)
        if best is None or kk < best[0]:
            best = (kk, [e])
        elif kk == best[0]:
            best[1].append(e)
    if len(best[1]) == 1:
        return intern('S#', *best[1][0])
    return min((intern('S#', *e) for e in best[1]), key=lambda r: (r[1], skey(r[2])))


def orders(syms, raw, fs):
    """Orders of alike symbols: symbols told apart by their role keep one place."""
    sig = {}
    col = {s: 0 for s in syms}
    while True:
        for s in syms:
            m = dict(fs)
            m.update({t: ('P', 100 + col[t]) for t in syms})
            m[s] = ('P', 50)
            sig[s] = (col[s], skey(plain(raw, m)))
        ranks = {x: k for k, x in enumerate(sorted(set(sig.values())))}
        new = {s: ranks[sig[s]] for s in syms}
        if new == col or len(ranks) == len(set(col.values())) and len(syms) > 1 and col != {s: 0 for s in syms}:
            break
        col = new
        if len(ranks) == len(syms):
            break
    groups = [list(g) for _, g in itertools.groupby(sorted(syms, key=lambda s: col[s]), key=lambda s: col[s])]
    n = 1
    for g in groups:
        for k in range(2, len(g) + 1):
            n *= k
    if n > 800:
        raise Opaque('too many alike symbols')
    for p in itertools.product(*[itertools.permutations(g) for g in groups]):
        yield [s for g in p for s in g]


def covers(big, small):
    """Is big at least small: leaves that exist against the dimension that holds them; facts given by the caller."""
    if big == small:
        return True
    return small[0] == 'idx' and small[1] == ('n', 'leaves_nb') and big[0] == 'idx' and big[1] == ('attr', ('n', 'partition_leaves_trees'), 'shape')


def inrange(e, d, bs=()):
    if d[0] != 'range':
        raise Opaque('domain %s' % show(d))
    for s, dd in bs:
        if s == e and dd == d:
            return ONE
    if e[0] == 'c' and d[1][0] == 'c' and d[2][0] == 'c':
        return ONE if d[1][1] <= e[1] < d[2][1] else ZERO
    if e[0] == 'G' and d[1] == ZERO and e[2] == d[2]:
        return ONE
    return ('inr', e, d[1], d[2])


# ---------------------------------------------------------------- conditions are polynomials with values 0 and 1
def boolean(p):
    """Is this polynomial 0 or 1 everywhere, by its form?"""
    return all(is_ind(a) for m in to_poly(p) for a, _ in m) and pmul(p, p) == p


def literals(p):
    """Atoms and negated atoms that are factors of a 0/1 polynomial, and what is left."""
    out = []
    go = True
    while go:
        go = False
        for a in sorted({a for m in to_poly(p) for a, _ in m}, key=skey):
            zero, one = setatom(p, a, 0), setatom(p, a, 1)
            if zero == ZERO:
                out.append(a)
                p = one
            elif one == ZERO:
                out.append(pneg(a))
                p = zero
            else:
                continue
            go = True
            break
    return out, p


def setatom(p, a, v):
    r = {}
    for m, c in to_poly(p).items():
        if any(x == a for x, _ in m):
            if not v:
                continue
            m = tuple(y for y in m if y[0] != a)
        r[m] = r.get(m, 0) + Fraction(c)
    return from_poly(r)


def ALL(s, d, p):
    """0/1 polynomial: p holds for every s in d."""
    if p == ONE:
        return ONE
    r = ONE
    fs, rest = literals(p)
    for q in fs + ([rest] if rest != ONE else []):
        if not free_in(q, s):
            # holds for all s if the range is not empty
            raise Opaque('a condition in a loop that does not depend on it')
        r = pmul(r, ('ind', intern('A#', (plain(d, {s: ('B', 0)}),), plain(q, {s: ('B', 0)}))))
    return r


def ANY(s, d, p):
    return pneg(ALL(s, d, pneg(p)))


def count_test(op, a, b):
    """Comparison of a count with its limit or with zero, as a quantified condition; None if it is neither."""
    for x, y, flip in ((a, b, False), (b, a, True)):
        cs = count_of(x)
        if cs is None:
            continue
        s, d, cond = cs
        if y[0] == 'c' and num(y[1]) is not None or y == d[2]:
            pass
        else:
            continue
        full = y == d[2] and d[1] == ZERO
        if full and (op == 'eq' or op == 'le' and flip):
            return ALL(s, d, cond)
        if full and (op == 'ne' or op == 'lt' and not flip):
            return pneg(ALL(s, d, cond))
        none = lambda: ALL(s, d, pneg(cond))
        if op == 'eq' and y == ZERO or op == 'le' and not flip and y == ZERO or op == 'lt' and not flip and y == ONE:
            return none()
        if op == 'ne' and y == ZERO or op == 'lt' and flip and y == ZERO or op == 'le' and flip and y == ONE:
            return pneg(none())
    return None


def count_of(x):
    """x is the number of indices that satisfy a condition: (symbol, domain, condition)."""
    p = to_poly(x)
    dom = None
    total = ZERO
    s = None
    for m, c in p.items():
        refs = [a for a, e in m if a[0] == 'S#' and e == 1]
        if len(refs) == 1 and len(TAB.body[refs[0][1]][0]) == 1:
            (t, d), = opened(refs[0])[0]
            if dom is not None and d != dom:
                return None
            dom = d
    if dom is None:
        return None
    s = fresh()
    for m, c in p.items():
        refs = [a for a, e in m if a[0] == 'S#' and e == 1]
        if len(refs) == 1:
            r = refs[0]
            ds, body = TAB.body[r[1]]
            if len(ds) != 1:
                return None
            f = {('P', k): a for k, a in enumerate(r[2])}
            f[('B', 0)] = s
            body = plain(body, f)
            rest = from_poly({tuple(y for y in m if y[0] != r): Fraction(c)})
            if any(not is_ind(a) for mm in to_poly(rest) for a, _ in mm):
                return None
            total = padd(total, pmul(rest, body))
        else:
            return None
    # the length itself stands for a count of everything
    if not boolean(total):
        return None
    return s, dom, total


def full_count(x, y):
    """x = length - count: the count of the negated condition (length is the range of the counting loop)."""
    d = padd(y, x, -1)
    return count_of(d)


def lengths(x):
    """What x may be a count out of: a term of it, or the range that one of its sums runs over."""
    out = []
    for m, c in to_poly(x).items():
        if c == 1 and not any(q[0] in ('S#', 'ind') for q, _ in m):
            out.append(from_poly({m: Fraction(1)}))
        for q, _ in m:
            if q[0] == 'S#' and len(TAB.body[q[1]][0]) == 1:
                (t, d), = opened(q)[0]
                if d[0] == 'range' and d[2][0] == 'poly' and d[2] not in out:
                    out.append(d[2])
    return out


def compare(op, a, b):
    """0/1 polynomial of a comparison."""
    t = count_test(op, a, b)
    if t is not None:
        return t
    # counting what fails: length - count
    for x, y, flip in ((a, b, False), (b, a, True)):
        if len(to_poly(x)) > 1:
            for n in lengths(x):
                if True:
                    cs = count_of(padd(n, x, -1))
                    if cs is not None and cs[1][2] == n and cs[1][1] == ZERO:
                        s, d, cond = cs
                        # x = #(not cond)
                        if y == n and (op == 'eq' or op == 'le' and flip):
                            return ALL(s, d, pneg(cond))
                        if y == n and (op == 'ne' or op == 'lt' and not flip):
                            return pneg(ALL(s, d, pneg(cond)))
                        if op == 'eq' and y == ZERO or op == 'le' and not flip and y == ZERO or op == 'lt' and not flip and y == ONE:
                            return ALL(s, d, cond)
                        if op == 'ne' and y == ZERO or op == 'lt' and flip and y == ZERO or op == 'le' and flip and y == ONE:
                            return pneg(ALL(s, d, cond))
    if a[0] == 'c' and b[0] == 'c' and num(a[1]) is not None and num(b[1]) is not None:
        r = {'eq': a[1] == b[1], 'ne': a[1] != b[1], 'le': a[1] <= b[1], 'lt': a[1] < b[1]}[op]
        return ONE if r else ZERO
    if a == b:
        return ONE if op in ('eq', 'le') else ZERO
    for x, y, left in ((a, b, True), (b, a, False)):
        if y[0] == 'c' and num(y[1]) is not None and x[0] != 'c' and to_poly(x) and boolean(x):
            z = y[1]
            lo, hi = {'eq': (0 == z, 1 == z), 'ne': (0 != z, 1 != z), 'le': (0 <= z, 1 <= z) if left else (z <= 0, z <= 1),
                      'lt': (0 < z, 1 < z) if left else (z < 0, z < 1)}[op]
            return {(True, True): ONE, (False, False): ZERO, (False, True): x, (True, False): pneg(x)}[(lo, hi)]
    if op in ('eq', 'ne'):
        if len(to_poly(a)) <= 1 and len(to_poly(b)) <= 1 and not (a[0] == 'poly' and b[0] == 'poly'):
            x, y = sorted((a, b), key=skey)
            if y == ZERO:
                x, y = y, x
        else:
            d = padd(a, b, -1)
            p = to_poly(d)
            if not p:
                return ONE if op == 'eq' else ZERO
            lead = p[min(p, key=skey)]
            x, y = ZERO, from_poly({m: Fraction(c) / Fraction(lead) for m, c in p.items()})
        index = any(z[0] in ('L', 'G', 'B') for z in (x, y))
        k = 'eq' if index else 'ne'
        q = ('ind', shared((k, x, y)))
        return q if k == op else pneg(q)
    if len(to_poly(a)) > 1 or len(to_poly(b)) > 1 or a[0] == 'poly' and b[0] == 'poly':
        d = padd(a, b, -1)
        p = to_poly(d)
        if not p:
            return ONE if op == 'le' else ZERO
        lead = p[min(p, key=skey)]
        if lead > 0:
            a, b = from_poly({m: Fraction(c) / Fraction(lead) for m, c in p.items()}), ZERO
        else:
            a, b = ZERO, from_poly({m: Fraction(c) / Fraction(lead) for m, c in p.items()})
    if op == 'le':
        return ('ind', shared(('le', a, b)))
    return pneg(('ind', shared(('le', b, a))))


def shared(c):
    """A comparison of long terms by reference."""
    if len(to_poly(c[1])) > 1 or len(to_poly(c[2])) > 1:
        return intern('C#', (), c)
    return c


def IND(c):
    """0/1 polynomial of a closed condition."""
    k = c[0]
    if k == 'c':
        return ONE if c[1] else ZERO
    if k == 'and':
        r = ONE
        for x in sorted(c[1], key=skey):
            r = pmul(r, IND(x))
        return r
    if k == 'or':
        r = ONE
        for x in sorted(c[1], key=skey):
            r = pmul(r, pneg(IND(x)))
        return pneg(r)
    if k == 'not':
        return pneg(IND(c[1]))
    if k in ('eq', 'ne', 'le', 'lt'):
        return compare(k, c[1], c[2])
    if k == 'ind' or k == 'inr':
        return c
    if k in ('A#', 'C#'):
        return ('ind', c)
    if k in ('poly', 'S#'):
        return c if boolean(c) else compare('ne', ZERO, c)
    if k in ('notin', 'isnot'):
        return pneg(('ind', NOT(c)))
    if k in ('in', 'is'):
        return ('ind', c)
    return compare('ne', ZERO, c)


def choose(p, a, b):
    if p == ONE:
        return a
    if p == ZERO:
        return b
    if a == b:
        return a
    return padd(b, pmul(p, padd(a, b, -1)))


# ---------------------------------------------------------------- the evaluator
class Den:
    def __init__(self, walker, params=(), frozen=(), names=None):
        self.frozen = set(frozen)
        self.names = {('n', a): ('n', b) for a, b in (names or {}).items() if a != b}
        self.w = walker
        self.ev = walker.events
        self.params = set(params)
        self.writes = {}
        for e in self.ev:
            if e.kind == 'assign':
                b = e.target
                while b[0] in ('idx', 'attr') and b[0] == 'idx':
                    b = b[1]
                if b[0] == 'n':
                    self.writes.setdefault(b, []).append(e)
            elif e.kind == 'mutate' and e.target is not None:
                b = e.target
                while b[0] == 'idx':
                    b = b[1]
                if b[0] == 'n':
                    self.writes.setdefault(b, []).append(e)
        for n in self.frozen:
            self.writes.pop(n, None)
        self.dims = {}
        for b, ws in self.writes.items():
            for e in ws:
                if e.kind == 'assign' and e.target == b and e.op is None:
                    d = dims(e.value)
                    if d is not None:
                        self.dims[b] = d
        self.memo = {}
        self.cut = {}
        for e in self.ev:
            if e.kind == 'break' and e.loops:
                self.cut.setdefault(e.loops[-1], []).append(e)
            elif e.kind == 'return':
                for l in e.loops:
                    self.cut.setdefault(l, []).append(e)

    # -- closing an expression at a program point
    def close(self, e, pos, ctx, gset):
        k = e[0] if isinstance(e, tuple) and e else None
        if k in (None, 'c', 'L', 'B', 'G'):
            return e if not isinstance(e, frozenset) else frozenset(self.close(x, pos, ctx, gset) for x in e)
        kk = (e, pos, ctx if isinstance(ctx, tuple) else tuple(ctx), frozenset(gset))
        if kk not in self.memo:
            self.memo[kk] = self.close_(e, pos, ctx, gset)
        return self.memo[kk]

    def close_(self, e, pos, ctx, gset):
        k = e[0] if isinstance(e, tuple) and e else None
        if isinstance(e, frozenset):
            return frozenset(self.close(x, pos, ctx, gset) for x in e)
        if k is None:
            return e
        if k == 'c' or k == 'L' or k == 'B':
            return e
        if k == 'n':
            if e in self.writes:
                return self.scalar(e, pos, ctx, gset)
            return self.names.get(e, e)
        if k == 'attr' and e[1] in self.dims and e[2] == 'shape':
            return e
        if k == 'idx':
            path, b = [], e
            while b[0] == 'idx':
                path = list(b[2]) + path
                b = b[1]
            if b[0] == 'attr' and b[2] == 'shape' and b[1] in self.dims and len(path) == 1 and path[0][0] == 'c':
                d = self.dims[b[1]]
                if path[0][1] < len(d):
                    return self.close(d[path[0][1]], pos, ctx, gset)
            path = [self.close(x, pos, ctx, gset) for x in path]
            if b in self.writes:
                return self.cell(b, path, pos, ctx, gset)
            b = self.close(b, pos, ctx, gset) if b[0] not in ('n',) else self.names.get(b, b)
            if b[0] == 'attr' and b[2] == 'shape':
                return dimension(b[1], path)
            return ('idx', b, tuple(path))
        if k == 'poly':
            r = ZERO
            for mono, co in e[1]:
                t = C(co)
                for a, x in mono:
                    t = pmul(t, ppow(self.close(a, pos, ctx, gset), x))
                r = padd(r, t)
            return r
        if k == 'op' and len(e) == 4 and e[1] == '*':
            return pmul(self.close(e[2], pos, ctx, gset), self.close(e[3], pos, ctx, gset))
        if k == 'ite':
            c = IND(self.close(e[1], pos, ctx, gset))
            yes, no = set(gset) | set(conj(e[1])), set(gset) | set(conj(NOT(e[1])))
            if c == ONE:
                return self.close(e[2], pos, ctx, yes)
            if c == ZERO:
                return self.close(e[3], pos, ctx, no)
            return choose(c, self.close(e[2], pos, ctx, yes), self.close(e[3], pos, ctx, no))
        if k in ('and', 'or'):
            parts = sorted(e[1], key=skey)
            return IND((k, tuple(self.close(x, pos, ctx, set(gset) | set(parts) - {x} if k == 'and' else gset) for x in parts)))
        if k in ('eq', 'le', 'lt', 'ne', 'not', 'in', 'notin'):
            return IND((k,) + tuple(self.close(x, pos, ctx, gset) for x in e[1:]))
        if k in ('any', 'all') and e[1][0] == 'range':
            s = fresh()
            d = self.close(e[1][1], pos, ctx, gset)
            if d[0] != 'range' or len(d) > 3 and d[3] != ONE:
                raise Opaque('a condition over %s' % show(d))
            d = d[:3]
            b = IND(self.close(sub_syms(e[2], {('L', 'comp0'): s}), pos, ctx, gset))
            return (ANY if k == 'any' else ALL)(s, d, b)
        if k == 'call' and e[1] == ('n', 'len') and len(e[2]) == 1 and e[2][0][0] == 'n' and e[2][0] not in self.writes:
            return dimension(self.names.get(e[2][0], e[2][0]), [ZERO])
        if k == 'call' and e[1][0] == 'attr' and e[1][2] in ('array', 'asarray', 'float64', 'double') and len(e[2]) == 1:
            return self.close(e[2][0], pos, ctx, gset)
        return tuple(self.close(x, pos, ctx, gset) if isinstance(x, (tuple, frozenset)) else x for x in e)

    def cond(self, c, pos, ctx, gset):
        return IND(self.close(truth(c), pos, ctx, gset))

    def rel_guard(self, w, known):
        """Indicator of the condition of w, given that the conditions `known` hold."""
        cs = [x for x in conj(w.guard) if x not in known]
        r = ONE
        for c in cs:
            r = pmul(r, self.cond(c, w.idx, w.loops, set(known) | (set(cs) - {c})))
        return r

    def changing(self, e):
        return e in self.writes or isinstance(e, (tuple, frozenset)) and any(self.changing(x) for x in e)

    def vars_of(self, e, out=None):
        out = set() if out is None else out
        if e in self.writes:
            out.add(e)
        elif isinstance(e, (tuple, frozenset)):
            for x in e:
                if isinstance(x, (tuple, frozenset)):
                    self.vars_of(x, out)
        return out

    def stable(self, c, i, j):
        """Nothing the condition c reads is written between the events i and j."""
        return not any(i < w.idx < j for v in self.vars_of(c) for w in self.writes[v])

    def begin(self, w, common):
        """Index of the first event of the outermost loop of w that is not around the reader."""
        if len(w.loops) == len(common):
            return w.idx
        l = w.loops[len(common)]
        return min(e.idx for e in self.ev if len(e.loops) > len(common) and e.loops[len(common)] is l) - 1

    def excluded(self, w, gset):
        """w runs only where a stable condition of the reader fails."""
        return any(NOT(c) in gset and not self.changing(c) for c in conj(w.guard))

    def reset_of(self, name, ws, pos, ctx, gset, whole, path=()):
        """The last unconditional assignment of the whole variable that reaches pos."""
        best = None
        for w in ws:
            if w.idx >= pos or w.op is not None or w.kind != 'assign':
                continue
            extra = None
            if w.target == name:
                lp = list(w.loops)
            elif whole and self.covering(name, w):
                lp = list(w.loops)[:len(w.loops) - self.covering(name, w)]
            elif path and list(ctx[:len(w.loops)]) == list(w.loops) and self.index_of(w) == list(path):
                lp = list(w.loops)
            elif path and w.target[0] == 'idx' and self.sweeps(w, path, ctx) is not None:
                lp = list(w.loops)[:self.sweeps(w, path, ctx)]
            else:
                continue
            if list(ctx[:len(lp)]) != lp:
                continue
            if not all(x in gset and self.stable(x, w.idx, pos) for x in conj(w.guard)):
                continue
            best = (w, lp)
        return best

    def index_of(self, w):
        t, b = [], w.target
        while b[0] == 'idx':
            t = list(b[2]) + t
            b = b[1]
        if any(x[0] in ('slice', 'call') for x in t):
            return None
        return [self.close(x, w.idx, w.loops, set(conj(w.guard))) for x in t]

    def sweeps(self, w, path, ctx):
        """w sets the cell at path to a constant in loops that run over all such cells: number of loops around them."""
        n = 0
        while n < min(len(w.loops), len(ctx)) and w.loops[n] is ctx[n]:
            n += 1
        t = self.index_of(w)
        if t is None or len(t) != len(path) or len(w.loops) == n:
            return None
        dom = {}
        for l in w.loops[n:]:
            if l.kind != 'range' or l.dom[3] != ONE or l in self.cut:
                return None
            dom[l.sym] = l
        got = {}
        for a, p in zip(t, path):
            if a[0] == 'idx' and p[0] == 'idx' and a[1] == p[1] and a[1] in self.frozen and len(a[2]) == len(p[2]) == 1:
                if w.value[0] != 'c':
                    return None
                a, p = a[2][0], p[2][0]
            if a == p:
                continue
            if a not in dom or got.get(a, p) != p:
                return None
            got[a] = p
        if set(got) != set(dom) or w.value[0] != 'c' and any(x.idx > w.idx and set(x.loops) & set(dom_loops(w, n)) for x in self.writes[base_of(w.target)]):
            return None
        known = set(conj(w.guard))
        for y, p in got.items():
            l = dom[y]
            d = ('range',) + tuple(rebuild(self.close(x, w.idx, w.loops, known), got) for x in l.dom[1:3])
            if self.inr(p, d, ctx) != ONE:
                return None
        return n

    def covering(self, name, w):
        """Number of innermost loops of w that run over the whole of the array (0: it does not set all of it)."""
        t, b = [], w.target
        while b[0] == 'idx':
            t = list(b[2]) + t
            b = b[1]
        d = self.dims.get(name)
        if d is None or len(t) != len(d):
            return 0
        syms = []
        n = len(t)
        if len(w.loops) < n:
            return 0
        inner = {l.sym: l for l in w.loops[-n:]}
        for k, x in enumerate(t):
            l = inner.get(x)
            if l is None or l.kind != 'range' or l.dom[1] != ZERO or l.dom[3] != ONE:
                return 0
            hi = l.dom[2]
            if hi != d[k] and hi != ('idx', ('attr', name, 'shape'), (('c', k),)):
                return 0
            syms.append(x)
        if len(set(syms)) != n:
            return 0
        return n

    def either(self, ws, pos, ctx, gset):
        """A condition under which one assignment is made, and another one where it fails."""
        ws = [w for w in ws if w.idx < pos and w.kind == 'assign' and w.op is None]
        for w in ws:
            for x in conj(w.guard):
                if x not in gset and NOT(x) not in gset and any(NOT(x) in conj(y.guard) for y in ws) \
                        and self.stable(x, self.begin(w, [a for a, b in zip(w.loops, ctx) if a is b]), pos):
                    return x
        return None

    def scalar(self, name, pos, ctx, gset):
        ws = self.writes[name]
        rs = self.reset_of(name, ws, pos, ctx, gset, False)
        if rs is None:
            x = self.either(ws, pos, ctx, gset)
            if x is not None:
                return choose(self.cond(x, pos, ctx, gset), self.scalar(name, pos, ctx, set(gset) | {x}),
                              self.scalar(name, pos, ctx, set(gset) | {NOT(x)}))
            if name[1] in self.params and not any(w.idx < pos or set(w.loops) & set(ctx) for w in ws):
                return name
            early = [w for w in ws if w.idx > pos and set(w.loops) & set(ctx)] or [w for w in ws if w.idx < pos]
            if early and set(early[0].loops) & set(ctx):
                raise Carried(name, early[0], [l for l in ctx if l in early[0].loops][-1])
            raise Unset(name)
        r, lp = rs
        if any(isinstance(t, tuple) and t and t[0] == 'call' for t in [r.value]) and self.dims.get(name) is not None:
            return name
        known = set(conj(r.guard))
        val = self.close(r.value, r.idx, r.loops, known)
        try:
            return self.after(name, [], ws, r, lp, val, pos, ctx, gset)
        except Carried as early:
            x = self.either(ws, pos, ctx, gset) if early.what == name else None
            if x is None:
                raise
            return choose(self.cond(x, pos, ctx, gset), self.scalar(name, pos, ctx, set(gset) | {x}),
                          self.scalar(name, pos, ctx, set(gset) | {NOT(x)}))

    def cell(self, name, path, pos, ctx, gset):
        ws = self.writes[name]
        rs = self.reset_of(name, ws, pos, ctx, gset, True, path)
        if rs is None:
            x = self.either(ws, pos, ctx, gset)
            if x is not None:
                return choose(self.cond(x, pos, ctx, gset), self.cell(name, path, pos, ctx, set(gset) | {x}),
                              self.cell(name, path, pos, ctx, set(gset) | {NOT(x)}))
            if name[1] in self.params and not any(w.idx < pos or set(w.loops) & set(ctx) for w in ws):
                return ('idx', name, tuple(path))
            raise Unset(name)
        r, lp = rs
        if r.target != name:
            val = self.close(r.value, r.idx, r.loops, set(conj(r.guard)))
            for a, p in zip(self.index_of(r), path):
                if a != p:
                    val = replace(val, a, p)
        else:
            v = init_value(r.value)
            if v is None:
                base = self.close(r.value, r.idx, r.loops, set(conj(r.guard)))
                v = ('idx', base[1], base[2] + tuple(path)) if base[0] == 'idx' else ('idx', base, tuple(path))
            val = v
        try:
            return self.after(name, path, ws, r, lp, val, pos, ctx, gset)
        except Carried as early:
            x = self.either(ws, pos, ctx, gset) if early.what == ('idx', name, tuple(path)) else None
            if x is None:
                raise
            return choose(self.cond(x, pos, ctx, gset), self.cell(name, path, pos, ctx, set(gset) | {x}),
                          self.cell(name, path, pos, ctx, set(gset) | {NOT(x)}))

    def after(self, name, path, ws, r, lp, val, pos, ctx, gset):
        rk = set(conj(r.guard)) | {x for x in gset}
        for w in ws:
            if w is r or (w.idx < r.idx):
                continue
            common = []
            for a, b in zip(w.loops, ctx):
                if a is not b:
                    break
                common.append(a)
            if w.idx > pos:
                if len(common) > len(lp):
                    self.maybe_carried(name, path, w, common, lp)
                continue
            if w.target == name and r.target != name and w.op is None and w.idx < r.idx:
                continue
            if len(common) > len(lp):
                if w.op is None and self.dead(name, path, w, common):
                    pass        # set again at the same place in this very iteration
                else:
                    self.maybe_carried(name, path, w, common, lp)
            at = self.begin(w, common)
            if any(NOT(c) in gset and self.stable(c, at, pos) for c in conj(w.guard)):
                continue
            if w.kind != 'assign' or w.op not in (None, '+', '-'):
                raise Opaque('%s is changed by %s' % (show(name), w.op))
            extra = list(w.loops[len(common):])
            once = False
            for l in extra:
                if l.kind != 'range' or l.dom[3] != ONE:
                    raise Opaque('loop over %s' % show(l.dom))
                if l in self.cut:
                    # left at the first iteration that writes: it is written at most once
                    if not (l is extra[-1] and len(extra) == 1 and all(b.guard == w.guard and b.loops == w.loops for b in self.cut[l])):
                        raise Opaque('a loop that is left early')
                    once = True
            known = {x for x in gset if not any(free_in(x, l.sym) for l in extra) and self.stable(x, at, pos)}
            known |= {x for x in conj(r.guard) if self.stable(x, r.idx, w.idx) and (at == w.idx or self.stable(x, at, pos))}
            g = self.rel_guard(w, known)
            v = self.close(w.value, w.idx, w.loops, set(conj(w.guard)) | known)
            bs = []
            ren = {}
            for l in extra:
                s = fresh()
                d = ('range', self.close(l.dom[1], w.idx, w.loops, known), self.close(l.dom[2], w.idx, w.loops, known))
                d = tuple(sub_syms(x, ren) if isinstance(x, tuple) else x for x in d)
                ren[l.sym] = s
                bs.append((s, d))
            g, v = sub_syms(g, ren), sub_syms(v, ren)
            t, b = [], w.target
            while b[0] == 'idx':
                t = list(b[2]) + t
                b = b[1]
            t = [sub_syms(self.close(x, w.idx, w.loops, known), ren) for x in t]
            if len(t) != len(path):
                raise Opaque('%s is written as %s' % (show(name), show(w.target)))
            dead = False
            for q in range(len(t)):
                a, p = t[q], path[q]
                if a == p:
                    continue
                if a[0] == 'c' and p[0] == 'c':
                    dead = True
                    break
                if a[0] == 'idx' and p[0] == 'idx' and a[1] == p[1] and a[1] in self.frozen and len(a[2]) == len(p[2]) == 1:
                    a, p = a[2][0], p[2][0]      # distinct entries
                    if a == p:
                        continue
                hit = [k for k, (s, _) in enumerate(bs) if s == a]
                if hit:
                    s, d = bs.pop(hit[0])
                    g = pmul(replace(g, s, p), self.inr(p, d, ctx))
                    v = replace(v, s, p)
                    bs = [(y, tuple(replace(x, s, p) if isinstance(x, tuple) else x for x in dd)) for y, dd in bs]
                    t = [replace(x, s, p) for x in t]
                else:
                    g = pmul(g, IND(('eq', a, p)))
            # indices were substituted one after the other: compare again
            if dead:
                continue
            if once and w.op is not None:
                if len(bs) != 1 or free_in(v, bs[0][0]):
                    raise Opaque('a loop that is left early')
                (s, d), = bs
                g = ANY(s, d, g)
                bs = []
            if w.op == '+':
                val = padd(val, self.inside(SUM(bs, pmul(g, v)), ctx, gset))
            elif w.op == '-':
                val = padd(val, self.inside(SUM(bs, pmul(g, v)), ctx, gset), -1)
            else:
                for s, d in list(bs):
                    p = chosen(g, s) if free_in(v, s) else None
                    if p is not None:
                        bs.remove((s, d))
                        g = pmul(replace(g, s, p), self.inr(p, d, ctx))
                        v = replace(v, s, p)
                        bs = [(y, tuple(replace(x, s, p) if isinstance(x, tuple) else x for x in dd)) for y, dd in bs]
                if any(free_in(v, s) for s, _ in bs):
                    raise Opaque('%s is what the last iteration left' % show(name))
                for s, d in reversed(bs):
                    g = ANY(s, d, g)
                if val != ZERO and not boolean(g):
                    raise Opaque('condition %s' % show(g)[:80])
                val = choose(g, v, val)
        return val

    def inside(self, e, ctx, gset):
        """Drops the conditions that the loops around the reader (this index is in its range) and its guard decide."""
        if e == ZERO:
            return e
        for c in gset:
            if c[0] in ('eq', 'ne') and all(x[0] in ('L', 'c') for x in c[1:]):
                q = IND(c)
                for v, a in ((1, q), (0, pneg(q))):
                    if a[0] == 'ind':
                        e = setatom(e, a, v)
        p = to_poly(e)
        hit = {a for m in p for a, _ in m if a[0] == 'inr' and a[1][0] == 'L'}
        for a in hit:
            if self.inr(a[1], ('range', a[2], a[3]), ctx) == ONE:
                e = setatom(e, a, 1)
        return e

    def inr(self, p, d, ctx):
        """p lies in the range of the loop that wrote."""
        for l in ctx:
            if l.sym == p and l.kind == 'range' and l.dom[3] == ONE:
                lo, hi = l.dom[1], l.dom[2]
                if lo == d[1] and (hi == d[2] or covers(d[2], hi) or self.closed_eq(hi, d[2], l)):
                    return ONE
                return ('inr', p, d[1], d[2])
        if p[0] == 'G' and d[1] == ZERO and (p[2] == d[2]):
            return ONE
        if p[0] == 'c':
            if d[1] == ZERO and d[2][0] != 'c':
                return ('inr', p, d[1], d[2])
        return inrange(p, d)

    def closed_eq(self, hi, d, l):
        try:
            hi = self.close(hi, l_idx(self, l), (), set())
            return hi == d or covers(d, hi)
        except Opaque:
            return False

    def dead(self, name, path, w, common):
        return False

    def maybe_carried(self, name, path, w, common, lp):
        t, b = [], w.target
        while b[0] == 'idx':
            t = list(b[2]) + t
            b = b[1]
        # a cell named by the loop itself is another one in every iteration
        carriers = [l for l in common[len(lp):]]
        for l in list(carriers):
            for k, (a, p) in enumerate(zip(t, path)):
                if a == l.sym and p == l.sym:
                    carriers.remove(l)
                    break
        if carriers:
            raise Carried(name if not path else ('idx', name, tuple(path)), w, carriers[0])


def chosen(g, s):
    """The one value of s for which the condition g can hold, or None."""
    p = to_poly(g)
    common = None
    for m in p:
        atoms = {a for a, _ in m if a[0] == 'ind' and a[1][0] == 'eq' and s in a[1][1:]}
        common = atoms if common is None else common & atoms
    for a in sorted(common or (), key=skey):
        o = a[1][2] if a[1][1] == s else a[1][1]
        if not free_in(o, s):
            return o
    return None


# dimensions that are equal, by what the arrays are: sample, variable, observation, tree, leaf
DIMS = {('data', 1): ('X', 1), ('partition_leaves_trees', 2): ('X', 1), ('fX', 0): ('X', 0), ('y_pred', 0): ('data', 0),
        ('partition_leaves_trees', 0): ('values', 0), ('leaf_idx_trees', 0): ('values', 0), ('leaves_nb', 0): ('values', 0),
        ('leaf_idx_trees', 1): ('partition_leaves_trees', 1)}


def dimension(b, path):
    if b[0] == 'n' and len(path) == 1 and path[0][0] == 'c':
        n, k = DIMS.get((b[1], path[0][1]), (b[1], path[0][1]))
        return ('idx', ('attr', ('n', n), 'shape'), (C(k),))
    return ('idx', ('attr', b, 'shape'), tuple(path))


def dom_loops(w, n):
    return w.loops[n:]


def base_of(t):
    while t[0] == 'idx':
        t = t[1]
    return t


def l_idx(den, l):
    for e in den.ev:
        if e.kind == 'loop' and e.aux is l:
            return e.idx
    for e in den.ev:
        if l in e.loops:
            return e.idx
    return 0


def conj(g):
    if g[0] == 'and':
        out = []
        for x in g[1]:
            out += conj(x)
        return out
    return [] if g == TRUE else [g]


def dims(v):
    if v[0] == 'call' and v[1][0] == 'attr' and v[1][2] in ('zeros', 'ones', 'empty', 'full'):
        a = v[2][0] if v[2] else dict(v[3]).get('shape')
        if a is None:
            return None
        if a[0] == 'tuple':
            p = a[1:]
            return tuple(p[0]) if len(p) == 1 and isinstance(p[0], tuple) and p[0] and isinstance(p[0][0], tuple) else tuple(p)
        return (a,)
    p = to_poly(v)
    if len(p) == 1:
        (m, c), = p.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0] != v:
            return dims(m[0][0])
    return None


def init_value(v):
    """What every cell of a new array holds."""
    if v[0] == 'call' and v[1][0] == 'attr' and v[1][2] in ('zeros', 'ones', 'full'):
        return {'zeros': ZERO, 'ones': ONE}.get(v[1][2]) or (v[2][1] if len(v[2]) > 1 else None)
    p = to_poly(v)
    if len(p) == 1 and v[0] == 'poly':
        (m, c), = p.items()
        if len(m) == 1 and m[0][1] == 1:
            x = init_value(m[0][0])
            return None if x is None else pmul(C(Fraction(c)), x)
    return None


def result_of(walker, params, value, pos, ctx=(), guard=TRUE):
    """Closed form of a returned value: arrays as the cell at generic indices."""
    d = Den(walker, params)
    return generic(d, value, pos, ctx, set(conj(guard)))


def value_at(walker, params, value, e, most=8, first=None, names=None):
    """Closed form of a value at an event, in terms of the state of the loops around it: (form, names of that state)."""
    frozen = state_of(walker, e) if first is None else set(first)
    most += len(frozen)
    while True:
        d = Den(walker, params, frozen, names)
        try:
            return d.close(value, e.idx, e.loops, set(conj(e.guard))), frozen
        except (Carried, Unset) as x:
            n = x.what
            while n[0] == 'idx':
                n = n[1]
            if n in frozen or len(frozen) >= most:
                raise
            frozen.add(n)


def state_of(walker, e):
    """Names that stand for the state of the loops around e: lists that are changed in place, local arrays that hold
    positions in other arrays, and what is read off them."""
    d = Den(walker)
    out = set()
    bases = set()

    def scan(x, depth):
        if isinstance(x, frozenset):
            for y in x:
                scan(y, depth)
        elif isinstance(x, tuple) and x:
            if x[0] == 'idx':
                if depth and x[1][0] == 'n':
                    bases.add(x[1])
                scan(x[1], depth)
                for y in x[2]:
                    scan(y, 1)
            else:
                for y in x:
                    if isinstance(y, (tuple, frozenset)):
                        scan(y, depth)
    for w in walker.events:
        for x in (w.value, w.target):
            if isinstance(x, tuple):
                scan(x, 0)
    for n, ws in d.writes.items():
        if any(w.kind == 'mutate' for w in ws):
            out.add(n)
        elif n in bases and any(w.target[0] == 'idx' and set(w.loops) & set(e.loops) for w in ws):
            out.add(n)
    more = True
    while more:
        more = False
        for n, ws in d.writes.items():
            if n in out:
                continue
            inner = [w for w in ws if w.kind == 'assign' and w.target == n and set(w.loops) & set(e.loops)]
            if inner and any(reads(w.value, out) for w in inner) and all(w.op is None for w in ws if w.target == n):
                if any(has_call(w.value) for w in inner):
                    out.add(n)
                    more = True
    return out


def reads(x, names):
    if x in names:
        return True
    return isinstance(x, (tuple, frozenset)) and any(reads(y, names) for y in x if isinstance(y, (tuple, frozenset)))


def has_call(x):
    if isinstance(x, tuple) and x and x[0] == 'call':
        return True
    return isinstance(x, (tuple, frozenset)) and any(has_call(y) for y in x if isinstance(y, (tuple, frozenset)))


def generic(d, v, pos, ctx, gset):
    while v[0] == 'call' and v[1][0] == 'attr' and v[1][2] in ('array', 'asarray') and v[2]:
        v = v[2][0]
    if v[0] == 'n' and v in d.dims:
        dd = [d.close(x, pos, ctx, gset) for x in d.dims[v]]
        return d.cell(v, [('G', k, x) for k, x in enumerate(dd)], pos, ctx, gset)
    if v[0] == 'poly':
        r = ZERO
        for mono, co in v[1]:
            t = C(co)
            for a, x in mono:
                t = pmul(t, ppow(generic(d, a, pos, ctx, gset), x))
            r = padd(r, t)
        return r
    if v[0] == 'call' and init_value(v) is not None:
        return init_value(v)
    return d.close(v, pos, ctx, gset)
