"""Contributions to Shapley values in closed form: each accumulation over trees, leaves, players, coalitions, samples and
outputs, as a function of the state of those loops."""
import ast
import copy

from .ctx import Fn
from . import denote, forms, norm
from .denote import Opaque, IND, padd, pmul
from .norm import C, TRUE, FALSE, show, to_poly

ZERO, ONE = C(0), C(1)
KEEP = ('binomialC', '_comb_int_long')


TREES = ('data', 'values', 'partition_leaves_trees', 'leaf_idx_trees', 'leaves_nb')
REST = ('scaling', 'node_idx_trees')
LAST = ('C', 'num_threads')


def signature(fn):
    """The names of the parameters of a kernel, by position."""
    n = fn.name
    if 'adap' in n:
        return ('X',) + TREES + REST + ('S_star', 'N_star', 'size') + LAST
    if n.startswith('leaves_cache'):
        return TREES + REST + LAST
    mid = ('lm', 'lm_s', 'lm_si') if 'cache' in n else ()
    return ('X',) + TREES + mid + REST + (('S_star', 'N_star') if 'acv' in n else ()) + LAST


def aligned(fn):
    """The function with its parameters named as in the definitions."""
    sig = signature(fn)
    if tuple(fn.params) == sig or len(fn.params) != len(sig) or not fn.native:
        return fn
    ren = {a: b for a, b in zip(fn.params, sig) if a != b}
    used = {x.id for x in ast.walk(fn.node) if isinstance(x, ast.Name)}
    if set(ren) & set(sig) or set(ren.values()) & used:
        return fn
    node = copy.deepcopy(fn.node)
    for x in ast.walk(node):
        if isinstance(x, ast.Name) and x.id in ren:
            x.id = ren[x.id]
        elif isinstance(x, ast.arg) and x.arg in ren:
            x.arg = ren[x.arg]
    ct = getattr(fn.node, '_ctypes', None)
    if ct is not None:
        node._ctypes = {ren.get(k, k): v for k, v in ct.items()}
    g = Fn(fn.mod, node, fn.cls, fn.parent)
    g.nested = fn.nested
    return g


def walk(env, fn):
    if fn.mod.rel.startswith('spec/'):
        w = env.walk(fn, lambda g: True, 'shap')
    else:
        w = env.walk(fn, lambda g: g.native and g.name not in KEEP and not g.name.startswith(('single_', 'compute_')), 'shap')
    if not getattr(w, 'shapley', False):
        for e in w.events:
            settle(e)
        w.shapley = True
    return w


BIT = ('op', 'BitAnd')


def bit(c):
    """A test of a bit, in one form; None if c is not one."""
    k = c[0]
    if k == 'op' and c[1] == 'BitAnd':
        x, want, other = c, None, True
    elif k in ('lt', 'ne', 'eq', 'le') and any(y[:2] == BIT for y in c[1:]):
        x = [y for y in c[1:] if y[:2] == BIT][0]
        o = c[2] if c[1] == x else c[1]
        left = c[1] == x
        mask = [y for y in x[2:] if y[:2] == ('op', 'LShift') or y == ONE]
        if o == ZERO and (k == 'ne' or k == 'lt' and not left or k == 'eq' or k == 'le' and left):
            other = k in ('ne', 'lt')
        elif mask and o == mask[0] and k in ('eq', 'ne', 'lt', 'le') and (k in ('eq', 'ne') or k == 'le' and not left or k == 'lt' and left):
            other = k in ('eq', 'le')
        else:
            return None
    else:
        return None
    a, b = x[2:4]
    for u, v in ((a, b), (b, a)):
        if v == ONE and u[:2] == ('op', 'RShift'):
            a, b = u[2], ('op', 'LShift', ONE, u[3])
            break
        if v[:2] == ('op', 'LShift') and v[2] == ONE:
            a, b = u, v
            break
    else:
        return None
    return (norm.cmp('ne' if other else 'eq', ZERO, ('op', 'BitAnd', a, b)))


def bits(c):
    """The tests of bits in a condition in one form."""
    if not isinstance(c, tuple) or not c:
        return c
    if c[0] in ('and', 'or'):
        return (norm.AND if c[0] == 'and' else norm.OR)(*[bits(x) for x in c[1]])
    if c[0] == 'not':
        return norm.NOT(bits(c[1]))
    return bit(c) or c


def settle(e):
    """Binomials of m - 1 over at most m - 1 are not zero: their guards are dropped."""
    e.guard = bits(nonzero(e.guard))
    if e.kind != 'assign' or e.value is None:
        return
    v = nonzero(e.value)
    if v == e.value:
        return
    e.value = v
    if e.op is None:
        p = dict(to_poly(v))
        one = ((e.target, 1),)
        if p.get(one) == 1:
            r = norm.from_poly({m: c for m, c in p.items() if m != one})
            if not forms.has(r, e.target):
                e.op, e.value = '+', r


def nonzero(v):
    if isinstance(v, frozenset):
        return frozenset(nonzero(x) for x in v)
    if not isinstance(v, tuple) or not v:
        return v
    k = v[0]
    if k in ('c', 'n', 'L'):
        return v
    if k == 'fn':
        return ('n', v[1].split(':')[1]) if v[1].split(':')[1] in KEEP else v
    if k in ('eq', 'ne', 'lt') and len(v) == 3 and ZERO in v[1:]:
        o = v[2] if v[1] == ZERO else v[1]
        if o[0] == 'call' and o[1][0] == 'fn' and o[1][1].endswith(':binomialC'):
            return FALSE if k == 'eq' or v[1] != ZERO else TRUE
    if k == 'ite':
        c = nonzero(v[1])
        return nonzero(v[2]) if c == TRUE else nonzero(v[3]) if c == FALSE else ('ite', c, nonzero(v[2]), nonzero(v[3]))
    if k == 'and':
        return norm.AND(*[nonzero(x) for x in v[1]])
    if k == 'or':
        return norm.OR(*[nonzero(x) for x in v[1]])
    if k == 'poly':
        out = ZERO
        for m, c in v[1]:
            t = C(c)
            for a, x in m:
                t = norm.mul(t, norm.power(nonzero(a), x))
            out = norm.add(out, t)
        return out
    return tuple(nonzero(x) if isinstance(x, (tuple, frozenset)) else x for x in v)


# ---------------------------------------------------------------- contributions
def roles(w, e, node=None):
    """The loops around e: b, leaf, va, counter, i, nv, k by what they run over."""
    out, names = {}, {}
    for l in e.loops:
        r = role(l, out)
        if r is None or r in out.values():
            raise Opaque('loop over %s' % show(l.dom))
        out[l] = r
    return out


def shape(n, k):
    return ('idx', ('attr', ('n', n), 'shape'), (C(k),))


def size_of(x):
    """The list whose length x is, or None."""
    if x[0] == 'call' and x[1][0] == 'attr' and x[1][2] in ('size', '__len__'):
        return x[1][1]
    if x[0] == 'call' and x[1] == ('n', 'len') and len(x[2]) == 1:
        return x[2][0]
    if x[0] == 'idx' and x[1][0] == 'attr' and x[1][2] == 'shape' and x[2] == (ZERO,):
        return x[1][1]
    return None


def role(l, known):
    d = l.dom
    if d[0] != 'range':
        return None
    if d[1] != ZERO or (len(d) > 3 and d[3] != ONE):
        if d[1][0] == 'c' and role(Dom(('range', ZERO, d[2], ONE)), known):
            raise Short('the loop over %s does not run over all of them' % show(d))
        return None
    r = whole(d, known)
    if r is None:
        p = dict(to_poly(d[2]))
        off = p.pop((), 0)
        if off and whole(('range', ZERO, norm.from_poly(p), ONE), known):
            raise Short('the loop over %s does not run over all of them' % show(d))
    return r


class Dom:
    def __init__(self, dom):
        self.dom = dom


class Short(Exception):
    """A loop that leaves out some of what it runs over."""


def whole(d, known):
    n = d[2]
    by = {r: x.sym for x, r in known.items()}
    if n in (shape('values', 0), shape('partition_leaves_trees', 0), shape('leaves_nb', 0)):
        return 'b'
    if n == shape('values', 2):
        return 'k'
    if n == shape('X', 0):
        return 'i'
    if n == shape('data', 0):
        return 'j'
    if n[0] == 'idx' and n[1] == ('n', 'leaves_nb') and n[2] == (by.get('b'),):
        return 'leaf' if 'leaf' not in by else 'leaf2'
    if n[0] == 'op' and n[1] == 'Pow' and n[2] == C(2) and size_of(n[3]):
        return 'counter'
    s = size_of(n)
    if s is None:
        return None
    if s[0] == 'n':
        return 'va'
    if s[0] == 'idx' and s[2] == (by.get('va'),):
        return 'nv'
    return None


def contributions(env, fn, rename=None):
    """{(roles, feature, output): form}: what is added to the Shapley values, per state of the loops around."""
    w = walk(env, fn)
    return w, contributions_of(w)


def contributions_of(w):
    out = []
    for e in w.events:
        if e.kind == 'assign' and e.op == '+' and e.target[0] == 'idx' and (
                forms.has(e.value, ('n', 'values')) or any(x[0] == 'idx' and x[1][0] in ('n', 'idx') and len(x[2]) + (len(x[1][2]) if x[1][0] == 'idx' else 0) == 2
                                                           for x in e.target[2])):
            out.append(e)
    return out


def form_at(w, fn, e, value, rename=None):
    v, frozen = denote.value_at(w, fn.params, value, e, most=14, names=rename)
    return forms.specialise(v, e.loops)


def players(e, rs):
    """(list of players, position of the feature, position of the output) in what an accumulation writes."""
    by = {r: l.sym for l, r in rs.items()}
    feat = [x for x in e.target[2] if x[0] == 'idx' and by.get('nv') in x[2]]
    if len(feat) != 1 or feat[0][1][0] != 'n' or feat[0][2] != (by.get('va'), by.get('nv')):
        raise Opaque('adds to %s' % show(e.target))
    return feat[0][1][1]


def canonical(v, e, rs, given):
    """Loops by role, lists by their use: node lists the other players on the path, va_id all players."""
    syms = {l.sym: ('n', '<%s>' % r) for l, r in rs.items()}

    one = 'k' in rs.values() and 'i' not in rs.values()      # X is one sample

    def hook(x):
        if x in syms:
            return syms[x]
        if one and x == shape('X', 0):
            return shape('X', 1)
        if one and x[0] == 'idx' and x[1] == ('n', 'X') and len(x[2]) == 1:
            return ('idx', ('n', 'X'), (('n', '<i>'),) + tuple(again(z, hook) for z in x[2]))
        if x[0] == 'n':
            n = x[1]
            bar = n.startswith('|')
            base = n.strip('|').split('[')[0]
            if base in given or '[' in n:
                return ('n', ('|%s|' if bar else '%s') % (given.get(base, base) + ('[]' if '[' in n and given.get(base) != 'S' else '')))
        if x[0] == 'call' and x[1] == ('n', 'binomialC'):
            return ('idx', ('n', 'binomialC'), tuple(x[2]))
        if x[0] == 'op' and x[1] in ('BitAnd', 'LShift', 'Pow'):
            return ('idx', ('n', x[1]), tuple(x[2:]))
        return None
    return again(v, hook)


def again(v, hook):
    """forms.deep with the hook applied below what it returns as well."""
    def h(x):
        y = hook(x)
        if y is not None and y[0] == 'idx' and y[1][0] == 'n' and y[1][1] != 'X':
            return ('idx', y[1], tuple(again(z, hook) for z in y[2]))
        return y
    return forms.deep(v, h)


def total(env, fn, rename=None, given=None):
    """{roles: sum over the accumulations at those loops of guard * value}, with the event and its lists."""
    w, es = contributions(env, fn)
    out = {}
    for e in es:
        rs = roles(w, e)
        va = players(e, rs)
        g = dict(given or {})
        g[va] = 'va_id'
        for l, r in rs.items():
            if r == 'counter':
                b = size_of(l.dom[2][3])
                g[b[1][1] if b[0] == 'idx' else b[1]] = 'node'
        if 'counter' in rs.values():
            f = fill(w, e, rs)
            if f is not None:
                g[f[0]], g[f[1]] = 'S', 'S_size'
        v, on = closed(w, fn, e, rs, g, va, rename)
        key = (tuple(sorted(set(rs.values()) | {'i'})), on)
        o = out.get(key)
        out[key] = ((padd(o[0], v) if o else v), e, rs, g)
    return out


def bare(e, guard):
    x = copy.copy(e)
    x.guard = guard
    return x


def fill(w, e, rs):
    """The list that holds the variables of the coalition: (name, its size, writes) of an array written at a growing
    position inside the loop over coalitions."""
    counter = [l for l, r in rs.items() if r == 'counter'][0]
    for x in w.events:
        if x.kind == 'assign' and x.op is None and x.target[0] == 'idx' and counter in x.loops and x.loops[-1] is not counter \
                and x.target[2][-1][0] == 'n' and x.target[1][0] == 'n':
            n = x.target[2][-1]
            if any(y.kind == 'assign' and y.target == n and y.op == '+' and y.value == ONE and y.loops == x.loops for y in w.events):
                return x.target[1][1], n[1], x
    return None


def closed(w, fn, e, rs, g, va, rename=None):
    """(guard * value of an accumulation in canonical form, whether the player is on the path)."""
    on, rest, path = None, [], []
    for c in denote.conj(e.guard):
        if c[0] in ('in', 'notin') and (va is None or forms.has(c, ('n', va))):
            on = c[0]
            path.append(c)
        else:
            rest.append(c)
    v, frozen = denote.value_at(w, fn.params, ('ite', norm.AND(*rest), e.value, ZERO) if rest else e.value,
                                bare(e, norm.AND(*path)), most=14, names=rename)
    v = canonical(forms.specialise(v, e.loops), e, rs, g)
    odd = forms.foreign(v)
    if odd:
        raise Opaque(odd)
    return v, on


def lists(w, e, rs):
    """What the lists around e are: players, players on the path, coalition."""
    g = {}
    for l, r in rs.items():
        if r == 'counter':
            b = size_of(l.dom[2][3])
            g[b[1][1] if b[0] == 'idx' else b[1]] = 'node'
        if r == 'va':
            g[size_of(l.dom[2])[1]] = 'va_id'
    if 'counter' in rs.values():
        f = fill(w, e, rs)
        if f is not None:
            g[f[0]], g[f[1]] = 'S', 'S_size'
    return g


def counts(env, fn, rename=None):
    """[(indices by role, number of data points counted there, on the path, event)] for each returned array."""
    w = walk(env, fn)
    ret = [e for e in w.events if e.kind == 'return']
    if len(ret) != 1 or ret[0].value[0] != 'tuple':
        raise Opaque('returns')
    out = []
    vals = ret[0].value[1:]
    if len(vals) == 1 and isinstance(vals[0], tuple) and vals[0] and isinstance(vals[0][0], tuple):
        vals = vals[0]
    for v in vals:
        while v[0] == 'call' and v[1][0] == 'attr' and v[1][2] in ('array', 'asarray'):
            v = v[2][0]
        if v[0] != 'n':
            raise Opaque('returns %s' % show(v))
        init = [e for e in w.events if e.kind == 'assign' and e.target == v]
        ws = [e for e in w.events if e.kind == 'assign' and e.target[0] == 'idx' and e.target[1] == v]
        if len(init) != 1 or init[0].loops or denote.init_value(init[0].value) != ZERO:
            raise Opaque('%s is set more than once' % show(v))
        zero = [e for e in ws if e.op is None and e.value == ZERO]
        ws = [e for e in ws if e not in zero]
        if not ws:
            raise Short('%s is never counted' % show(v))
        if len(ws) != 1:
            raise Opaque('%s is written at %d places' % (show(v), len(ws)))
        e = ws[0]
        rs = roles(w, e)
        g = lists(w, e, rs)
        syms = {l.sym: r for l, r in rs.items()}
        at = tuple(syms.get(x) for x in e.target[2])
        if any(x[0] == 'c' for x in e.target[2]):
            raise Short('the count is kept in %s' % show(e.target))
        if None in at:
            raise Opaque('writes %s' % show(e.target))
        inner = [l for l in e.loops if rs[l] not in at]
        outer = {l: r for l, r in rs.items() if l not in inner}
        f, on = closed(w, fn, e, outer, g, None, rename)
        if e.op == '+':
            for l in reversed(inner):
                s = denote.fresh()
                d = ('range', ZERO, canonical(forms.specialise(l.dom[2], e.loops), e, outer, g))
                f = denote.SUM([(s, d)], denote.sub_syms(f, {l.sym: s}))
        elif e.op is not None or inner:
            raise Opaque('%s is changed by %s' % (show(v), e.op))
        for z in zero:
            if z.loops != e.loops[:len(z.loops)] or z.target != e.target or z.idx > e.idx:
                raise Opaque('%s is reset' % show(v))
        out.append((at, f, on, e, rs, g))
    return out


# ---------------------------------------------------------------- how the coalition is listed
def filling(w, e, rs, g):
    """How the variables of a coalition are listed around the accumulation e: descriptions of the writes of the list and
    of its size."""
    names = {n for n, r in g.items() if r in ('S', 'S_size')}
    counter = [l for l, r in rs.items() if r == 'counter'][0]
    depth = e.loops.index(counter)
    out = []
    by = {l.sym for l in rs}
    for x in w.events:
        if x.kind != 'assign':
            continue
        t = x.target[1] if x.target[0] == 'idx' else x.target
        if t[0] != 'n' or t[1] not in names or x.loops[:depth + 1] != e.loops[:depth + 1]:
            continue
        if x.idx > e.idx:
            raise Opaque('%s is changed after use' % show(t))
        extra = x.loops[depth + 1:]
        syms = {l.sym: ('n', '<%d>' % i) for i, l in enumerate(extra)}

        def can(v):
            return plain(denote.sub_syms(canonical(v, e, rs, g), syms))
        t = x.target
        if t[0] == 'idx':
            t = ('idx', t[1], tuple(z for z in t[2] if z not in by))
        out.append((x.op, can(t), can(x.value), norm_guard(x.guard, can), tuple(can(l.dom) for l in extra)))
    return tuple(out)


def plain(v):
    """Copies of a list stand for the list."""
    def hook(x):
        if x[0] == 'call' and x[1] in (('attr', ('n', 'np'), 'array'), ('n', 'list')) and len(x[2]) == 1:
            return plain(x[2][0])
        return None
    return again(v, hook)


def norm_guard(guard, can):
    """Guards of the writes below, without those of the loops around."""
    return frozenset(can(c) for c in denote.conj(guard) if c[0] not in ('in', 'notin'))


# ---------------------------------------------------------------- how the players are listed
def root(x):
    while x[0] in ('idx', 'attr'):
        x = x[1]
    return x[1] if x[0] == 'n' else None


def players_listed(w, fn, e, rs, g):
    """How the players, and those on the path to a leaf, are listed before the accumulation e: descriptions of the writes
    of the two lists and of all local lists and flags they are made from, in order."""
    inv = {r: n for n, r in g.items()}
    have = {inv['va_id'], inv['node']}
    counter = [l for l, r in rs.items() if r == 'counter'][0]
    stop = next(x.idx for x in w.events if x.kind == 'loop' and x.aux is counter or x.kind != 'loop' and counter in x.loops)
    evs = [x for x in w.events if x.idx < stop and counter not in x.loops and x.kind in ('assign', 'mutate', 'expr', 'break')
           and x.op != 'resize']
    local = {root(x.target) for x in evs if x.kind in ('assign', 'mutate') and x.target} - {None}
    one = 'i' not in rs.values()
    many = shape('X', 0 if one else 1), shape('data', 1)
    pick = {}
    while True:
        before = len(have), len(pick)
        for x in evs:
            if x.idx in pick:
                continue
            t = removed(x) if x.kind == 'expr' else x.target
            if x.kind == 'break':
                if x.loops and any(x.loops[-1] in y.loops for y in pick.values()) and x.loops[-1] not in rs:
                    pick[x.idx] = x
            elif t is not None and root(t) in have:
                pick[x.idx] = x
        for x in list(pick.values()):
            for part in [x.value if x.kind != 'expr' else x.target, x.guard] + [l.dom for l in x.loops if l not in rs]:
                have |= {n for n in names(part) if n in local}
        if (len(have), len(pick)) == before:
            break
    out = []
    single = {}
    for x in [pick[i] for i in sorted(pick)]:
        own = [l for l in x.loops if l not in rs]
        syms = {l.sym: ('n', '<%s>' % r) for l, r in rs.items()}
        syms.update({l.sym: ('n', '<%d>' % d) for d, l in enumerate(own)})
        drop = {('n', '<%s>' % r) for r in rs.values()}

        def can(v):
            v = one_level(denote.sub_syms(v, syms))

            def hook(y):
                if y in many:
                    return ('n', '<m>')
                if y[0] == 'idx' and y[1][0] == 'n' and y[1][1] in have - set(fn.params):
                    ix = tuple(again(z, hook) for z in y[2])
                    while ix and ix[0] in drop:
                        ix = ix[1:]
                    return ('idx', y[1], ix) if ix else y[1]
                return None
            return plain(again(v, hook))
        t = removed(x) if x.kind == 'expr' else x.target
        t = can(t) if t is not None else None
        # a list of one: written, then appended
        if x.kind == 'assign' and x.op is None and x.target[0] == 'idx' and x.target[2][-1] == ZERO and not forms.has(x.value, x.target[1]):
            single[('idx', x.target[1], x.target[2][:-1]) if len(x.target[2]) > 1 else x.target[1]] = (can(x.value), x)
            continue
        v = x.value
        if x.kind == 'mutate' and x.value and x.value[0] in single \
                and (single[x.value[0]][1].loops, single[x.value[0]][1].guard) == (x.loops, x.guard):
            v = (('list', single[x.value[0]][0]),)
        elif x.kind == 'expr':
            v = tuple(can(y) for y in (x.target[2][2], x.target[2][0], x.target[2][1]))
        elif isinstance(v, tuple) and v and isinstance(v[0], tuple):
            v = tuple(can(y) for y in v)
        elif v is not None and v != ():
            v = can(v)
        out.append(('remove' if x.kind == 'expr' else x.kind, x.op, t, v,
                    frozenset(can(c) for c in denote.conj(x.guard)), tuple(can(l.dom) for l in own)))
    return out, have


def names(x):
    if isinstance(x, tuple) and x:
        if x[0] == 'n':
            return {x[1]}
        return set().union(*[names(y) for y in x if isinstance(y, (tuple, frozenset))])
    if isinstance(x, frozenset):
        return set().union(*[names(y) for y in x])
    return set()


def removed(x):
    """The list std::remove works on."""
    v = x.target
    if isinstance(v, tuple) and v and v[0] == 'call':
        c = v[1]
        while c[0] == 'idx':
            c = c[1]
        if c[0] == 'n' and c[1] in ('std_remove', 'remove') and len(v[2]) == 3 and v[2][0][0] == 'call' and v[2][0][1][0] == 'attr':
            return v[2][0][1][1]
    return None


def one_level(v):
    """a[i][j] is a[i, j]."""
    def hook(x):
        if x[0] == 'idx' and x[1][0] == 'idx':
            b = one_level(x[1])
            if b[0] == 'idx':
                return ('idx', b[1], tuple(b[2]) + tuple(one_level(z) for z in x[2]))
        if x[0] == 'call' and x[1] == ('n', 'len') and len(x[2]) == 1:
            return ('call', ('attr', one_level(x[2][0]), 'size'), (), ())
        if x[0] == 'call' and x[1][0] == 'attr' and x[1][2] == 'empty' and not x[2]:
            return norm.cmp('eq', ZERO, ('call', ('attr', one_level(x[1][1]), 'size'), (), ()))
        if x[0] in ('lt', 'le') and (size_of(x[1]) or size_of(x[2])):
            a, b = one_level(x[1]), one_level(x[2])
            if size_of(b) and (x[0] == 'lt' and a == ZERO or x[0] == 'le' and a == ONE):
                return norm.cmp('ne', ZERO, b)
            if size_of(a) and (x[0] == 'lt' and b == ONE or x[0] == 'le' and b == ZERO):
                return norm.cmp('eq', ZERO, a)
        return None
    return forms.deep(v, hook)


def refine(evs, have, keep, params=(), rounds=4):
    """The events with the names of local lists replaced by what is done to them."""
    color = {n: 'local' for n in have}
    for n, r in keep:
        color[n] = r
    for n in params:
        color.pop(n, None)
    have = have - set(params)
    for k in range(rounds):
        def paint(v):
            if isinstance(v, tuple) and v:
                if v[0] == 'n' and v[1] in color:
                    return ('n', color[v[1]])
                return tuple(paint(x) if isinstance(x, (tuple, frozenset)) else x for x in v)
            if isinstance(v, frozenset):
                return frozenset(paint(x) for x in v)
            return v
        painted = [tuple(paint(x) if isinstance(x, (tuple, frozenset)) else x for x in ev) for ev in evs]
        if k == rounds - 1:
            return painted
        new = {}
        for n in have:
            if n in dict(keep):
                new[n] = color[n]
                continue
            seen = [freeze(p) for ev, p in zip(evs, painted) if n in names(ev[2] or ())]
            new[n] = 'l%x' % (hash((color[n], tuple(sorted(seen)))) & 0xffffffffffff)
        color = new


def freeze(v):
    if isinstance(v, frozenset):
        return '{%s}' % ','.join(sorted(freeze(x) for x in v))
    if isinstance(v, tuple):
        parts = [freeze(x) for x in v]
        if v and v[0] in ('eq', 'ne'):
            parts[1:] = sorted(parts[1:])
        return '(%s)' % ','.join(parts)
    return str(v)
