"""Leaf tables precomputed by the constructor: built whenever the flags ask for them, read by the kernel that expects them, and
only for the grouping they were built for (constructor and method composed by the value numbering of acvlint/vn.py)."""
from itertools import product

from .vn import VN, State, alts, show, subs
from .wrappers import cname

SELF, PC = ('param', 'self'), ('param', 'C')
FLAGS = ('cache', 'cache_normalized', 'multi_threads')
TABLES = ('lm', 'lm_s', 'lm_si')


def grouping(v):
    """True / False / '?' if the test says C is / is not the grouping of the explainer / speaks of both otherwise."""
    xs = subs(v)
    if not (PC in xs and ('attr', SELF, 'C') in xs):
        return None
    if v[0] == 'cmp' and v[1] in ('Eq', 'NotEq') and all((PC in subs(x)) != (('attr', SELF, 'C') in subs(x)) for x in v[2:4]):
        return v[1] == 'Eq'
    if v[0] == 'call' and 'equal' in (cname(v) or ''):
        return True
    return '?'


class Asked:
    def __init__(self, flags, same):
        self.flags, self.same, self.read, self.unclear = flags, same, set(), False

    def __call__(self, v):
        k = v[2] if v[0] == 'attr' and v[1] == SELF else v[1] if v[0] == 'param' else None
        if k in self.flags:
            self.read.add(k)
            return self.flags[k]
        g = grouping(v)
        if g == '?':
            self.unclear = True
            return None
        return None if g is None else g == self.same


def check(env, r, undecided):
    cls = env.ctx.cls('ACVTree')
    fam = env.ctx.mro(cls)
    init = env.ctx.method(cls, '__init__')
    kernels = {f.name for f in env.native_fns if all(t in f.params for t in TABLES)}
    builders = {f.name for f in env.native_fns if f.name.startswith('leaves_cache')}
    states = {}
    for vals in product((True, False), repeat=len(FLAGS)):
        flags = dict(zip(FLAGS, vals))
        _, st = VN(env, Asked(flags, True)).run(init)
        states[vals] = st.attrs if st else {}
    methods = []
    for c in fam:
        for f in env.ctx.fns:
            if f.cls is c and f.parent is None and not f.native and env.ctx.method(cls, f.name) is f:
                methods.append(f)

    def enter(fn, g):
        return g.cls in fam and g.name != '__init__' or g.cls is None and not g.native and g.mod is fn.mod

    for f in methods:
        if 'C' not in f.params or f.name == '__init__':
            continue
        for vals in states:
            flags = dict(zip(FLAGS, vals))
            met = {}
            for same in (True, False):
                a = Asked(flags, same)
                met[same] = calls = []

                def seen(cf, cm, node, fn, st):
                    if cf is not None and cf.native and cf.name in kernels:
                        calls.append((cf, cm, node, fn))
                VN(env, a, enter, seen).run(f)
                if a.unclear and calls:
                    undecided(f, 'the test that compares the groupings')
                    met = {}
                    break
            if not met or not any(met.values()):
                continue
            r.unit(f)
            stray = [c for c in met[False] if c[1].get('C') != ('attr', SELF, 'C')]
            r.ob('tables-for-the-grouping', '%s %s' % (f.qual, said(flags)), stray[0][3].loc(stray[0][2]) if stray else f.loc(), not stray,
                 'with a C other than that of the constructor %s still reads the tables the constructor built%s'
                 % (f.name, ': %s' % {t: show(stray[0][1][t]) for t in TABLES if stray[0][1].get(t)} if stray else ''))
            for cf, cm, node, fn in met[True]:
                for i, t in enumerate(TABLES):
                    want = 'normalized' in cf.name
                    vs = [y for x in alts(cm[t]) for y in set_by(states[vals], x)]
                    if not a.read and None in vs:
                        continue      # asked for directly, without the flag: refused for want of the attribute
                    ok, what = True, ''
                    for v in vs:
                        b = built(env, cls, v, builders) if v is not None else None
                        if b is None:
                            ok, what = False, 'is not a table the constructor builds with %s' % said(flags)
                        elif b[1] != i or ('normalized' in b[0]) != want:
                            ok, what = False, 'is table %d of %s' % (b[1], b[0])
                        elif b[2] not in (PC, ('attr', SELF, 'C')):
                            ok, what = False, 'was built for the groups %s, not those of the explainer' % show(b[2])
                    r.ob('tables-of-the-kernel', '%s->%s %s %s' % (f.qual, cf.name, t, said(flags)), fn.loc(node), ok,
                         '%s reads %s as %s, which %s' % (cf.name, show(cm[t]), t, what))
    r.floor('tables-for-the-grouping', 2)
    r.floor('tables-of-the-kernel', 12)


def set_by(attrs, x):
    """The values a constructor leaves in an attribute, [None] if it never sets it."""
    if x[0] != 'attr' or x[1] != SELF:
        return [x]
    return [y for y in alts(attrs[(SELF, x[2])]) if y != x] if (SELF, x[2]) in attrs else [None]


def said(flags):
    return ', '.join('%s=%s' % kv for kv in sorted(flags.items()))


def built(env, cls, v, builders):
    """(native builder, table, groups) of a value of the constructor."""
    if v[0] != 'idx' or v[1][0] != 'call':
        return None
    i = v[2][0] if isinstance(v[2], tuple) and v[2] and isinstance(v[2][0], tuple) else v[2]
    if i[0] != 'const':
        return None
    call = v[1]
    m = env.ctx.method(cls, cname(call))
    kw = dict(call[3])
    if m is None:
        return None
    names = [p for p in m.params if p != 'self']
    C = kw.get('C') or dict(zip(names, call[2])).get('C')
    out = []

    def seen(cf, cm, node, fn, st):
        if cf is not None and cf.native and cf.name in builders:
            out.append((cf.name, cm.get('C')))
    VN(env, None, lambda fn, g: g.cls is not None, seen).run(m)
    if len(set(out)) != 1:
        return None
    b, c = out[0]
    if c == PC:
        c = C if C is not None else ('default',)
    return b, i[1], c
