"""Facts of the projected forest walks: which children are followed, which samples are kept, how the rule is tightened,
how survivors are weighted.  Extracted from the guarded events of a kernel with its helpers inlined."""
import ast

from .ctx import walk_own
from .norm import (AND, OR, NOT, TRUE, FALSE, Atoms, ev, add, implies, equiv, mentions, names_in, neg, num, skey, show,
                   subst, subterms, to_poly, from_poly, truth)


def is_idx(t):
    return isinstance(t, tuple) and len(t) == 3 and t[0] == 'idx'


def membership(e):
    """any(v == el for el in S) -> v in S (also by position)."""
    def f(t):
        if isinstance(t, tuple) and t and t[0] in ('any', 'all'):
            k, d = t[1]
            body = t[2] if t[0] == 'any' else NOT(t[2])
            if body[0] == 'eq':
                el = ('L', 'comp0')
                for a, b in ((body[1], body[2]), (body[2], body[1])):
                    s = None
                    if k == 'iter' and a == el:
                        s = d
                    elif k == 'range' and d[1] == ('c', 0) and is_idx(a) and a[2] == (el,) and \
                            d[2] in (('call', ('attr', a[1], 'size'), (), ()), ('call', ('n', 'len'), (a[1],), ()),
                                     ('idx', ('attr', a[1], 'shape'), (('c', 0),))):
                        s = a[1]
                    if s is not None and el not in set(subterms(b)):
                        return ('in' if t[0] == 'any' else 'notin', b, s)
        return None
    return subst(e, f)


class WalkFacts:
    """One projected walk: `root` is the function that holds the loop over the trees."""

    def __init__(self, env, root, w):
        self.env, self.root, self.w = env, root, w
        self.inserts, self.erases, self.masks, self.tight = [], [], [], []
        self.ok = False
        role = env.role_of
        ev_ = w.events
        self.guards = {}
        for e in ev_:
            if e.kind == 'mutate' and e.op in ('insert', 'push_back', 'add', 'append', 'emplace', 'emplace_back') and e.value \
                    and is_idx(e.value[0]) and role(root, e.value[0]) in ('CL', 'CR'):
                self.inserts.append(e)
        if not self.inserts:
            return
        # the tree loop: the loop whose symbol is the first index of the children table
        v = self.inserts[0].value[0]
        self.b = v[2][0]
        tl = [l for l in self.inserts[0].loops if l.sym == self.b]
        self.treeloop = tl[0] if tl else None
        if self.treeloop is None:
            return
        self.ok = True

    def g(self, e):
        k = id(e)
        if k not in self.guards:
            self.guards[k] = membership(e.guard)
        return self.guards[k]


def walk_roots(env):
    """Functions that own the tree loop of a projected walk."""
    out = []
    for f in env.native_fns:
        roles = [env.roles().get((f, p)) for p in f.params]
        if not ({'CL', 'CR', 'FEAT', 'THR'} <= set(roles)):
            continue
        # cheap test: the function has a loop of its own and either inserts children or calls something that does
        if not any(isinstance(n, (ast.For, ast.While)) for n in walk_own(f.node)):
            continue
        if not touches_children(env, f):
            continue
        w = env.walk_inl(f)
        wf = WalkFacts(env, f, w)
        if wf.ok and wf.treeloop.node in set(walk_own(f.node)):
            out.append(wf)
    return out


def touches_children(env, f, seen=None):
    """f, or a helper it calls without a loop over trees of its own, indexes a children table."""
    seen = seen if seen is not None else set()
    if f in seen:
        return False
    seen.add(f)
    cp = {p for p in f.params if env.roles().get((f, p)) in ('CL', 'CR')}
    for n in walk_own(f.node):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id in cp:
            return True
    for n in walk_own(f.node):
        if isinstance(n, ast.Call):
            c = env.res.callee(f, n)
            if c and c[0].native and touches_children(env, c[0], seen):
                return True
    return False


# ------------------------------------------------------------------ canonical vocabulary of one walk
B, NODE, F, T, X, S_, C0, C1, P0, P1, D_ = [('n', '#' + k) for k in
                                            ('tree', 'node', 'f', 'thr', 'x', 'S', 'cond0', 'cond1', 'part0', 'part1', 'd')]
KNOWN = (B, NODE, F, T, X, S_, C0, C1, P0, P1, D_)


def refs(env, root, e):
    """(tree, node) pairs with which the FEAT table is read in expression e."""
    out = set()
    for t in subterms(e):
        if is_idx(t) and env.role_of(root, t) == 'FEAT' and len(t[2]) == 2:
            out.add(t[2])
    return out


class Vocab:
    """Replaces the terms of one walk step (tree b, node n) by the canonical vocabulary."""

    def __init__(self, wf, b, node, samples=(), written=(), xparams=()):
        self.wf, self.b, self.node, self.samples, self.written = wf, b, node, samples, written
        self.xparams = xparams

    def __call__(self, e):
        env, root = self.wf.env, self.wf.root
        role = env.role_of

        def f(t):
            if not (isinstance(t, tuple) and t):
                return None
            if is_idx(t):
                r = role(root, t)
                if r == 'FEAT' and t[2] == (self.b, self.node):
                    return F
                if r == 'THR' and t[2] == (self.b, self.node):
                    return T
                if t[2][-1] == F:
                    if any(s in t[2][:-1] for s in self.samples):
                        return D_
                    if t[1][0] == 'n' and t[1][1] not in self.written:
                        return X
                if len(t[2]) >= 2 and t[2][-1] in (('c', 0), ('c', 1)) and F in t[2][:-1] and t[1][0] == 'n':
                    k = t[2][-1][1]
                    if t[1][1] in self.written:
                        return (P0, P1)[k]
                    return (C0, C1)[k]
            if t[0] in ('in', 'notin') and t[1] == F:
                return (t[0], F, S_)
            return None
        e = subst(e, f)
        return subst(e, lambda t: NODE if t == self.node else None)


def lenient(a):
    """Atoms about iteration state and the number of survivors; they may guard a step."""
    ts = set(subterms(a))
    if any(k in ts for k in KNOWN if k not in (NODE,)):
        return False
    for t in ts:
        if isinstance(t, tuple) and t and t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in ('size', 'end', 'begin', 'empty'):
            return True
        if isinstance(t, tuple) and t and t[0] == 'n' and isinstance(t[1], str) and t[1].startswith('exc#'):
            return True
    return False


def decide(G, spec, assume=TRUE, mode='iff', limit=400000):
    """Is there a valuation of the lenient atoms under which, for every ordering of the known quantities and truth of the
    other atoms that satisfies `assume`, G <=> spec (or G => spec)?  -> (True, None) or (False, witness)."""
    import itertools
    A = Atoms()
    for x in (G, spec, assume):
        A.collect(x)
    lp = [p for p in A.pairs if lenient(('lt',) + p)]
    lb = [b for b in A.bools if lenient(b)]
    sp = [p for p in A.pairs if p not in lp]
    sb = [b for b in A.bools if b not in lb]
    if 3 ** len(A.pairs) * 2 ** len(A.bools) > limit:
        return None, 'too many atoms'
    wit = None
    for lo in itertools.product((-1, 0, 1), repeat=len(lp)):
        for lbv in itertools.product((False, True), repeat=len(lb)):
            good = True
            for so in itertools.product((-1, 0, 1), repeat=len(sp)):
                for sbv in itertools.product((False, True), repeat=len(sb)):
                    o = dict(zip(lp, lo))
                    o.update(zip(sp, so))
                    b = dict(zip(lb, lbv))
                    b.update(zip(sb, sbv))
                    if not ev(assume, o, b):
                        continue
                    g, s = ev(G, o, b), ev(spec, o, b)
                    if g != s if mode == 'iff' else (g and not s):
                        good = False
                        wit = (o, b, g, s)
                        break
                if not good:
                    break
            if good:
                return True, None
    o, b, g, s = wit
    txt = ', '.join(['%s %s %s' % (show(p[0]), '<=>'[v + 1], show(p[1])) for p, v in o.items()] +
                    ['%s%s' % ('' if v else 'not ', show(k)) for k, v in b.items()])
    return False, 'code %s, rule %s when %s' % (g, s, txt)


IN = ('in', F, S_)
XL, XR = ('le', X, T), ('lt', T, X)
CL_, CR_ = ('le', C1, T), ('lt', T, C0)
HASF = ('le', ('c', 0), F)
VALID = ('le', ('c', 0), NODE)
# a condition interval is never reversed (with the consequence for a threshold between its ends)
ORD = AND(('le', C0, C1), NOT(AND(CL_, CR_, ('lt', C1, C0))), NOT(AND(CL_, CR_)))


def spec_sides(family):
    """(goes left, goes right) of one step of a walk at an existing node."""
    both_cond = AND(NOT(IN), NOT(AND(HASF, OR(CL_, CR_))))
    if family == 'base':
        return OR(AND(IN, XL), NOT(IN)), OR(AND(IN, XR), NOT(IN))
    if family == 'cond':
        return (OR(AND(IN, XL), AND(NOT(IN), HASF, CL_), both_cond),
                OR(AND(IN, XR), AND(NOT(IN), HASF, CR_), both_cond))
    if family == 'intv':
        return (OR(IN, AND(NOT(IN), HASF, CL_), both_cond),
                OR(IN, AND(NOT(IN), HASF, CR_), both_cond))
    raise ValueError(family)
