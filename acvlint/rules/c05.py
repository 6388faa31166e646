"""A parallel loop computes what its sequential reading computes, whatever the number of threads and the schedule.  For every
prange of the native kernels, from the syntax tree alone: an array (or vector) that is written is indexed, in every access of the
loop, by the loop variable at one and the same place, so that two iterations never touch the same entry (arrays handed
to a function that writes them included); a scalar, which Cython makes private to the thread, is assigned in the same
iteration before it is read; after the loop only scalars with the value of the last iteration are read, never one that
Cython turned into a reduction although the loop resets it."""
import ast

MUTATE = {'push_back', 'pop_back', 'clear', 'erase', 'insert', 'resize', 'assign', 'swap', 'append', 'remove', 'extend', 'pop', 'sort'}


def check(env, r):
    byname = {}
    for f in env.native_fns:
        byname.setdefault((f.mod, f.name), f)
    eff = Effects(byname)
    for f in env.native_fns:
        ps = [n for n in ast.walk(f.node) if is_prange(n)]
        if not ps:
            continue
        r.unit(f)
        for n in ps:
            loop(r, f, n, eff)
        after(r, f, ps)
    pools(env, r)
    r.floor('entries-of-the-iteration', 40)
    r.floor('assigned-before-read', 200)
    r.floor('callee-writes-own-entries', 20)
    r.floor('pool-keeps-order', 1)


def pools(env, r):
    """Results of a process pool are taken in the order of what was handed out."""
    for f in env.ctx.fns:
        if f.native:
            continue
        made = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and last(n.value.func) in ('Pool', 'ThreadPool', 'ThreadPoolExecutor', 'ProcessPoolExecutor'):
                made |= {t.id for t in n.targets if isinstance(t, ast.Name)}
            if isinstance(n, ast.withitem) and isinstance(n.context_expr, ast.Call) and isinstance(n.optional_vars, ast.Name) and last(n.context_expr.func) in ('Pool', 'ThreadPool'):
                made.add(n.optional_vars.id)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in made \
                    and n.func.attr in ('map', 'imap', 'starmap', 'imap_unordered', 'apply_async', 'map_async', 'starmap_async'):
                r.unit(f)
                r.ob('pool-keeps-order', '%s.%s' % (f.qual, n.func.attr), f.loc(n), n.func.attr != 'imap_unordered',
                     'the results come in the order in which the processes finish, not in that of the samples')


def last(e):
    return e.attr if isinstance(e, ast.Attribute) else getattr(e, 'id', '')


def is_prange(n):
    return isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and (
        isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'prange' or
        isinstance(n.iter.func, ast.Attribute) and n.iter.func.attr == 'prange')


def chain(n):
    """(base name, [index nodes]) of a[i, j][k]; None if the base is not a name."""
    idx = []
    while isinstance(n, ast.Subscript):
        s = n.slice
        idx = (list(s.elts) if isinstance(s, ast.Tuple) else [s]) + idx
        n = n.value
    return (n.id, idx) if isinstance(n, ast.Name) else (None, idx)


class Effects:
    """Parameters that a native function writes."""

    def __init__(self, byname):
        self.byname, self.memo = byname, {}

    def callee(self, f, call):
        return self.byname.get((f.mod, call.func.id)) if isinstance(call.func, ast.Name) else None

    def writes(self, f):
        if f.qual in self.memo:
            return self.memo[f.qual]
        self.memo[f.qual] = set()
        out = set()
        for n in ast.walk(f.node):
            for b, idx, _ in stores(n):
                if b in f.params and (idx or kind(f, b) != 'scalar'):
                    out.add(b)
            if isinstance(n, ast.Call):
                g = self.callee(f, n)
                if g is not None and g is not f:
                    w = self.writes(g)
                    for p, a in bound(g, n):
                        b = chain(a)[0]
                        if p in w and b in f.params:
                            out.add(b)
        self.memo[f.qual] = out
        return out


def bound(g, call):
    out = list(zip(g.params, call.args))
    out += [(k.arg, k.value) for k in call.keywords]
    return out


def kind(f, name):
    t = f.ctypes.get(name, '')
    return 'array' if '[' in t else 'scalar'


def stores(n):
    """(base, indices, node) of what a node writes in place."""
    if isinstance(n, ast.Assign):
        ts = [x for t in n.targets for x in (t.elts if isinstance(t, ast.Tuple) else [t])]
    elif isinstance(n, ast.AugAssign):
        ts = [n.target]
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATE:
        b, idx = chain(n.func.value)
        return [(b, idx, n)] if b else []
    else:
        return []
    out = []
    for t in ts:
        b, idx = chain(t)
        if b and (idx or isinstance(t, ast.Name)):
            out.append((b, idx, t))
    return out


class Own:
    """Is an index different in every iteration of the parallel loop?"""

    def __init__(self, f, loop):
        self.var = loop.target.id
        self.written, self.assigned = set(), {}
        for n in ast.walk(loop):
            for b, idx, _ in stores(n):
                if idx or kind(f, b) == 'array':
                    self.written.add(b)
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.assigned.setdefault(t.id, []).append(n.value)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                self.assigned.setdefault(n.target.id, []).append(None)
            elif isinstance(n, ast.For) and n is not loop:
                for t in ast.walk(n.target):
                    if isinstance(t, ast.Name):
                        self.assigned.setdefault(t.id, []).append(None)

    def fixed(self, e):
        return all(x.id != self.var and x.id not in self.assigned and x.id not in self.written
                   for x in ast.walk(e) if isinstance(x, ast.Name)) and not any(isinstance(x, ast.Call) for x in ast.walk(e))

    def term(self, e, depth=0):
        """Canonical text of an index that no two iterations share, else None."""
        if isinstance(e, ast.Name):
            if e.id == self.var:
                return '#'
            v = self.assigned.get(e.id)
            if v and len(v) == 1 and v[0] is not None and depth < 4:
                return self.term(v[0], depth + 1)
            return None
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
            for a, b, flip in ((e.left, e.right, False), (e.right, e.left, True)):
                if self.fixed(b) and not (flip and isinstance(e.op, ast.Sub)):
                    t = self.term(a, depth)
                    if t:
                        return '%s%s%s' % (t, '+' if isinstance(e.op, ast.Add) else '-', ast.unparse(b))
            return None
        if isinstance(e, ast.Subscript):
            b, idx = chain(e)
            if b and b not in self.written and b not in self.assigned and len(idx) == 1:     # a list of rows, each once
                t = self.term(idx[0], depth)
                return '%s[%s]' % (b, t) if t else None
        if isinstance(e, ast.Call) and len(e.args) == 1 and isinstance(e.func, ast.Name) and e.func.id in ('int', 'long'):
            return self.term(e.args[0], depth)
        return None


def loop(r, f, n, eff):
    own = Own(f, n)
    tag = '%s/%s' % (f.qual, n.target.id)
    # ---- shared arrays
    access, wr = {}, {}
    callargs = set()
    for x in inside(n):
        if isinstance(x, ast.Call):
            g = eff.callee(f, x)
            if g is None:
                continue
            w = eff.writes(g)
            for p, a in bound(g, x):
                b, idx = chain(a)
                if p in w and b is not None and (idx or kind(f, b) == 'array'):
                    r.ob('callee-writes-own-entries', '%s %s->%s.%s' % (f.qual, ast.unparse(a), g.name, p), f.loc(x),
                         any(own.term(i) for i in idx),
                         'the parallel loop over %s hands %s to %s, which writes it: two iterations write the same memory'
                         % (n.target.id, ast.unparse(a), g.name))
                    wr.setdefault(b, []).append(x)
    for x in inside(n):
        for b, idx, t in stores(x):
            if idx or kind(f, b) == 'array':
                wr.setdefault(b, []).append(t)
    outer = {id(y.value) for x in inside(n) for y in [x] if isinstance(y, ast.Subscript)}
    attr = {id(x.value) for x in inside(n) if isinstance(x, ast.Attribute) and x.attr in ('shape', 'size')}
    for x in inside(n):
        if isinstance(x, (ast.Subscript, ast.Name)) and id(x) not in outer and id(x) not in attr:
            b, idx = chain(x)
            if b in wr:
                access.setdefault(b, []).append((idx, x))
    for b in sorted(wr):
        common, bad = None, None
        for idx, x in access.get(b, []):
            terms = {(i, own.term(e)) for i, e in enumerate(idx) if not isinstance(e, ast.Slice) and own.term(e)}
            common = terms if common is None else common & terms
            if not common and bad is None:
                bad = x
        r.ob('entries-of-the-iteration', '%s %s' % (tag, b), f.loc(bad if bad is not None else n), bool(common),
             'the parallel loop over %s writes %s and accesses it as %s: iterations share its entries, the result depends on '
             'the schedule' % (n.target.id, b, ast.unparse(bad) if bad is not None else b))
    # ---- private scalars
    scal = set()
    plain = set()
    for x in inside(n):
        if isinstance(x, ast.For):
            scal |= {t.id for t in ast.walk(x.target) if isinstance(t, ast.Name)}
            plain |= {t.id for t in ast.walk(x.target) if isinstance(t, ast.Name)}
        for b, idx, t in stores(x):
            if not idx and kind(f, b) == 'scalar':
                scal.add(b)
                if isinstance(x, ast.Assign):
                    plain.add(b)
    fl = Flow(scal, scal - plain)
    fl.block(n.body, frozenset())
    bad = {}
    for v, x in fl.bad:
        bad.setdefault(v, x)
    for v in sorted(scal):
        r.ob('assigned-before-read', '%s %s' % (tag, v), f.loc(bad.get(v, n)), v not in bad,
             '%s is private to each thread of the parallel loop over %s but read before this iteration assigns it: its value '
             'comes from whatever iteration the thread ran before' % (v, n.target.id))


def inside(n):
    for s in n.body:
        yield from ast.walk(s)


class Flow:
    """Definite assignment of the given names within one iteration."""

    def __init__(self, names, sums=frozenset()):
        self.names, self.sums, self.bad, self.ends, self.breaks = names, sums, [], [], []

    def reads(self, e, st):
        if e is None:
            return
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in self.names and x.id not in st:
                self.bad.append((x.id, x))

    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if isinstance(s, ast.Assign):
            self.reads(s.value, st)
            for t in s.targets:
                for x in (t.elts if isinstance(t, ast.Tuple) else [t]):
                    if isinstance(x, ast.Name):
                        st = st | {x.id}
                    else:
                        self.reads(x, st)
            return st
        if isinstance(s, ast.AugAssign):
            self.reads(s.value, st)
            if isinstance(s.target, ast.Name):
                if s.target.id in self.names and s.target.id not in st and s.target.id not in self.sums:
                    self.bad.append((s.target.id, s))
            else:
                self.reads(s.target, st)
            return st
        if isinstance(s, ast.If):
            self.reads(s.test, st)
            return both(self.block(s.body, st), self.block(s.orelse, st))
        if isinstance(s, ast.For):
            self.reads(s.iter, st)
            inner = st | {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
            keep = self.ends
            self.ends = []
            self.block(s.body, inner)
            self.ends = keep
            return self.block(s.orelse, st) if s.orelse else st
        if isinstance(s, ast.While):
            self.reads(s.test, st)
            keep, kept = self.ends, self.breaks
            self.ends, self.breaks = [], []
            self.block(s.body, st)
            out = self.breaks
            self.ends, self.breaks = keep, kept
            if isinstance(s.test, ast.Constant) and s.test.value:
                end = None
                for e in out:
                    end = both(end, e)
                return end
            return st
        if isinstance(s, (ast.Continue, ast.Break)):
            (self.ends if isinstance(s, ast.Continue) else self.breaks).append(st)
            return None
        if isinstance(s, (ast.Return, ast.Raise)):
            self.reads(getattr(s, 'value', None) or getattr(s, 'exc', None), st)
            return None
        if isinstance(s, (ast.With, ast.Try)):
            return self.block(s.body, st)
        for x in ast.iter_child_nodes(s):
            self.reads(x, st)
        return st


def both(a, b):
    return b if a is None else a if b is None else a & b


def after(r, f, ps):
    """May a scalar whose value after a parallel loop is not that of the last iteration be read later?"""
    dirty = {}
    for n in ps:
        plain, aug = set(), set()
        for x in inside(n):
            for b, idx, t in stores(x):
                if not idx and kind(f, b) == 'scalar':
                    (aug if isinstance(x, ast.AugAssign) else plain).add(b)
            if isinstance(x, ast.For):
                plain |= {t.id for t in ast.walk(x.target) if isinstance(t, ast.Name)}
        fl = Flow(plain)
        end = fl.block(n.body, frozenset())
        for e in fl.ends:
            end = both(end, e)
        sure = end if end is not None else plain
        dirty[id(n)] = frozenset((plain & aug) | {v for v in plain if v not in sure})
    fl = Taint(dirty)
    fl.block(f.node.body, frozenset())
    bad = {}
    for v, x in fl.bad:
        bad.setdefault(v, x)
    for v in sorted(set().union(*dirty.values())):
        r.ob('not-read-after', '%s %s' % (f.qual, v), f.loc(bad.get(v)), v not in bad,
             '%s is read after a parallel loop that leaves in it a sum over the threads, or the value of an unknown iteration' % v)


class Taint:
    def __init__(self, dirty):
        self.dirty, self.bad = dirty, []

    def reads(self, e, st):
        if e is None:
            return
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in st:
                self.bad.append((x.id, x))

    def block(self, body, st):
        for s in body:
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if isinstance(s, ast.Assign):
            self.reads(s.value, st)
            for t in s.targets:
                for x in (t.elts if isinstance(t, ast.Tuple) else [t]):
                    if isinstance(x, ast.Name):
                        st = st - {x.id}
                    else:
                        self.reads(x, st)
            return st
        if isinstance(s, ast.AugAssign):
            self.reads(s.value, st)
            self.reads(ast.Name(s.target.id, ast.Load()) if isinstance(s.target, ast.Name) else s.target, st)
            return st
        if isinstance(s, ast.If):
            self.reads(s.test, st)
            return self.block(s.body, st) | self.block(s.orelse, st)
        if isinstance(s, (ast.For, ast.While)):
            self.reads(s.iter if isinstance(s, ast.For) else s.test, st)
            tg = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)} if isinstance(s, ast.For) else set()
            if id(s) in self.dirty:
                # the private copies inside are judged by the definite assignment of the loop
                return (st - tg) | self.dirty[id(s)]
            a = self.block(s.body, st - tg)
            self.block(s.body, (st | a) - tg)
            return self.block(s.orelse, st | a)
        if isinstance(s, (ast.With, ast.Try)):
            st = self.block(s.body, st)
            for h in getattr(s, 'handlers', []):
                st = st | self.block(h.body, st)
            return st
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return st
        for x in ast.iter_child_nodes(s):
            self.reads(x, st)
        return st
