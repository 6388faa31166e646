"""What a function may do to the objects it is given: alias and write effects, from the syntax trees.

A value is a set of (root, level): root a parameter of the function (or attribute of self), level 0 the object itself or a view of its
memory, level 1 a new container that holds its elements.  Summaries: parameters whose objects may be written (with the
construct), and what the value returned may share with the parameters."""
import ast

from .ctx import walk_own

MUT = {'append', 'remove', 'sort', 'fill', 'resize', 'pop', 'insert', 'extend', 'clear', 'update', 'setdefault', 'itemset', 'put', 'partition',
       'reverse', 'push_back', 'erase', 'assign', 'discard', 'add', 'popitem', 'byteswap', 'setflags', 'pop_back'}
SAME = {'asarray', 'asanyarray', 'ascontiguousarray', 'check_array', 'column_or_1d', 'ravel', 'squeeze', 'reshape', 'expand_dims', 'atleast_1d',
        'atleast_2d', 'transpose', 'tqdm', 'reversed', 'enumerate', 'zip', 'iter', 'swapaxes', 'moveaxis', 'broadcast_to', 'asfortranarray'}
METH_SAME = {'reshape', 'ravel', 'squeeze', 'transpose', 'view', 'swapaxes', 'items', 'values', 'get', 'diagonal', '__getitem__'}
SHALLOW = {'list', 'tuple', 'sorted', 'set', 'dict'}
OUT_FIRST = {'shuffle', 'put', 'place', 'copyto', 'fill_diagonal', 'putmask', 'put_along_axis', 'heapify', 'heappush', 'heappop'}
INPLACE_KW = {'inplace'}
EMPTY = frozenset()
# `name += ...` reached only after `name` was bound to a new list, by two loops with the same test (path-insensitive here)
IMPRECISE = {('py_acv:shap_values_acv_leaves', 'S_star')}


class Effects:
    def __init__(self, env):
        self.env, self.memo, self.open = env, {}, set()

    def of(self, f):
        """{root: (fn, node, text)} written, value returned"""
        if f.qual in self.memo:
            return self.memo[f.qual]
        if f.qual in self.open:
            return {}, EMPTY
        self.open.add(f.qual)
        a = Scan(self, f)
        a.run()
        self.open.discard(f.qual)
        self.memo[f.qual] = (a.written, a.ret)
        return self.memo[f.qual]


def down(v):
    """Elements."""
    return frozenset((r, max(l - 1, 0)) for r, l in v)


def up(v):
    """A new container of it."""
    return frozenset((r, min(l + 1, 3)) for r, l in v)


class Scan:
    def __init__(self, eff, f):
        self.eff, self.f = eff, f
        self.written, self.ret = {}, EMPTY
        self.const = {p for p in f.params if 'const' in f.ctypes.get(p, '')}
        t = f.ctypes
        self.copied = {p for p in t if f.native and 'vector' in t[p] and '&' not in t[p]}     # C++ containers are copies
        self.scalar = self.copied | {p for p in list(f.params) + list(t) if f.native and p in t and '[' not in t[p] and 'list' not in t[p] and t[p].strip() not in ('object', 'dict', '')}

    def run(self):
        st = {p: frozenset({(p, 0)}) for p in self.f.params + self.f.kwonly if p not in self.copied}
        for x in (self.f.vararg, self.f.kwarg):
            if x:
                st[x] = frozenset({(x, 1)})
        self.block(self.f.node.body, st)

    # ---- writes
    def write(self, v, node, what):
        for r, l in v:
            if l == 0 and r not in self.written and r != self.f.selfname and r not in self.scalar:
                self.written[r] = (self.f, node, what)

    # ---- statements
    def block(self, body, st):
        for s in body:
            self.stmt(s, st)

    def merge(self, st, *others):
        for o in others:
            for k, v in o.items():
                st[k] = st.get(k, EMPTY) | v

    def stmt(self, s, st):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, st)
            for t in s.targets:
                self.bind(t, v, st, s)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, st), st, s)
        elif isinstance(s, ast.AugAssign):
            self.ev(s.value, st)
            if isinstance(s.target, ast.Name):
                if not self.f.native:
                    self.write(frozenset(x for x in st.get(s.target.id, EMPTY) if (self.f.qual, x[0]) not in IMPRECISE), s, '%s %s= ...' % (s.target.id, sym(s.op)))
            elif isinstance(s.target, ast.Attribute):
                self.write(self.ev(s.target, st), s, '%s %s= ...' % (ast.unparse(s.target), sym(s.op)))
            else:
                self.store(s.target, EMPTY, st, s)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            v = down(self.ev(s.iter, st))
            for _ in range(2):
                b = dict(st)
                self.bind(s.target, v, b, s)
                self.block(s.body, b)
                self.merge(st, b)
            self.block(s.orelse, st)
        elif isinstance(s, ast.While):
            self.ev(s.test, st)
            for _ in range(2):
                b = dict(st)
                self.block(s.body, b)
                self.merge(st, b)
        elif isinstance(s, ast.If):
            self.ev(s.test, st)
            a, b = dict(st), dict(st)
            self.block(s.body, a)
            self.block(s.orelse, b)
            st.clear()
            if ends(s.body) and not ends(s.orelse):
                a = {}
            elif ends(s.orelse) and s.orelse and not ends(s.body):
                b = {}
            self.merge(st, a, b)
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr, st)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, st, s)
            self.block(s.body, st)
        elif isinstance(s, ast.Try):
            b = dict(st)
            self.block(s.body, b)
            self.merge(st, b)
            for h in s.handlers:
                b = dict(st)
                self.block(h.body, b)
                self.merge(st, b)
            self.block(s.orelse, st)
            self.block(s.finalbody, st)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.ret = self.ret | self.ev(s.value, st)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.write(self.ev(t.value, st), s, 'del %s' % ast.unparse(t))
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            pass
        else:
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.expr):
                    self.ev(x, st)

    def bind(self, t, v, st, s):
        if isinstance(t, ast.Name):
            st[t.id] = v if t.id not in self.copied else EMPTY
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, down(v), st, s)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, st, s)
        else:
            self.store(t, v, st, s)

    def store(self, t, v, st, s):
        if isinstance(t, ast.Subscript):
            self.ev(t.slice, st)
            base = self.ev(t.value, st)
            self.write(base, s, '%s = ...' % ast.unparse(t))
            b = t.value
            while isinstance(b, ast.Subscript):
                b = b.value
            if isinstance(b, ast.Name) and not self.f.native:
                st[b.id] = st.get(b.id, EMPTY) | up(v)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            if not (isinstance(t.value, ast.Name) and t.value.id == self.f.selfname):
                self.write(base, s, '%s = ...' % ast.unparse(t))
            else:
                st['self.' + t.attr] = v

    # ---- expressions
    def ev(self, e, st):
        if e is None:
            return EMPTY
        if isinstance(e, ast.Name):
            return st.get(e.id, EMPTY)
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == self.f.selfname:
                return st.get('self.' + e.attr, frozenset({('self.' + e.attr, 0)}))
            v = self.ev(e.value, st)
            return v if e.attr in ('T', 'values', 'flat', 'iloc', 'loc', 'base', 'real') else EMPTY if e.attr in ('shape', 'size', 'dtype', 'ndim') else v
        if isinstance(e, ast.Subscript):
            self.ev(e.slice, st)
            v = self.ev(e.value, st)
            if fancy(e.slice):
                return frozenset((r, 1) for r, l in v if l) if all(l for r, l in v) else EMPTY
            return down(v)
        if isinstance(e, ast.Call):
            return self.call(e, st)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            out = EMPTY
            for x in e.elts:
                out |= up(self.ev(x, st))
            return out
        if isinstance(e, ast.IfExp):
            self.ev(e.test, st)
            return self.ev(e.body, st) | self.ev(e.orelse, st)
        if isinstance(e, ast.BoolOp):
            out = EMPTY
            for x in e.values:
                out |= self.ev(x, st)
            return out
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            b = dict(st)
            for g in e.generators:
                self.bind(g.target, down(self.ev(g.iter, b)), b, g)
                for c in g.ifs:
                    self.ev(c, b)
            return up(self.ev(e.elt, b))
        if isinstance(e, ast.Starred):
            return self.ev(e.value, st)
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, st), self.ev(e.right, st)
            return frozenset((r, 1) for r, l in a | b if l) if isinstance(e.op, ast.Add) else EMPTY
        if isinstance(e, (ast.Lambda,)):
            return EMPTY
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x, st)
        return EMPTY

    def call(self, e, st):
        args = [self.ev(a, st) for a in e.args]
        kws = {k.arg: self.ev(k.value, st) for k in e.keywords}
        name = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ''
        res = self.eff.env.res
        try:
            c = res.callee(self.f, e)
        except RecursionError:
            c = None
        if c is None and self.f.native and isinstance(e.func, ast.Name) and e.func.id in self.f.mod.funcs:
            c = (self.f.mod.funcs[e.func.id], False)
        if c is not None and c[0] is not None:
            g, bound = c
            m, _, _ = res.bind(g, bound, e)
            w, ret = self.eff.of(g)
            vals = {p: self.ev(a, st) for p, a in m.items()}
            for r, (fn, node, what) in w.items():
                if r in vals:
                    self.via(vals[r], e, fn, node, what)
                elif r.startswith('self.') and bound and self.own(e.func):
                    self.via(st.get(r, frozenset({(r, 0)})), e, fn, node, what)
            if g.name == '__init__' and not self.own(e.func):
                return EMPTY
            out = EMPTY
            for r, l in ret:
                if r in vals:
                    for r2, l2 in vals[r]:
                        out |= {(r2, min(l + l2, 3))}
            return out
        for k in e.keywords:
            if k.arg == 'out':
                self.write(kws['out'], e, ast.unparse(e)[:80])
            if k.arg in INPLACE_KW and isinstance(k.value, ast.Constant) and k.value.value and isinstance(e.func, ast.Attribute):
                self.write(self.ev(e.func.value, st), e, ast.unparse(e)[:80])
        if isinstance(e.func, ast.Attribute):
            lib = isinstance(e.func.value, ast.Name) and e.func.value.id in ('np', 'numpy', 'pd', 'random') or \
                isinstance(e.func.value, ast.Attribute) and ast.unparse(e.func.value) in ('np.random', 'np.linalg')
            if lib:
                if name in OUT_FIRST and args:
                    self.write(args[0], e, ast.unparse(e)[:80])
                if name in SAME and args:
                    return args[0]
                if name == 'array' and args and any(k.arg == 'copy' and isinstance(k.value, ast.Constant) and k.value.value is False for k in e.keywords):
                    return args[0]
                return EMPTY
            base = self.ev(e.func.value, st)
            if name in MUT:
                self.write(base, e, ast.unparse(e)[:80])
                if isinstance(e.func.value, ast.Name) and args:
                    st[e.func.value.id] = st.get(e.func.value.id, EMPTY) | up(args[-1])
                return down(base) if name == 'pop' else EMPTY
            if name == 'copy':
                return frozenset((r, max(l, 1)) for r, l in base)
            if name == 'astype' and any(k.arg == 'copy' and isinstance(k.value, ast.Constant) and k.value.value is False for k in e.keywords):
                return base
            if name in METH_SAME:
                return base
            return EMPTY
        if name in SHALLOW and args:
            return frozenset((r, max(l, 1)) for r, l in args[0])
        if name in SAME and args:
            out = EMPTY
            for a in args:
                out |= a
            return up(out) if name in ('zip', 'enumerate') else out
        if name == 'check_X_y':
            return up(frozenset().union(*args[:2])) if args else EMPTY
        return EMPTY

    def own(self, func):
        return isinstance(func, ast.Attribute) and isinstance(func.value, ast.Name) and func.value.id == self.f.selfname or \
            isinstance(func, ast.Attribute) and isinstance(func.value, ast.Call)

    def via(self, v, e, fn, node, what):
        for r, l in v:
            if l == 0 and r not in self.written and r != self.f.selfname and r not in self.scalar:
                self.written[r] = (fn, node, what)


def fancy(s):
    """A subscript that copies a numpy array: a list, a comparison or a call as index."""
    return isinstance(s, (ast.List, ast.ListComp, ast.Compare)) or isinstance(s, ast.Tuple) and any(isinstance(x, (ast.List, ast.ListComp, ast.Compare)) for x in s.elts)


def sym(op):
    return {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/'}.get(type(op).__name__, type(op).__name__)


def ends(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
