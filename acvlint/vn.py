"""Value numbering of Python functions: every variable holds the expression it was computed from (over parameters,
attributes and calls), helpers are entered, branches are taken where the client can decide the test, joined otherwise.
Used for the wrappers, whose code is straight-line up to option tests; loops forget what they assign."""
import ast

from .ctx import Fn, dotted


class State:
    __slots__ = ('env', 'attrs', 'trace')

    def __init__(self, env, attrs=None, trace=()):
        self.env, self.attrs, self.trace = env, attrs or {}, trace

    def copy(self):
        return State(dict(self.env), dict(self.attrs), self.trace)


def phi(a, b):
    if a == b:
        return a
    if a[0] == 'tuple' and b[0] == 'tuple' and len(a) == len(b):
        return ('tuple',) + tuple(phi(x, y) for x, y in zip(a[1:], b[1:]))
    xs = (a[1:] if a[0] == 'phi' else (a,)) + (b[1:] if b[0] == 'phi' else (b,))
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return ('phi',) + tuple(out)


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    env = {}
    for k in set(a.env) | set(b.env):
        env[k] = phi(a.env.get(k, ('unset', k)), b.env.get(k, ('unset', k)))
    attrs = {}
    for k in set(a.attrs) | set(b.attrs):
        attrs[k] = phi(a.attrs.get(k, k_attr(k)), b.attrs.get(k, k_attr(k)))
    bt = set(b.trace)
    return State(env, attrs, tuple(t for t in a.trace if t in bt))


def k_attr(k):
    return ('attr',) + k


def alts(v):
    return v[1:] if v[0] == 'phi' else (v,)


def subs(v):
    yield v
    for x in v[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield from subs(x)
            else:
                for y in x:
                    if isinstance(y, tuple):
                        if y and isinstance(y[0], str) and len(y) == 2 and isinstance(y[1], tuple) and y[0].isidentifier() and \
                                y[0] not in KINDS:
                            yield from subs(y[1])
                        elif y and isinstance(y[0], str):
                            yield from subs(y)


KINDS = {'param', 'attr', 'call', 'idx', 'const', 'tuple', 'list', 'op', 'cmp', 'bool', 'not', 'phi', 'opaque', 'name', 'slice',
         'havoc', 'unset', 'comp', 'neg'}


def show(v):
    k = v[0]
    if k in ('param', 'name', 'unset'):
        return v[1]
    if k == 'const':
        return repr(v[1])
    if k == 'attr':
        return '%s.%s' % (show(v[1]), v[2])
    if k == 'call':
        return '%s(%s)' % (v[1] if isinstance(v[1], str) else show(v[1]), ', '.join([show(a) for a in v[2]] + ['%s=%s' % (p, show(a)) for p, a in v[3]]))
    if k == 'idx':
        return '%s[%s]' % (show(v[1]), show(v[2]))
    if k in ('tuple', 'list'):
        return '(%s)' % ', '.join(show(x) for x in v[1:])
    if k in ('op', 'cmp'):
        return '(%s %s %s)' % (show(v[2]), v[1], show(v[3]))
    if k == 'phi':
        return ' | '.join(show(x) for x in v[1:])
    return k


class VN:
    """decide(test value) -> True/False/None.  on_call(callee Fn or None, value, node, fn, state): observation."""

    def __init__(self, env, decide=None, enter=None, on_call=None, maxdepth=5):
        self.env, self.res = env, env.res
        self.decide = decide or (lambda t: None)
        self.enter = enter or (lambda fn, callee: False)
        self.on_call = on_call or (lambda *a: None)
        self.maxdepth = maxdepth
        self.stack = []
        self.uid = 0

    def run(self, fn, bind=None, state=None):
        """-> (value returned, state at return) joined over the normal exits; (None, None) if there is none."""
        st = State({p: ('param', p) for p in fn.params + fn.kwonly}, dict(state.attrs) if state else {}, state.trace if state else ())
        if bind:
            st.env.update(bind)
        self.stack.append((fn, []))
        end = self.block(fn.node.body, st)
        _, rets = self.stack.pop()
        if end is not None:
            rets.append((('const', None), end))
        out = (None, None)
        for v, s in rets:
            out = (v, s) if out[0] is None else (phi(out[0], v), join(out[1], s))
        return out

    @property
    def fn(self):
        return self.stack[-1][0]

    # ---- statements
    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        return m(s, st) if m else st

    def s_Expr(self, s, st):
        if not isinstance(s.value, ast.Constant):
            self.ev(s.value, st)
        return st

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)
        return st

    def s_AugAssign(self, s, st):
        v = ('op', type(s.op).__name__, self.ev(self.load(s.target), st), self.ev(s.value, st))
        self.assign(s.target, v, st)
        return st

    @staticmethod
    def load(t):
        import copy
        t = copy.copy(t)
        t.ctx = ast.Load()
        return t

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, ('opaque', self.new()), st)
                else:
                    self.assign(x, self.item(v, ('const', i)), st)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            st.attrs[(b, t.attr)] = v
        elif isinstance(t, ast.Subscript):
            b = t.value
            while isinstance(b, ast.Subscript):
                b = b.value
            old = self.ev(b, st)
            new = ('call', 'updated', (old, v), ())
            if isinstance(b, ast.Name):
                st.env[b.id] = new
            elif isinstance(b, ast.Attribute):
                st.attrs[(self.ev(b.value, st), b.attr)] = new

    @staticmethod
    def item(v, i):
        if v[0] in ('tuple', 'list') and i[0] == 'const' and isinstance(i[1], int) and not isinstance(i[1], bool) and -len(v) + 1 <= i[1] < len(v) - 1:
            return v[1:][i[1]]
        if v[0] == 'phi':
            out = None
            for x in v[1:]:
                y = VN.item(x, i)
                out = y if out is None else phi(out, y)
            return out
        return ('idx', v, i)

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else ('const', None)
        self.stack[-1][1].append((v, st))
        return None

    def s_Raise(self, s, st):
        if s.exc is not None:
            self.ev(s.exc, st)
        return None

    def s_Continue(self, s, st):
        return None

    s_Break = s_Continue

    def s_Assert(self, s, st):
        return st

    def truth(self, e, st):
        """Value of the test under the client's assumptions: True, False or None."""
        if isinstance(e, ast.BoolOp):
            vs = [self.truth(x, st) for x in e.values]
            if isinstance(e.op, ast.And):
                return False if False in vs else True if all(v is True for v in vs) else None
            return True if True in vs else False if all(v is False for v in vs) else None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.truth(e.operand, st)
            return None if v is None else not v
        return self.vtruth(self.ev(e, st))

    def vtruth(self, v):
        if v[0] == 'not':
            x = self.vtruth(v[1])
            return None if x is None else not x
        if v[0] == 'bool':
            vs = [self.vtruth(x) for x in v[2:]]
            if v[1] == 'And':
                return False if False in vs else True if all(x is True for x in vs) else None
            return True if True in vs else False if all(x is False for x in vs) else None
        if v[0] == 'const':
            return bool(v[1])
        if v[0] == 'cmp' and v[1] in ('Is', 'IsNot', 'Eq', 'NotEq') and v[3] == ('const', None):
            pos = v[1] in ('Is', 'Eq')
            if v[2] == ('const', None):
                return pos
            if v[2][0] in ('call', 'list', 'tuple', 'op', 'comp') or (v[2][0] == 'const'):
                return not pos
        return self.decide(v)

    def s_If(self, s, st):
        t = self.truth(s.test, st)
        if t is True:
            return self.block(s.body, st)
        if t is False:
            return self.block(s.orelse, st)
        a = self.block(s.body, st.copy())
        b = self.block(s.orelse, st.copy())
        return join(a, b)

    def assigned(self, node):
        names, attrs = set(), set()
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                attrs.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                    n.func.attr in ('append', 'extend', 'insert', 'pop', 'remove', 'update', 'add'):
                names.add(n.func.value.id)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                b = n.value
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(b, ast.Name):
                    names.add(b.id)
        return names, attrs

    def new(self):
        self.uid += 1
        return self.uid

    def loop(self, s, st):
        c = self.collecting(s, st)
        if c is not None:
            st.env[c[0]] = c[1]
            return st
        names, attrs = self.assigned(s)
        for k in names:
            st.env[k] = ('havoc', k, self.new())
        for k in list(st.attrs):
            if k[1] in attrs:
                st.attrs[k] = ('havoc', k[1], self.new())
        b = st.copy()
        if isinstance(s, ast.For):
            it = self.ev(s.iter, b)
            self.assign(s.target, ('idx', it, ('havoc', 'it', self.new())), b)
        b = self.block(s.body, b)
        for k in names:
            st.env[k] = ('havoc', k, self.new())
        if s.orelse:
            st = self.block(s.orelse, st)
        return st

    def collecting(self, s, st):
        """`for x in IT: acc.append(e)` (or acc += [e]) from an empty list is the list comprehension [e for x in IT]."""
        if not isinstance(s, ast.For) or s.orelse or len(s.body) != 1 or not isinstance(s.target, ast.Name):
            return None
        b = s.body[0]
        if isinstance(b, ast.AugAssign) and isinstance(b.op, ast.Add) and isinstance(b.target, ast.Name) and \
                isinstance(b.value, ast.List) and len(b.value.elts) == 1:
            acc, e = b.target.id, b.value.elts[0]
        elif isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) and \
                b.value.func.attr == 'append' and isinstance(b.value.func.value, ast.Name) and len(b.value.args) == 1:
            acc, e = b.value.func.value.id, b.value.args[0]
        else:
            return None
        if st.env.get(acc) != ('list',) or any(isinstance(n, ast.Name) and n.id == acc for n in ast.walk(e)):
            return None
        v = self.comp(ast.ListComp(e, [ast.comprehension(s.target, s.iter, [], 0)]), st, [e])
        st.env[s.target.id] = ('havoc', s.target.id, self.new())
        return acc, v

    def s_For(self, s, st):
        self.ev(s.iter, st)
        return self.loop(s, st)

    def s_While(self, s, st):
        if self.truth(s.test, st) is False:
            return st
        return self.loop(s, st)

    def s_With(self, s, st):
        for i in s.items:
            v = self.ev(i.context_expr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st)
        return self.block(s.body, st)

    def s_Try(self, s, st):
        before = st.copy()
        end = self.block(s.body, st)
        if end is not None and s.orelse:
            end = self.block(s.orelse, end)
        names, attrs = self.assigned(ast.Module(s.body, []))
        for h in s.handlers:
            x = before.copy()
            for k in names:
                x.env[k] = ('havoc', k, self.new())
            if h.name:
                x.env[h.name] = ('opaque', self.new())
            end = join(end, self.block(h.body, x))
        if s.finalbody and end is not None:
            end = self.block(s.finalbody, end)
        return end

    def s_FunctionDef(self, s, st):
        return st

    # ---- expressions
    def ev(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m:
            return m(e, st)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, st)
        return ('opaque', self.new())

    def e_Constant(self, e, st):
        return ('const', e.value)

    def e_Name(self, e, st):
        return st.env.get(e.id, ('name', e.id))

    def e_Attribute(self, e, st):
        b = self.ev(e.value, st)
        return st.attrs.get((b, e.attr), ('attr', b, e.attr))

    def e_Subscript(self, e, st):
        return self.item(self.ev(e.value, st), self.ev(e.slice, st))

    def e_Slice(self, e, st):
        return ('slice',) + tuple(self.ev(x, st) if x is not None else ('const', None) for x in (e.lower, e.upper, e.step))

    def e_Index(self, e, st):
        return self.ev(e.value, st)

    def e_Tuple(self, e, st):
        return ('tuple',) + tuple(self.ev(x, st) for x in e.elts)

    def e_List(self, e, st):
        return ('list',) + tuple(self.ev(x, st) for x in e.elts)

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            return ('not', v)
        if isinstance(e.op, ast.USub):
            if v[0] == 'const' and isinstance(v[1], (int, float)):
                return ('const', -v[1])
            return ('neg', v)
        if isinstance(e.op, ast.Invert):
            return ('un', 'Invert', v)
        return v

    def e_BinOp(self, e, st):
        return ('op', type(e.op).__name__, self.ev(e.left, st), self.ev(e.right, st))

    def e_BoolOp(self, e, st):
        return ('bool', type(e.op).__name__) + tuple(self.ev(x, st) for x in e.values)

    def e_Compare(self, e, st):
        vs = [self.ev(x, st) for x in [e.left] + e.comparators]
        if len(e.ops) == 1:
            op, a, b = type(e.ops[0]).__name__, vs[0], vs[1]
            flip = {'Gt': 'Lt', 'GtE': 'LtE'}
            if op in flip:
                return ('cmp', flip[op], b, a)
            if op in ('Is', 'IsNot', 'Eq', 'NotEq') and a[0] == 'const' and b[0] != 'const':
                a, b = b, a
            return ('cmp', op, a, b)
        return ('bool', 'And') + tuple(('cmp', type(o).__name__, vs[i], vs[i + 1]) for i, o in enumerate(e.ops))

    def e_IfExp(self, e, st):
        t = self.truth(e.test, st)
        if t is True:
            return self.ev(e.body, st)
        if t is False:
            return self.ev(e.orelse, st)
        return phi(self.ev(e.body, st), self.ev(e.orelse, st))

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st)
        return v

    def comp(self, e, st, elts):
        b = st.copy()
        gens = []
        for g in e.generators:
            it = self.ev(g.iter, b)
            self.assign(g.target, ('elem', it, ('const', len(gens))), b)
            gens.append(it)
            for c in g.ifs:
                gens.append(('if', self.ev(c, b)))
        return ('comp', type(e).__name__, tuple(gens), tuple(self.ev(x, b) for x in elts))

    def e_ListComp(self, e, st):
        return self.comp(e, st, [e.elt])

    e_SetComp = e_ListComp
    e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, st):
        return self.comp(e, st, [e.key, e.value])

    def e_Starred(self, e, st):
        return ('star', self.ev(e.value, st))

    def e_Lambda(self, e, st):
        return ('opaque', self.new())

    def e_Call(self, e, st):
        c = self.res.callee(self.fn, e)
        args = tuple(self.ev(a, st) for a in e.args)
        kws = tuple(sorted(((k.arg or '**', self.ev(k.value, st)) for k in e.keywords), key=lambda x: x[0]))
        if c is not None:
            cf, bnd = c
            m, problems, exact = self.res.bind(cf, bnd, e)
            cm = {}
            at = {id(a): v for a, v in zip(e.args, args)}
            at.update({id(k.value): v for k, v in zip(sorted(e.keywords, key=lambda k: k.arg or '**'), [v for _, v in kws])})
            for p, a in m.items():
                cm[p] = at.get(id(a)) or self.ev(a, st)
            for p, d in cf.defaults().items():
                if p not in cm:
                    cm[p] = self.ev(d, State({}))
            if bnd and cf.params:
                cm[cf.params[0]] = self.ev(e.func.value, st) if isinstance(e.func, ast.Attribute) else ('opaque', self.new())
            v = ('call', cf.qual, tuple(cm.get(p, ('unset', p)) for p in cf.params), ())
            self.on_call(cf, cm, e, self.fn, st)
            if exact and not problems and not cf.native and len(self.stack) <= self.maxdepth and cf not in [f for f, _ in self.stack] and self.enter(self.fn, cf):
                rv, rs = self.run(cf, cm, st)
                if rv is None:
                    return ('opaque', self.new())      # never returns; the caller's continuation is kept (may)
                st.attrs, st.trace = rs.attrs, rs.trace
                return rv
            st.trace = st.trace + (v,)
            return v
        fv = self.ev(e.func, st)
        name = dotted(e.func) or ''
        v = ('call', fv, args, kws)
        if isinstance(e.func, ast.Attribute) and e.func.attr in ('append', 'extend', 'insert', 'sort', 'pop', 'update', 'add', 'remove') and \
                isinstance(e.func.value, ast.Name) and e.func.value.id in st.env:
            st.env[e.func.value.id] = ('call', 'updated', (st.env[e.func.value.id],) + args, ())
        self.on_call(None, v, e, self.fn, st)
        st.trace = st.trace + (v,)
        return v
