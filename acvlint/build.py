"""Value numbering with lists and arrays that loops build.  A loop whose body appends one element per iteration makes a `map`, a
list appended to in an inner loop a `flat` map, an array written at the loop variable a `fill`; what a loop only assigns is its
`last` value.  Indexing a map gives its element.  Iterating over a list is iterating over its positions."""
import ast

from .ctx import dotted
from .vn import VN, State, phi

NOOPS = {'np.array', 'np.asarray', 'numpy.array', 'np.ascontiguousarray', 'tqdm', 'list', 'tuple', 'np.squeeze', 'int', 'np.int32', 'np.copy', 'iter'}
INF = {'np.inf', 'numpy.inf', 'np.Inf', 'math.inf', 'np.PINF'}


def name_of(f):
    """dotted name of a callee value"""
    if f[0] == 'name':
        return f[1]
    if f[0] == 'attr':
        b = name_of(f[1])
        return '%s.%s' % (b, f[2]) if b else None
    return None


def mapsyms(v, f):
    """v with every symbol ('sym', n) replaced by f."""
    if not isinstance(v, tuple):
        return v
    if v and v[0] == 'sym':
        return f.get(v, v)
    return tuple(mapsyms(x, f) for x in v)


def has(v, x):
    return v == x or isinstance(v, tuple) and any(has(y, x) for y in v)


def repl(v, old, new):
    if v == old:
        return new
    if isinstance(v, tuple):
        return tuple(repl(x, old, new) for x in v)
    return v


def strip(v):
    while True:
        if v[0] == 'call' and isinstance(v[1], tuple):
            n = name_of(v[1])
            if n in NOOPS and len(v[2]) >= 1:
                v = v[2][0]
                continue
            if v[1][0] == 'attr' and v[1][2] in ('astype', 'copy', 'tolist', 'item', 'squeeze', 'flatten', 'keys') and v[1][1][0] != 'name':
                v = v[1][1]
                continue
        return v


def length(v):
    v = strip(v)
    if v[0] in ('map', 'flat') and len(v) == 4:
        return v[2] if v[0] == 'map' else ('call', ('name', 'len'), (v,), ())
    if v[0] == 'list' or v[0] == 'tuple':
        return ('const', len(v) - 1)
    if v[0] == 'fill':
        return length(v[1])
    return ('call', ('name', 'len'), (v,), ())


SELF = ('param', 'self')


class Build(VN):
    def __init__(self, env, decide=None, enter=None, on_call=None, maxdepth=5, on_store=None, known=None, frozen=()):
        super().__init__(env, decide, enter, on_call, maxdepth)
        self.on_store = on_store or (lambda *a: None)
        self.known = known or (lambda cf, cm, node, st, vn: None)
        self.nsym = 0
        self.frozen = frozen

    def sym(self):
        self.nsym += 1
        return ('sym', self.nsym)

    def s_Try(self, s, st):
        """The course without exceptions."""
        end = self.block(s.body, st)
        for part in (s.orelse, s.finalbody):
            if end is not None and part:
                end = self.block(part, end)
        return end

    # ---- what is iterated: (element as a function of the position, number of positions)
    def positions(self, it, s):
        it = strip(it)
        n = name_of(it[1]) if it[0] == 'call' and isinstance(it[1], tuple) else None
        if n in ('range', 'np.arange'):
            a = it[2]
            if len(a) == 1:
                return s, strip(a[0])
            if len(a) == 2:
                return ('op', 'Add', s, a[0]) if a[0] != ('const', 0) else s, ('op', 'Sub', a[1], a[0]) if a[0] != ('const', 0) else strip(a[1])
        if n == 'enumerate' and len(it[2]) == 1:
            e, k = self.positions(it[2][0], s)
            return ('tuple', s, e), k
        if n == 'zip' and it[2]:
            es = [self.positions(x, s) for x in it[2]]
            return ('tuple',) + tuple(e for e, _ in es), es[0][1]
        return self.item(it, s), length(it)

    @staticmethod
    def item(v, i):
        v = strip(v)
        if v[0] == 'map' and len(v) == 4 and i[0] not in ('tuple', 'slice'):
            if i == ('const', -1):
                i = ('op', 'Sub', v[2], ('const', 1))
            return mapsyms(v[3], {v[1]: i})
        if v[0] == 'fill' and i[0] != 'slice':
            (s, n, idx, val), i1 = v[2:6], i[1:] if i[0] == 'tuple' else (i,)
            if idx[0] == s and len(i1) == 1:
                return mapsyms(('rowof', idx[1:], val) if len(idx) > 1 else val, {s: i1[0]})
        if v[0] == 'stored' and (i[1:] if i[0] == 'tuple' else (i,)) == v[2]:
            return v[3]
        if v[0] == 'appended' and i == ('const', -1):
            return v[2]
        if v[0] == 'dict' and i[0] == 'const':
            for k, x in v[1]:
                if k == i:
                    return x
        return VN.item(v, i)

    def e_Dict(self, e, st):
        return ('dict', tuple((self.ev(k, st) if k is not None else ('opaque', self.new()), self.ev(x, st)) for k, x in zip(e.keys, e.values)))

    def e_Name(self, e, st):
        return st.env.get(e.id, ('name', e.id))

    def e_Attribute(self, e, st):
        if (dotted(e) or '') in INF:
            return ('const', float('inf'))
        return super().e_Attribute(e, st)

    def comp(self, e, st, elts):
        b = st.copy()
        binders, ifs = [], []
        for g in e.generators:
            s = self.sym()
            el, n = self.positions(self.ev(g.iter, b), s)
            self.assign(g.target, el, b)
            binders.append((s, n))
            for c in g.ifs:
                ifs.append(self.ev(c, b))
        ys = tuple(self.ev(x, b) for x in elts)
        if ifs or len(ys) != 1:
            return ('filter', tuple(binders), tuple(ifs), ys)
        v = ys[0]
        for k, (s, n) in enumerate(reversed(binders)):
            v = ('map', s, n, v) if k == 0 else ('flat', s, n, v)
        return v

    # ---- loops
    def loop(self, s, st):
        names, attrs = self.assigned(s)
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend') and isinstance(n.func.value, ast.Attribute):
                attrs.add(n.func.value.attr)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                b = n.value
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(b, ast.Attribute):
                    attrs.add(b.attr)
        before = st.copy()
        keys = [('n', k) for k in names] + [('a', (SELF, k)) for k in attrs]
        steady = set()
        for _ in range(3):          # what an iteration leaves alone keeps the value it had before the loop
            b = before.copy()
            prev = {}
            for k in keys:
                if k not in steady:
                    d = b.env if k[0] == 'n' else b.attrs
                    prev[k] = d[k[1]] = ('prev', '%s@%d' % (k[1] if k[0] == 'n' else k[1][1], s.lineno))
            u = self.sym()
            n = None
            if isinstance(s, ast.For):
                el, n = self.positions(self.ev(s.iter, before.copy()), u)
                self.assign(s.target, el, b)
            end = self.block(s.body, b)
            more = {k for k in prev if end is not None and (end.env if k[0] == 'n' else end.attrs).get(k[1]) == prev[k]}
            if not more or end is None:
                break
            steady |= more
        keys = [k for k in keys if k in prev]
        prevs = set(prev.values())
        for k in keys:
            d, d0, de = (st.env, before.env, end.env if end else {}) if k[0] == 'n' else (st.attrs, before.attrs, end.attrs if end else {})
            base = d0.get(k[1], ('unset', k[1]) if k[0] == 'n' else ('attr',) + k[1])
            f = de.get(k[1])
            d[k[1]] = self.after(base, prev[k], f, u, n, prevs)
        if s.orelse:
            st = self.block(s.orelse, st)
        return st

    def after(self, base, prev, f, u, n, prevs):
        bad = ('havoc', self.new(), 'loop')
        if f is None or n is None:
            return bad
        if f == prev:
            return base

        def clean(v):
            return not any(has(v, p) for p in prevs)
        if clean(f):
            return ('last', u, n, f)
        chain = []
        v = f
        while v != prev:
            if v[0] == 'appended' or v[0] == 'extended':
                chain.append((v[0], v[2]))
                v = v[1]
            elif v[0] == 'stored':
                chain.append(('stored', v[2], v[3]))
                v = v[1]
            elif v[0] in ('map', 'flat') and len(v) > 4:
                chain.append(('extended', v[:4]))
                v = v[4]
            elif v[0] == 'fill' and v[1] is not None:
                chain.append(('filled', v[2:]))
                v = v[1]
            elif v[0] == 'call' and isinstance(v[1], tuple) and name_of(v[1]) in ('max', 'np.maximum') and len(v[2]) == 2 and prev in v[2]:
                x = v[2][1] if v[2][0] == prev else v[2][0]
                chain.append(('max', x))
                v = prev
            elif v[0] == 'running' and v[1] == 'max' and v[2] == prev:
                chain.append(('maxall', v[3]))
                v = prev
            else:
                return bad
        if not all(clean(x) for c in chain for x in c[1:] if isinstance(x, tuple)):
            return bad
        if len(chain) == 1:
            c = chain[0]
            if c[0] == 'appended':
                return ('map', u, n, c[1]) if base == ('list',) else ('map', u, n, c[1], base)
            if c[0] == 'extended':
                return ('flat', u, n, c[1]) if base == ('list',) else ('flat', u, n, c[1], base)
            if c[0] == 'max':
                return ('running', 'max', base, ('map', u, n, c[1]))
            if c[0] == 'maxall':
                return ('running', 'max', base, ('flat', u, n, c[1]))
        if all(c[0] == 'stored' for c in chain):
            v = base
            for _, i, x in reversed(chain):
                v = ('fill', v, u, n, i, x)
            return v
        return bad

    def assign(self, t, v, st):
        if isinstance(t, ast.Subscript):
            i = self.ev(t.slice, st)
            idx = i[1:] if i[0] == 'tuple' else (i,)
            b = t.value
            while isinstance(b, ast.Subscript):
                j = self.ev(b.slice, st)
                idx = (j[1:] if j[0] == 'tuple' else (j,)) + idx
                b = b.value
            self.on_store(b, idx, v, t, self.fn, st, self)
            if isinstance(b, ast.Name):
                st.env[b.id] = ('stored', self.ev(b, st), idx, v)
            elif isinstance(b, ast.Attribute) and b.attr not in self.frozen:
                st.attrs[(self.ev(b.value, st), b.attr)] = ('stored', self.ev(b, st), idx, v)
            return
        if isinstance(t, ast.Attribute) and t.attr in self.frozen:
            return
        super().assign(t, v, st)

    def e_Call(self, e, st):
        if isinstance(e.func, ast.Attribute) and e.func.attr in ('append', 'extend') and len(e.args) == 1 and not e.keywords:
            t = e.func.value
            if isinstance(t, (ast.Name, ast.Attribute)):
                x = self.ev(e.args[0], st)
                old = self.ev(t, st)
                new = ('appended' if e.func.attr == 'append' else 'extended', old, x)
                if old[0] == 'list' and e.func.attr == 'append':
                    new = old + (x,)
                self.on_call(None, ('call', ('attr', old, e.func.attr), (x,), ()), e, self.fn, st)
                if isinstance(t, ast.Name):
                    st.env[t.id] = new
                else:
                    st.attrs[(self.ev(t.value, st), t.attr)] = new
                return ('const', None)
        c = self.res.callee(self.fn, e)
        if c is not None:
            m, problems, exact = self.res.bind(c[0], c[1], e)
            r = self.known(c[0], m, e, st, self)
            if r is not None:
                return r
        v = super().e_Call(e, st)
        if v[0] == 'call' and isinstance(v[1], tuple):
            n = name_of(v[1])
            if n == 'len' and len(v[2]) == 1:
                return length(v[2][0])
        return v
