"""Canonical expressions and guarded effects.

`Walker` goes through a function once, syntax-directed, and yields *events*: assignments, container updates, calls
and exits, each with the loops around it and the condition under which it is reached.  Expressions are brought to a
canonical form (temporaries forward-substituted, arithmetic as polynomials, comparisons oriented, iterator and counter
loops recognised, helper functions inlined), so that rules see what the code does rather than how it is spelled.
Nothing is executed and no solver is used.
"""
import ast
from fractions import Fraction

TRUE, FALSE = ('c', True), ('c', False)
MAXSIZE = 400


def size(e):
    if isinstance(e, tuple):
        return 1 + sum(size(x) for x in e)
    if isinstance(e, frozenset):
        return 1 + sum(size(x) for x in e)
    return 1


def key(e):
    return repr(e) if not isinstance(e, frozenset) else repr(sorted(e, key=key))


_KC = {}


def skey(e):
    try:
        return _KC[e]
    except KeyError:
        pass
    if isinstance(e, frozenset):
        r = '{' + ','.join(sorted(skey(x) for x in e)) + '}'
    elif isinstance(e, tuple):
        r = '(' + ','.join(skey(x) for x in e) + ')'
    else:
        r = repr(e)
    if len(_KC) < 400000:
        _KC[e] = r
    return r


def subterms(e):
    yield e
    if isinstance(e, (tuple, frozenset)):
        for x in e:
            if isinstance(x, (tuple, frozenset)):
                yield from subterms(x)


def mentions(e, names):
    for t in subterms(e):
        if isinstance(t, tuple) and len(t) == 2 and t[0] == 'n' and t[1] in names:
            return True
    return False


def names_in(e):
    return {t[1] for t in subterms(e) if isinstance(t, tuple) and len(t) == 2 and t[0] == 'n'}


def subst(e, f):
    """Rebuild e bottom-up, applying f to every tuple node (f returns a replacement or None)."""
    if isinstance(e, frozenset):
        return frozenset(subst(x, f) for x in e)
    if not isinstance(e, tuple):
        return e
    if e and e[0] == 'poly':
        r = ('c', 0)
        for mono, co in e[1]:
            t = ('c', co)
            for a, x in mono:
                t = mul(t, power(subst(a, f), x))
            r = add(r, t)
        q = f(r)
        return r if q is None else q
    r = tuple(subst(x, f) for x in e)
    q = f(r)
    return r if q is None else q


# ------------------------------------------------------------------ arithmetic
def num(v):
    if isinstance(v, bool):
        return None
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, Fraction):
        return v
    if isinstance(v, float):
        try:
            return Fraction(v).limit_denominator(10 ** 12)
        except (OverflowError, ValueError):
            return None
    return None


def C(v):
    n = num(v)
    if n is not None:
        return ('c', int(n) if n.denominator == 1 else n)
    return ('c', v)


def to_poly(e):
    if e[0] == 'poly':
        return dict(e[1])
    if e[0] == 'c':
        n = num(e[1])
        if n is not None:
            return {(): n} if n else {}
    return {((e, 1),): Fraction(1)}


def from_poly(p):
    p = {k: v for k, v in p.items() if v}
    if not p:
        return ('c', 0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return C(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return ('poly', frozenset((m, C(c)[1]) for m, c in p.items()))


def mono_mul(a, b):
    d = {}
    for x, n in a + b:
        d[x] = d.get(x, 0) + n
    return tuple(sorted(((x, n) for x, n in d.items() if n), key=skey))


def add(a, b, sign=1):
    p = dict(to_poly(a))
    for m, c in to_poly(b).items():
        p[m] = p.get(m, 0) + sign * Fraction(c)
    return from_poly(p)


def mul(a, b):
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 64:
        return ('op', '*', a, b)
    p = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = mono_mul(m1, m2)
            p[m] = p.get(m, 0) + Fraction(c1) * Fraction(c2)
    return from_poly(p)


def power(a, n):
    if n == 1:
        return a
    pa = to_poly(a)
    if len(pa) == 1:
        (m, c), = pa.items()
        c = Fraction(c)
        if c:
            return from_poly({tuple((x, e * n) for x, e in m): c ** n})
    return from_poly({((a, n),): Fraction(1)})


def neg(a):
    return mul(('c', -1), a)


# ------------------------------------------------------------------ logic
def NOT(e):
    k = e[0]
    if k == 'c':
        return FALSE if e[1] else TRUE
    if k == 'lt':
        return ('le', e[2], e[1])
    if k == 'le':
        return ('lt', e[2], e[1])
    if k == 'eq':
        return ('ne', e[1], e[2])
    if k == 'ne':
        return ('eq', e[1], e[2])
    if k == 'in':
        return ('notin', e[1], e[2])
    if k == 'notin':
        return ('in', e[1], e[2])
    if k == 'is':
        return ('isnot', e[1], e[2])
    if k == 'isnot':
        return ('is', e[1], e[2])
    if k == 'not':
        return e[1]
    if k == 'and':
        return OR(*[NOT(x) for x in e[1]])
    if k == 'or':
        return AND(*[NOT(x) for x in e[1]])
    if k == 'any':
        return ('all', e[1], NOT(e[2]))
    if k == 'all':
        return ('any', e[1], NOT(e[2]))
    return ('not', e)


def AND(*xs):
    s = set()
    for x in xs:
        if x == TRUE:
            continue
        if x == FALSE:
            return FALSE
        if x[0] == 'and':
            s |= x[1]
        else:
            s.add(x)
    if not s:
        return TRUE
    if any(NOT(x) in s for x in s):
        return FALSE
    if len(s) == 1:
        return s.pop()
    return ('and', frozenset(s))


def OR(*xs):
    s = set()
    for x in xs:
        if x == FALSE:
            continue
        if x == TRUE:
            return TRUE
        if x[0] == 'or':
            s |= x[1]
        else:
            s.add(x)
    if not s:
        return FALSE
    if any(NOT(x) in s for x in s):
        return TRUE
    if len(s) == 1:
        return s.pop()
    return ('or', frozenset(s))


def truth(e):
    """Canonical condition of e used as a truth value."""
    if e[0] == 'c':
        return TRUE if e[1] else FALSE
    if e[0] == 'ite' and e[2][0] == 'c' and e[3][0] == 'c':
        a, b = bool(e[2][1]), bool(e[3][1])
        if a and not b:
            return e[1]
        if b and not a:
            return NOT(e[1])
        return TRUE if a else FALSE
    if e[0] == 'poly' and len(e[1]) == 1:
        (m, c), = e[1]
        if c and m and all(x > 0 and a[0] in CMPS + ('and', 'or', 'not', 'any', 'all') for a, x in m):
            return AND(*[a for a, _ in m])
    return e


CMPS = ('lt', 'le', 'eq', 'ne', 'in', 'notin', 'is', 'isnot')


def cmp(op, a, b):
    if op == 'gt':
        op, a, b = 'lt', b, a
    elif op == 'ge':
        op, a, b = 'le', b, a
    if a[0] == 'c' and b[0] == 'c' and num(a[1]) is not None and num(b[1]) is not None:
        x, y = num(a[1]), num(b[1])
        r = {'lt': x < y, 'le': x <= y, 'eq': x == y, 'ne': x != y}.get(op)
        if r is not None:
            return TRUE if r else FALSE
    if op in ('eq', 'ne'):
        for x, y in ((a, b), (b, a)):     # comparison with a truth constant
            if x[0] in CMPS + ('and', 'or', 'not', 'any', 'all') and y[0] == 'c' and y[1] in (0, 1, True, False):
                t = x if bool(y[1]) else NOT(x)
                return t if op == 'eq' else NOT(t)
        if skey(b) < skey(a):
            a, b = b, a
    return (op, a, b)


# ------------------------------------------------------------------ truth tables
class Atoms:
    """Maps comparison atoms to order variables (lt / eq / gt of an operand pair) or booleans."""

    def __init__(self):
        self.pairs, self.bools = {}, {}

    def collect(self, e):
        k = e[0]
        if k in ('and', 'or'):
            for x in e[1]:
                self.collect(x)
        elif k == 'not':
            self.collect(e[1])
        elif k == 'c':
            pass
        elif k in ('lt', 'le', 'eq', 'ne'):
            p = tuple(sorted((e[1], e[2]), key=skey))
            self.pairs.setdefault(p, len(self.pairs))
        else:
            b = NOT(e) if k in ('notin', 'isnot', 'all') else e
            self.bools.setdefault(b, len(self.bools))

    def n(self):
        return 3 ** len(self.pairs) * 2 ** len(self.bools)

    def assignments(self):
        import itertools
        ps, bs = list(self.pairs), list(self.bools)
        for o in itertools.product((-1, 0, 1), repeat=len(ps)):
            for b in itertools.product((False, True), repeat=len(bs)):
                yield dict(zip(ps, o)), dict(zip(bs, b))


def ev(e, o, b):
    k = e[0]
    if k == 'c':
        return bool(e[1])
    if k == 'and':
        return all(ev(x, o, b) for x in e[1])
    if k == 'or':
        return any(ev(x, o, b) for x in e[1])
    if k == 'not':
        return not ev(e[1], o, b)
    if k in ('lt', 'le', 'eq', 'ne'):
        p = tuple(sorted((e[1], e[2]), key=skey))
        v = o[p] if p[0] == e[1] else -o[p]
        return {'lt': v < 0, 'le': v <= 0, 'eq': v == 0, 'ne': v != 0}[k]
    if k in ('notin', 'isnot', 'all'):
        return not b[NOT(e)]
    return b[e]


def implies(f, g, limit=60000):
    a = Atoms()
    a.collect(f)
    a.collect(g)
    if a.n() > limit:
        return None
    return all((not ev(f, o, b)) or ev(g, o, b) for o, b in a.assignments())


def equiv(f, g):
    return bool(implies(f, g)) and bool(implies(g, f))


def satisfiable(f, limit=60000):
    a = Atoms()
    a.collect(f)
    if a.n() > limit:
        return True
    return any(ev(f, o, b) for o, b in a.assignments())


# ------------------------------------------------------------------ events
class Loop:
    def __init__(self, kind, dom, sym, node, parallel=False, names=()):
        self.kind, self.dom, self.sym, self.node, self.parallel = kind, dom, sym, node, parallel
        self.names = names

    def __repr__(self):
        return 'Loop(%s %s in %s)' % (self.kind, self.sym, show(self.dom))


class Event:
    __slots__ = ('kind', 'target', 'op', 'value', 'guard', 'loops', 'fn', 'node', 'idx', 'aux', 'depth')

    def __init__(self, kind, target, op, value, guard, loops, fn, node, idx, aux=None, depth=0):
        self.kind, self.target, self.op, self.value = kind, target, op, value
        self.guard, self.loops, self.fn, self.node, self.idx, self.aux = guard, loops, fn, node, idx, aux
        self.depth = depth

    def loc(self):
        return self.fn.loc(self.node)

    def __repr__(self):
        return '<%s %s %s %s if %s in %s @%s>' % (self.kind, show(self.target) if self.target else '', self.op or '',
                                                  show(self.value) if self.value is not None else '', show(self.guard),
                                                  [str(l.sym[1]) for l in self.loops], self.loc())


def show(e, depth=0):
    if e is None:
        return 'None'
    if isinstance(e, frozenset):
        return '{%s}' % ', '.join(sorted(show(x) for x in e))
    if not isinstance(e, tuple):
        return str(e)
    if not e:
        return '()'
    k = e[0]
    if k == 'n':
        return str(e[1])
    if k == 'L':
        return str(e[1])
    if k == 'c':
        return repr(e[1]) if not isinstance(e[1], Fraction) else str(e[1])
    if k == 'idx':
        return '%s[%s]' % (show(e[1]), ', '.join(show(x) for x in e[2]))
    if k == 'attr':
        return '%s.%s' % (show(e[1]), e[2])
    if k == 'fn':
        return e[1].split(':')[-1]
    if k == 'call':
        return '%s(%s)' % (show(e[1]), ', '.join([show(x) for x in e[2]] + ['%s=%s' % (a, show(b)) for a, b in e[3]]))
    if k in ('lt', 'le', 'eq', 'ne', 'in', 'notin', 'is', 'isnot'):
        return '%s %s %s' % (show(e[1]), {'lt': '<', 'le': '<=', 'eq': '==', 'ne': '!=', 'in': 'in', 'notin': 'not in',
                                          'is': 'is', 'isnot': 'is not'}[k], show(e[2]))
    if k == 'and':
        return '(' + ' and '.join(sorted(show(x) for x in e[1])) + ')'
    if k == 'or':
        return '(' + ' or '.join(sorted(show(x) for x in e[1])) + ')'
    if k == 'not':
        return 'not (%s)' % show(e[1])
    if k == 'ite':
        return '(%s if %s else %s)' % (show(e[2]), show(e[1]), show(e[3]))
    if k == 'poly':
        t = []
        for m, c in sorted(e[1], key=skey):
            s = '*'.join('%s%s' % (show(a), '' if n == 1 else '^%s' % n) for a, n in m)
            t.append(s if c == 1 and s else '%s%s' % (c, '*' + s if s else ''))
        return '(' + ' + '.join(t) + ')'
    if k in ('any', 'all'):
        return '%s(%s for %s)' % (k, show(e[2]), show(e[1]))
    return '%s(%s)' % (k, ', '.join(show(x) for x in e[1:]))


MUTATORS = {'insert', 'erase', 'clear', 'push_back', 'pop_back', 'append', 'extend', 'remove', 'pop', 'sort', 'fill',
            'update', 'add', 'discard', 'reverse', 'resize', 'assign', 'swap', 'setdefault', 'popitem', 'put', 'itemset',
            'partition', 'setfield', 'setflags', 'byteswap', 'drop_duplicates'}
CONTAINER_CALLS = {'zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like', 'empty_like', 'full_like', 'list', 'set',
                   'dict', 'defaultdict'}
ITER_FUNCS = {'tqdm', 'prange', 'range', 'enumerate', 'zip', 'list', 'reversed', 'sorted', 'iter'}


def canonical_call_name(e):
    return e[1] if e[0] == 'n' else e[2] if e[0] == 'attr' else e[1].split(':')[-1].split('.')[-1] if e[0] == 'fn' else ''


class Walker:
    """Syntax-directed walk of one function with inlining.  resolver: acvlint.ctx.Resolver or None."""

    def __init__(self, fn, resolver=None, inline=None, maxdepth=4, bind=None):
        self.fn0, self.res, self.inline, self.maxdepth = fn, resolver, inline, maxdepth
        self.events, self.counter = [], 0
        self.stack = []
        self.calls = []          # every call site met: (Fn callee, mapping param -> canonical arg, event-like context)
        env = {}
        for p in fn.params + fn.kwonly:
            env[p] = ('n', p)
        if bind:
            env.update(bind)
        self.run(fn, env, '')

    # ---- frames
    class Frame:
        pass

    def run(self, fn, env, suffix, guard=TRUE, loops=()):
        fr = Walker.Frame()
        fr.fn, fr.env, fr.suffix, fr.rets = fn, env, suffix, []
        fr.objects = self.objects(fn.node)
        fr.nloops0 = len(loops)
        self.stack.append(fr)
        ex = self.block(fn.node.body, fr, guard, loops)
        self.stack.pop()
        return fr, ex

    @staticmethod
    def objects(node):
        """Names used as mutable objects: stored into by subscript or mutating method."""
        out = getattr(node, '_objs', None)
        if out is not None:
            return out
        out = set()
        for n in ast.walk(node):
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                b = n.value
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name):
                    out.add(b.id)
            if isinstance(n, ast.AugAssign):
                b = n.target
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                    if isinstance(b, ast.Name):
                        out.add(b.id)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                b = n.func.value
                if isinstance(b, ast.Subscript):
                    while isinstance(b, ast.Subscript):
                        b = b.value
                if isinstance(b, ast.Name):
                    out.add(b.id)
        node._objs = out
        return out

    def local(self, fr, name):
        return name + fr.suffix

    # ---- expressions
    def e(self, n, fr, guard, loops):
        """canonical expression of AST node n"""
        m = getattr(self, 'e_' + type(n).__name__, None)
        r = m(n, fr, guard, loops) if m else ('opaque', ast.dump(n))
        return r

    def e_Name(self, n, fr, g, l):
        v = fr.env.get(n.id)
        if v is not None:
            return v
        if n.id in ('True', 'False'):
            return ('c', n.id == 'True')
        if fr.suffix and n.id in self.bound(fr.fn):
            return ('n', n.id + fr.suffix)
        return ('n', n.id)

    def bound(self, fn):
        b = getattr(fn, '_boundnames', None)
        if b is None:
            from .ctx import Locals
            b = fn._boundnames = Locals(fn).bound
        return b

    def e_Constant(self, n, fr, g, l):
        return C(n.value) if not isinstance(n.value, bool) else ('c', n.value)

    def e_Attribute(self, n, fr, g, l):
        return ('attr', self.e(n.value, fr, g, l), n.attr)

    def e_Subscript(self, n, fr, g, l):
        b = self.e(n.value, fr, g, l)
        s = n.slice
        ix = tuple(self.e(x, fr, g, l) for x in s.elts) if isinstance(s, ast.Tuple) else (self.e(s, fr, g, l),)
        if b[0] in ('tuple', 'list') and len(ix) == 1 and ix[0][0] == 'c' and isinstance(ix[0][1], int) \
                and -len(b) + 1 <= ix[0][1] < len(b) - 1:
            return b[1:][ix[0][1]]
        if b[0] == 'idx' and not any(x[0] == 'slice' for x in b[2]):
            return ('idx', b[1], b[2] + ix)
        if b[0] == 'idx':
            # a[:, 0][i] -> a[i, 0] (full slices only)
            full = ('slice', ('c', None), ('c', None), ('c', None))
            rest, out = list(ix), []
            for x in b[2]:
                if x == full and rest:
                    out.append(rest.pop(0))
                else:
                    out.append(x)
            if all(x[0] != 'slice' or x == full for x in b[2]):
                return ('idx', b[1], tuple(out + rest))
        return ('idx', b, ix)

    def e_Slice(self, n, fr, g, l):
        f = lambda x: ('c', None) if x is None else self.e(x, fr, g, l)
        return ('slice', f(n.lower), f(n.upper), f(n.step))

    def e_Index(self, n, fr, g, l):
        return self.e(n.value, fr, g, l)

    def e_Tuple(self, n, fr, g, l):
        return ('tuple',) + tuple(self.e(x, fr, g, l) for x in n.elts)

    def e_List(self, n, fr, g, l):
        return ('list',) + tuple(self.e(x, fr, g, l) for x in n.elts)

    def e_Set(self, n, fr, g, l):
        return ('set', frozenset(self.e(x, fr, g, l) for x in n.elts))

    def e_Dict(self, n, fr, g, l):
        return ('dict',) + tuple((self.e(k, fr, g, l) if k else ('c', None), self.e(v, fr, g, l))
                                 for k, v in zip(n.keys, n.values))

    def e_Starred(self, n, fr, g, l):
        return ('star', self.e(n.value, fr, g, l))

    def e_JoinedStr(self, n, fr, g, l):
        return ('c', '<fstring>')

    def e_UnaryOp(self, n, fr, g, l):
        v = self.e(n.operand, fr, g, l)
        if isinstance(n.op, ast.Not):
            return NOT(truth(v))
        if isinstance(n.op, ast.USub):
            return neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        return ('op', '~', v)

    def e_BinOp(self, n, fr, g, l):
        a, b = self.e(n.left, fr, g, l), self.e(n.right, fr, g, l)
        t = type(n.op).__name__
        if t == 'Add':
            if a[0] in ('list', 'tuple') or b[0] in ('list', 'tuple') or \
                    (a[0] == 'c' and isinstance(a[1], str)) or (b[0] == 'c' and isinstance(b[1], str)):
                if a[0] == b[0] and a[0] in ('list', 'tuple'):
                    return a + b[1:]
                return ('op', '+', a, b)
            return add(a, b)
        if t == 'Sub':
            return add(a, b, -1)
        if t == 'Mult':
            if a[0] in ('list', 'tuple') or b[0] in ('list', 'tuple'):
                return ('op', '*', a, b)
            return mul(a, b)
        if t == 'Div':
            if b[0] == 'c' and num(b[1]) is not None and num(b[1]) == 0:
                return ('op', '/', a, b)
            return mul(a, power(b, -1))
        if t == 'Pow' and b[0] == 'c' and isinstance(b[1], int) and 0 < b[1] <= 4:
            if a[0] == 'c' and num(a[1]) is not None:
                return C(num(a[1]) ** b[1])
            return power(a, b[1])
        if t == 'Pow' and a[0] == 'c' and b[0] == 'c' and isinstance(a[1], int) and isinstance(b[1], int) \
                and 0 <= b[1] <= 64:
            return C(a[1] ** b[1])
        if t in ('BitAnd', 'BitOr') and a[0] in CMPS + ('and', 'or', 'not') and b[0] in CMPS + ('and', 'or', 'not'):
            return AND(a, b) if t == 'BitAnd' else OR(a, b)
        return ('op', t, a, b)

    def e_BoolOp(self, n, fr, g, l):
        vs = [truth(self.e(x, fr, g, l)) for x in n.values]
        return AND(*vs) if isinstance(n.op, ast.And) else OR(*vs)

    _OPS = {'Lt': 'lt', 'LtE': 'le', 'Gt': 'gt', 'GtE': 'ge', 'Eq': 'eq', 'NotEq': 'ne', 'In': 'in', 'NotIn': 'notin',
            'Is': 'is', 'IsNot': 'isnot'}

    def e_Compare(self, n, fr, g, l):
        xs = [self.e(n.left, fr, g, l)] + [self.e(x, fr, g, l) for x in n.comparators]
        out = []
        for a, op, b in zip(xs, n.ops, xs[1:]):
            c = cmp(self._OPS[type(op).__name__], a, b)
            out.append(self.find_membership(c))
        return AND(*out)

    @staticmethod
    def find_membership(c):
        """std_find(S.begin(), S.end(), v) != S.end()  ->  v in S;  S.count(v) -> v in S"""
        if c[0] in ('eq', 'ne'):
            for a, b in ((c[1], c[2]), (c[2], c[1])):
                if a[0] == 'call' and len(a[2]) == 3 and b[0] == 'call' and b[1][0] == 'attr' and b[1][2] == 'end':
                    s = b[1][1]
                    if a[2][0] == ('call', ('attr', s, 'begin'), (), ()) and a[2][1] == b:
                        return ('in' if c[0] == 'ne' else 'notin', a[2][2], s)
                if a[0] == 'call' and a[1][0] == 'attr' and a[1][2] in ('count', 'find') and len(a[2]) == 1:
                    s = a[1][1]
                    if a[1][2] == 'count' and b == ('c', 0):
                        return ('in' if c[0] == 'ne' else 'notin', a[2][0], s)
                    if a[1][2] == 'find' and b == ('call', ('attr', s, 'end'), (), ()):
                        return ('in' if c[0] == 'ne' else 'notin', a[2][0], s)
        if c[0] in ('lt', 'le'):
            a, b = c[1], c[2]
            if c[0] == 'lt' and a == ('c', 0) and b[0] == 'call' and b[1][0] == 'attr' and b[1][2] == 'count' \
                    and len(b[2]) == 1:
                return ('in', b[2][0], b[1][1])
        return c

    def e_IfExp(self, n, fr, g, l):
        t = truth(self.e(n.test, fr, g, l))
        a, b = self.e(n.body, fr, AND(g, t), l), self.e(n.orelse, fr, AND(g, NOT(t)), l)
        return self.ite(t, a, b)

    @staticmethod
    def ite(t, a, b):
        if t == TRUE or a == b:
            return a
        if t == FALSE:
            return b
        if a == TRUE and b == FALSE:
            return t
        if a == FALSE and b == TRUE:
            return NOT(t)
        if t[0] in ('ne', 'notin', 'isnot', 'le', 'not', 'all'):   # one orientation
            t, a, b = NOT(t), b, a
        return ('ite', t, a, b)

    def e_Lambda(self, n, fr, g, l):
        return ('lambda', ast.dump(n))

    def comp(self, n, fr, g, l, kind, elts):
        saved = dict(fr.env)
        loops = list(l)
        doms, cond = [], TRUE
        for gen in n.generators:
            lp = self.loop_of(gen.target, gen.iter, fr, g, tuple(loops), n)
            loops.append(lp)
            doms.append((lp.kind, lp.dom, lp.sym))
            for i in gen.ifs:
                cond = AND(cond, truth(self.e(i, fr, AND(g, cond), tuple(loops))))
        vals = tuple(self.e(x, fr, AND(g, cond), tuple(loops)) for x in elts)
        fr.env = saved
        return self.alpha(('comp', kind, tuple(doms), cond, vals))

    @staticmethod
    def alpha(c):
        m = {}
        for i, (_, _, s) in enumerate(c[2]):
            m[s] = ('L', 'comp%d' % i)
        return subst(c, lambda t: m.get(t))

    def e_ListComp(self, n, fr, g, l):
        return self.comp(n, fr, g, l, 'list', [n.elt])

    def e_SetComp(self, n, fr, g, l):
        return self.comp(n, fr, g, l, 'set', [n.elt])

    def e_GeneratorExp(self, n, fr, g, l):
        return self.comp(n, fr, g, l, 'list', [n.elt])

    def e_DictComp(self, n, fr, g, l):
        return self.comp(n, fr, g, l, 'dict', [n.key, n.value])

    def e_NamedExpr(self, n, fr, g, l):
        v = self.e(n.value, fr, g, l)
        self.assign(n.target, v, fr, g, l, n)
        return v

    def e_Call(self, n, fr, g, l):
        f = n.func
        # casts and iterator access
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
        callee = None
        if self.res is not None:
            c = self.res.callee(fr.fn, n)
            if c:
                callee = c
        args = [self.e(a, fr, g, l) for a in n.args]
        if name in ('deref', 'dereference') and len(args) == 1:
            a = args[0]
            if a[0] == 'iterpos':
                return a[1]
            return ('call', ('n', 'deref'), (a,), ())
        if isinstance(f, ast.Name) and name == 'len' and len(args) == 1:
            return ('call', ('n', 'len'), tuple(args), ())
        if isinstance(f, ast.Name) and name in ('any', 'all') and len(args) == 1 and args[0][0] == 'comp' and \
                len(args[0][2]) == 1:
            cp = args[0]
            k, d, s = cp[2][0]
            body = truth(cp[4][0])
            if name == 'any':
                return ('any', (k, d), AND(cp[3], body))
            return ('all', (k, d), OR(NOT(cp[3]), body))
        if isinstance(f, ast.Attribute):
            recv = self.e(f.value, fr, g, l)
            if name in ('size', 'shape') and not args and name == 'size':
                return ('call', ('attr', recv, 'size'), (), ())
            if name in MUTATORS:
                if not (callee is not None):
                    self.emit('mutate', recv, name, tuple(args), g, l, fr, n)
                    base = recv
                    while base[0] in ('idx', 'attr'):
                        base = base[1]
                    if base[0] == 'n':
                        self.kill(fr, {base[1]}, keep_self=True)
        kws = tuple(sorted(((k.arg or '**'), self.e(k.value, fr, g, l)) for k in n.keywords))
        if callee is not None:
            cf, bnd = callee
            m, problems, exact = self.res.bind(cf, bnd, n)
            cm = {}
            for p, a in m.items():
                cm[p] = self.e(a, fr, g, l)
            for p, d in cf.defaults().items():
                if p not in cm and isinstance(d, ast.Constant):
                    cm[p] = C(d.value) if not isinstance(d.value, bool) else ('c', d.value)
            if bnd and cf.params:
                cm[cf.params[0]] = self.e(f.value, fr, g, l) if isinstance(f, ast.Attribute) else ('n', 'self')
            depth = len(self.stack)
            self.calls.append((cf, cm, g, l, fr.fn, n))
            if self.inline and exact and not problems and depth <= self.maxdepth and self.inline(cf) \
                    and cf not in [x.fn for x in self.stack]:
                return self.inlined(cf, cm, g, l)
            order = [p for p in cf.params if p in cm]
            ce = ('call', ('fn', cf.qual), tuple(cm[p] for p in order), tuple((p, ('c', 0)) for p in ()))
            self.emit('call', ('fn', cf.qual), None, tuple((p, cm[p]) for p in order), g, l, fr, n, aux=cf)
            return ce
        fe = self.e(f, fr, g, l)
        return ('call', fe, tuple(args), kws)

    def inlined(self, cf, cm, g, l):
        self.counter += 1
        suf = '@%d' % self.counter
        env = {}
        for p in cf.params + cf.kwonly:
            env[p] = cm.get(p, ('n', p + suf))
        n0 = len(self.events)
        fr, ex = self.run(cf, env, suf, g, l)
        rets = fr.rets
        if not rets:
            return ('c', None)
        base = len(l)
        inloop = [r for r in rets if len(r[2]) > base]
        if len(rets) == 1 and not inloop:
            return rets[0][1]
        # conditional returns, and returns of a constant from inside one loop
        out = None
        for gd, v, lps in reversed(rets):
            if len(lps) == base:
                rel = self.relative(gd, g)
                out = v if out is None else self.ite(rel, v, out)
            elif len(lps) == base + 1 and v[0] == 'c' and out is not None:
                lp = lps[-1]
                rel = self.relative(gd, g)
                q = ('any', (lp.kind, lp.dom), subst(rel, lambda t: ('L', 'comp0') if t == lp.sym else None))
                out = self.ite(q, v, out)
            else:
                return ('call', ('fn', cf.qual), tuple(cm.get(p, ('n', p)) for p in cf.params), ())
        return out if out is not None else ('c', None)

    @staticmethod
    def relative(gd, g):
        """The part of condition gd not already in g."""
        a = gd[1] if gd[0] == 'and' else frozenset([gd])
        b = g[1] if g[0] == 'and' else frozenset([g])
        return AND(*(a - b))

    # ---- events and environment
    def emit(self, kind, target, op, value, g, l, fr, node, aux=None):
        ev_ = Event(kind, target, op, value, g, tuple(l), fr.fn, node, len(self.events), aux, len(self.stack))
        self.events.append(ev_)
        return ev_

    def kill(self, fr, names, keep_self=False):
        """Forget substitutions that mention a name whose value changes."""
        for f in self.stack:
            for k in list(f.env):
                v = f.env[k]
                if v == ('n', k):
                    continue
                if v[0] == 'n' and v[1] in names:
                    continue            # alias of the object itself
                if mentions(v, names):
                    f.env[k] = ('n', k + f.suffix)

    def setname(self, name, v, fr, g, l, node, op=None, opv=None):
        cname = name + fr.suffix
        self.emit('assign', ('n', cname), op, opv if op else v, g, l, fr, node)
        self.kill(fr, {cname})
        ok = op is None and name not in fr.objects and size(v) < MAXSIZE and not mentions(v, {cname})
        if ok and v[0] == 'call' and canonical_call_name(v[1]) in CONTAINER_CALLS:
            ok = False
        if ok and v[0] in ('list', 'dict', 'set', 'comp') and name in fr.objects:
            ok = False
        if name in fr.objects and v[0] in ('n', 'idx', 'attr') and op is None and not self.native_value(fr, name):
            ok = True                   # alias of another object (Python reference semantics)
            if mentions(v, {cname}):
                ok = False
        fr.env[name] = v if ok else ('n', cname)

    def native_value(self, fr, name):
        t = fr.fn.ctypes.get(name, '')
        return t.startswith(('vector', 'set', 'map', 'unordered'))  # assignment copies a C++ value

    def assign(self, target, v, fr, g, l, node):
        if isinstance(target, ast.Name):
            cname = target.id + fr.suffix
            cur = fr.env.get(target.id, ('n', cname))
            selfsym = ('n', cname)
            if cur != selfsym and not mentions(v, {cname}):
                return self.setname(target.id, v, fr, g, l, node)
            # x = x + k   ->  x += k
            if v[0] == 'poly':
                p = to_poly(v)
                mono = ((selfsym, 1),)
                if p.get(mono) == 1:
                    rest = from_poly({m: c for m, c in p.items() if m != mono})
                    if not mentions(rest, {cname}):
                        return self.setname(target.id, v, fr, g, l, node, '+', rest)
            return self.setname(target.id, v, fr, g, l, node)
        if isinstance(target, (ast.Tuple, ast.List)):
            for i, t in enumerate(target.elts):
                if isinstance(t, ast.Starred):
                    t = t.value
                part = v[1 + i] if v[0] in ('tuple', 'list') and len(v) == 1 + len(target.elts) else ('idx', v, (('c', i),))
                self.assign(t, part, fr, g, l, node)
            return
        te = self.e(target, fr, g, l)
        if v[0] == 'poly':
            p = to_poly(v)
            mono = ((te, 1),)
            if p.get(mono) == 1:
                rest = from_poly({m: c for m, c in p.items() if m != mono})
                if te not in set(subterms(rest)):
                    self.emit('assign', te, '+', rest, g, l, fr, node)
                    self.killbase(te, fr)
                    return
        self.emit('assign', te, None, v, g, l, fr, node)
        self.killbase(te, fr)

    def killbase(self, te, fr):
        b = te
        while b[0] in ('idx', 'attr'):
            b = b[1]
        if b[0] == 'n':
            self.kill(fr, {b[1]})

    # ---- statements
    def block(self, stmts, fr, g, l):
        """Walk a block; returns the condition under which it does not fall through (relative to entry)."""
        ex = FALSE
        for st in stmts:
            gg = AND(g, NOT(ex))
            if gg == FALSE:
                continue
            x = self.stmt(st, fr, gg, l)
            if x is not None and x != FALSE:
                ex = OR(ex, x)
        return ex

    def stmt(self, st, fr, g, l):
        m = getattr(self, 's_' + type(st).__name__, None)
        if m:
            return m(st, fr, g, l)
        return None

    def s_Expr(self, st, fr, g, l):
        if isinstance(st.value, ast.Constant):
            return
        v = self.e(st.value, fr, g, l)
        if v[0] == 'call' and canonical_call_name(v[1]) not in MUTATORS and v[1][0] != 'fn':
            self.emit('expr', v, None, None, g, l, fr, st)

    def s_Assign(self, st, fr, g, l):
        v = self.e(st.value, fr, g, l)
        for t in st.targets:
            self.assign(t, v, fr, g, l, st)

    def s_AnnAssign(self, st, fr, g, l):
        if st.value is not None:
            self.assign(st.target, self.e(st.value, fr, g, l), fr, g, l, st)

    _AUG = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'BitOr': '|', 'BitAnd': '&'}

    def s_AugAssign(self, st, fr, g, l):
        v = self.e(st.value, fr, g, l)
        op = self._AUG.get(type(st.op).__name__, type(st.op).__name__)
        if op == '-':
            op, v = '+', neg(v)
        elif op == '/':
            op, v = '*', power(v, -1)
        if isinstance(st.target, ast.Name):
            cur = fr.env.get(st.target.id)
            self.setname(st.target.id, v, fr, g, l, st, op, v)
            # constant folding of a straight-line counter is not attempted
            return
        te = self.e(st.target, fr, g, l)
        self.emit('assign', te, op, v, g, l, fr, st)
        self.killbase(te, fr)

    def s_Return(self, st, fr, g, l):
        v = self.e(st.value, fr, g, l) if st.value is not None else ('c', None)
        fr.rets.append((g, v, l))
        if len(self.stack) == 1:
            self.emit('return', None, None, v, g, l, fr, st)
        return self.relative_true(g, fr, l)

    def relative_true(self, g, fr, l):
        return TRUE

    def s_Raise(self, st, fr, g, l):
        v = self.e(st.exc, fr, g, l) if st.exc is not None else ('c', None)
        self.emit('raise', None, None, v, g, l, fr, st)
        return TRUE

    def s_Break(self, st, fr, g, l):
        self.emit('break', None, None, None, g, l, fr, st)
        return TRUE

    def s_Continue(self, st, fr, g, l):
        return TRUE

    def s_Assert(self, st, fr, g, l):
        self.emit('assert', None, None, truth(self.e(st.test, fr, g, l)), g, l, fr, st)

    def s_Delete(self, st, fr, g, l):
        for t in st.targets:
            self.emit('del', self.e(t, fr, g, l), None, None, g, l, fr, st)

    def s_If(self, st, fr, g, l):
        t = truth(self.e(st.test, fr, g, l))
        if t == TRUE:
            return self.block(st.body, fr, g, l)
        if t == FALSE:
            return self.block(st.orelse, fr, g, l)
        env0 = dict(fr.env)
        # substituted temporaries inside the branches see the branch condition
        x1 = self.block(st.body, fr, AND(g, t), l)
        env1 = fr.env
        fr.env = dict(env0)
        x2 = self.block(st.orelse, fr, AND(g, NOT(t)), l)
        env2 = fr.env
        fr.env = self.merge(env0, env1, env2, t, x1, x2, fr)
        return OR(AND(t, x1), AND(NOT(t), x2))

    def merge(self, env0, a, b, t, x1, x2, fr):
        if x1 == TRUE:
            return b
        if x2 == TRUE:
            return a
        out = {}
        for k in set(a) | set(b):
            va, vb = a.get(k), b.get(k)
            if va == vb:
                out[k] = va
            elif va is None or vb is None:
                out[k] = ('n', k + fr.suffix)
            elif va in (('n', k + fr.suffix),) or vb in (('n', k + fr.suffix),):
                out[k] = ('n', k + fr.suffix)
            else:
                v = self.ite(t, va, vb)
                out[k] = v if size(v) < MAXSIZE else ('n', k + fr.suffix)
        return out

    def assigned(self, node):
        out = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                b = n
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name):
                    out.add(b.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                b = n.func.value
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name):
                    out.add(b.id)
            elif isinstance(n, ast.AugAssign):
                b = n.target
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name):
                    out.add(b.id)
        return out

    def newsym(self, name):
        self.counter += 1
        return ('L', '%s#%d' % (name, self.counter))

    def loop_of(self, target, it, fr, g, l, node):
        """Loop descriptor for `for target in it`; binds the loop variables in fr.env."""
        parallel = False
        while isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('tqdm', 'list', 'iter') \
                and len(it.args) == 1:
            it = it.args[0]
        fname = it.func.id if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) else \
            it.func.attr if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) else ''
        nm = target.id if isinstance(target, ast.Name) else 'el'
        if fname in ('range', 'prange', 'arange'):
            args = [self.e(a, fr, g, l) for a in it.args]
            parallel = fname == 'prange'
            lo, hi, step = ('c', 0), ('c', 0), ('c', 1)
            if len(args) == 1:
                hi = args[0]
            elif len(args) >= 2:
                lo, hi = args[0], args[1]
                if len(args) > 2:
                    step = args[2]
            sym = self.newsym(nm)
            lp = Loop('range', ('range', lo, hi, step), sym, node, parallel, (nm,))
            if isinstance(target, ast.Name):
                fr.env[target.id] = sym
            return lp
        if fname == 'enumerate' and it.args and isinstance(target, ast.Tuple) and len(target.elts) == 2:
            dom = self.e(it.args[0], fr, g, l)
            sym = self.newsym(target.elts[0].id if isinstance(target.elts[0], ast.Name) else 'i')
            lp = Loop('range', ('range', ('c', 0), ('call', ('n', 'len'), (dom,), ()), ('c', 1)), sym, node, False)
            self.bindtarget(target.elts[0], sym, fr)
            self.bindtarget(target.elts[1], ('idx', dom, (sym,)), fr)
            return lp
        if fname == 'zip' and isinstance(target, ast.Tuple) and len(target.elts) == len(it.args):
            doms = [self.e(a, fr, g, l) for a in it.args]
            sym = self.newsym('z')
            lp = Loop('iter', ('zip',) + tuple(doms), sym, node, False)
            for t, d in zip(target.elts, doms):
                self.bindtarget(t, ('idx', d, (sym,)), fr)
            return lp
        dom = self.e(it, fr, g, l)
        sym = self.newsym(nm)
        lp = Loop('iter', dom, sym, node, False, (nm,))
        self.bindtarget(target, sym, fr)
        return lp

    def bindtarget(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                self.bindtarget(x, ('idx', v, (('c', i),)), fr)

    def s_For(self, st, fr, g, l):
        names = self.assigned(st)
        self.enter_loop(names, fr)
        lp = self.loop_of(st.target, st.iter, fr, g, l, st)
        self.loop_body(st, lp, names, fr, g, l)
        if st.orelse:
            self.block(st.orelse, fr, g, l)
        return self.returns_in(st)

    def returns_in(self, st):
        return None

    def enter_loop(self, names, fr):
        """Values changing in the loop are unknown at its head."""
        cn = {x + fr.suffix for x in names}
        for k in names:
            if k in fr.env and not (fr.env[k][0] == 'n' and k in fr.objects and fr.env[k] != ('n', k + fr.suffix)):
                fr.env[k] = ('n', k + fr.suffix)
        # objects reached through an alias / inlined parameter
        objs = set()
        for k in names:
            v = fr.env.get(k)
            if v is not None:
                b = v
                while b[0] in ('idx', 'attr'):
                    b = b[1]
                if b[0] == 'n':
                    objs.add(b[1])
        self.kill(fr, cn | objs)

    def loop_body(self, st, lp, names, fr, g, l):
        self.emit('loop', lp.sym, None, lp.dom, g, l, fr, st, aux=lp)
        self.block(st.body, fr, g, l + (lp,))
        self.emit('endloop', lp.sym, None, lp.dom, g, l, fr, st, aux=lp)
        self.enter_loop(names, fr)

    def s_While(self, st, fr, g, l):
        names = self.assigned(st)
        t = st.test
        # iterator loop:  it != C.end()
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.NotEq):
            a, b = t.left, t.comparators[0]
            if isinstance(a, ast.Call):
                a, b = b, a
            if isinstance(a, ast.Name) and isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute) \
                    and b.func.attr == 'end':
                start = fr.env.get(a.id)
                dom = self.e(b.func.value, fr, g, l)
                self.enter_loop(names - {a.id}, fr)
                dom2 = self.e(b.func.value, fr, g, l)
                sym = self.newsym(a.id)
                lp = Loop('iter', dom2, sym, st, False, (a.id,))
                fr.env[a.id] = ('iterpos', sym)
                self.loop_body(st, lp, names - {a.id}, fr, g, l)
                fr.env[a.id] = ('n', a.id + fr.suffix)
                if st.orelse:
                    self.block(st.orelse, fr, g, l)
                return None
        # counter loop: while i < n: ...; i += 1 (the only change of i, last statement)
        cnt = self.counter_loop(st, fr, g, l)
        if cnt:
            var, lo, hi, body = cnt
            self.enter_loop(names - {var}, fr)
            hi2 = self.e(hi, fr, g, l)
            sym = self.newsym(var)
            lp = Loop('range', ('range', lo, hi2, ('c', 1)), sym, st, False, (var,))
            fr.env[var] = sym
            self.emit('loop', lp.sym, None, lp.dom, g, l, fr, st, aux=lp)
            self.block(body, fr, g, l + (lp,))
            self.emit('endloop', lp.sym, None, lp.dom, g, l, fr, st, aux=lp)
            self.enter_loop(names, fr)
            return None
        self.enter_loop(names, fr)
        test = truth(self.e(t, fr, g, l))
        lp = Loop('while', test, self.newsym('w'), st)
        self.loop_body(st, lp, names, fr, AND(g, test), l)
        if st.orelse:
            self.block(st.orelse, fr, g, l)
        return None

    def counter_loop(self, st, fr, g, l):
        t = st.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name)
                and isinstance(t.ops[0], (ast.Lt, ast.NotEq))):
            return None
        var = t.left.id
        last = st.body[-1]
        isinc = False
        if isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == var \
                and isinstance(last.op, ast.Add) and isinstance(last.value, ast.Constant) and last.value.value == 1:
            isinc = True
        if isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) \
                and last.targets[0].id == var and isinstance(last.value, ast.BinOp) \
                and isinstance(last.value.op, ast.Add):
            x, y = last.value.left, last.value.right
            if isinstance(x, ast.Constant):
                x, y = y, x
            isinc = isinstance(x, ast.Name) and x.id == var and isinstance(y, ast.Constant) and y.value == 1
        if not isinc:
            return None
        for n in st.body[:-1]:
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and x.id == var and isinstance(x.ctx, ast.Store):
                    return None
                if isinstance(x, ast.Continue):
                    return None
        lo = fr.env.get(var)
        if lo is None or lo == ('n', var + fr.suffix):
            return None
        return var, lo, t.comparators[0], st.body[:-1]

    def s_With(self, st, fr, g, l):
        for i in st.items:
            v = self.e(i.context_expr, fr, g, l)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, fr, g, l, st)
        return self.block(st.body, fr, g, l)

    def s_Try(self, st, fr, g, l):
        names = self.assigned(st)
        x = self.block(st.body, fr, g, l)
        self.counter += 1
        exc = ('n', 'exc#%d' % self.counter)
        env = dict(fr.env)
        xs = []
        for h in st.handlers:
            xs.append(self.block(h.body, fr, AND(g, exc), l))
            fr.env = dict(env)
        if st.orelse:
            self.block(st.orelse, fr, g, l)
        if st.finalbody:
            self.block(st.finalbody, fr, g, l)
        if st.handlers:
            for k in names:
                if k in fr.env:
                    fr.env[k] = ('n', k + fr.suffix)
            if x == TRUE and all(y == TRUE for y in xs):
                return TRUE
            return OR(*[AND(exc, y) for y in xs]) if xs else FALSE
        return x

    def s_Global(self, st, fr, g, l):
        return None


def walk(fn, resolver=None, inline=None, **kw):
    return Walker(fn, resolver, inline, **kw)
