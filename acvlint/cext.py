"""The C extension, read from clang's syntax tree (with stub headers, so that the C API is plain functions), and a path
executor over it: values are symbolic, every branch is taken both ways, loops with a symbolic bound are summarised by
their induction variables.  No solver: atoms of a condition are compared by identity only."""
import json
import os
import subprocess

from .ctx import AnalysisError

STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs')
CEXT = 'acv_explainers/cext_acv/_cext.cc'
HEAD = 'acv_explainers/cext_acv/acv_tree.h'


class Undecided(Exception):
    pass


def load(ctx):
    """(tree, number of clang errors) of the extension."""
    base = os.path.join(ctx.repo, os.path.dirname(CEXT))
    src = ctx.read(CEXT)
    args = ['clang++', '-x', 'c++', '-std=c++14', '-fsyntax-only', '-ferror-limit=0', '-w', '-Xclang', '-ast-dump=json',
            '-I' + STUBS, '-I' + base]
    if HEAD in ctx.overlay or CEXT in ctx.overlay:
        import shutil
        import tempfile
        d = tempfile.mkdtemp(prefix='acvlint')
        try:
            for rel in (CEXT, HEAD):
                with open(os.path.join(d, os.path.basename(rel)), 'w') as f:
                    f.write(ctx.read(rel))
            p = subprocess.run(args[:-1] + [os.path.join(d, '_cext.cc')], capture_output=True, text=True)
        finally:
            shutil.rmtree(d)
    else:
        p = subprocess.run(args + ['-'], input=src, capture_output=True, text=True, cwd=base)
    try:
        tree = json.loads(p.stdout)
    except ValueError:
        raise AnalysisError('clang cannot read %s: %s' % (CEXT, p.stderr[-300:]))
    lines(tree)
    return tree, p.stderr.count('error:')


def lines(tree):
    """Fills in the file and line of every node (the dump gives them only when they change)."""
    cur = {'file': '', 'line': 0}

    def loc(d):
        if not isinstance(d, dict):
            return
        for k in ('spellingLoc', 'expansionLoc'):
            if k in d:
                loc(d[k])
        if 'file' in d:
            cur['file'] = d['file']
        if 'line' in d:
            cur['line'] = d['line']
    st = [tree]

    def go(n):
        loc(n.get('loc'))
        r = n.get('range') or {}
        loc(r.get('begin'))
        n['_line'] = cur['line']
        n['_file'] = cur['file']
        loc(r.get('end'))
        for c in n.get('inner', []):
            if c:
                go(c)
    go(st[0])


# ------------------------------------------------------------ polynomials over opaque atoms
def const(n):
    return ('p', (((), n),)) if n else ('p', ())


def atom(a):
    return ('p', (((a,), 1),))


def is_p(v):
    return isinstance(v, tuple) and v and v[0] == 'p'


def cval(v):
    if is_p(v):
        if not v[1]:
            return 0
        if len(v[1]) == 1 and v[1][0][0] == ():
            return v[1][0][1]
    return None


def mk(d):
    return ('p', tuple(sorted(((m, c) for m, c in d.items() if c), key=repr)))


def add(a, b, s=1):
    d = dict(a[1])
    for m, c in b[1]:
        d[m] = d.get(m, 0) + s * c
    return mk(d)


def mul(a, b):
    d = {}
    for m, c in a[1]:
        for n, e in b[1]:
            k = tuple(sorted(m + n, key=repr))
            d[k] = d.get(k, 0) + c * e
    return mk(d)


def poly(v):
    return v if is_p(v) else atom(v)


def atoms(v, out=None):
    out = set() if out is None else out
    if isinstance(v, tuple):
        if v and v[0] == 'sym':
            out.add(v)
        for x in v:
            atoms(x, out)
    return out


def sub(v, m):
    if v in m:
        r = m[v]
        return r
    if isinstance(v, tuple):
        if is_p(v):
            r = const(0)
            for mon, c in v[1]:
                t = const(c)
                for a in mon:
                    t = mul(t, poly(sub(a, m)))
                r = add(r, t)
            return r
        return tuple(sub(x, m) for x in v)
    return v


# ------------------------------------------------------------ the executor
class State:
    def __init__(self):
        self.v, self.structs, self.arr, self.facts, self.eff, self.loops, self.err = {}, {}, {}, {}, [], (), False
        self.trace = []

    def copy(self):
        s = State()
        s.v, s.arr, s.facts = dict(self.v), dict(self.arr), dict(self.facts)
        s.structs = {k: dict(d) for k, d in self.structs.items()}
        s.eff, s.loops, s.err, s.trace = list(self.eff), self.loops, self.err, list(self.trace)
        return s


class Exec:
    MAXPATHS = 4000

    def __init__(self, tree, opaque=(), on=None):
        self.fns, self.ctors, self.methods, self.decl = {}, {}, {}, {}
        self.opaque, self.on, self.n, self.loops, self.depth = set(opaque), on, 0, [], 0
        self.stack = []
        for n in tree['inner']:
            self.top(n)

    def top(self, n):
        k = n.get('kind')
        if k == 'FunctionDecl' and body(n) is not None:
            self.fns[n['name']] = n
        elif k == 'CXXRecordDecl' and n.get('inner'):
            for c in n['inner']:
                if c.get('kind') == 'CXXConstructorDecl' and body(c) is not None:
                    self.ctors.setdefault(n['name'], []).append(c)
                elif c.get('kind') == 'CXXMethodDecl' and body(c) is not None:
                    self.methods[c['id']] = c
        elif k in ('LinkageSpecDecl', 'NamespaceDecl'):
            for c in n.get('inner', []):
                self.top(c)

    def fresh(self, name):
        self.n += 1
        return ('sym', name, self.n)

    # ---- expressions: list of (value, state)
    def ev(self, n, st):
        k = n['kind']
        inner = [c for c in n.get('inner', []) if c]
        if k in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXReinterpretCastExpr',
                 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr',
                 'CXXFunctionalCastExpr', 'CXXConstCastExpr', 'CXXDefaultArgExpr'):
            if not inner:
                return [(('unknown', self.fresh('default')), st)]
            if k in ('CStyleCastExpr', 'CXXReinterpretCastExpr', 'CXXStaticCastExpr') and self.on:
                return [(self.on.cast(v, n, s) or v, s) for v, s in self.ev(inner[-1], st)]
            return self.ev(inner[-1], st)
        if k in ('IntegerLiteral', 'CharacterLiteral'):
            return [(const(int(n['value'])), st)]
        if k == 'CXXBoolLiteralExpr':
            return [(const(1 if n['value'] in (True, 'true', 'True') else 0), st)]
        if k == 'FloatingLiteral':
            f = float(n['value'])
            return [(const(int(f)) if f == int(f) else ('float', n['value']), st)]
        if k in ('GNUNullExpr', 'CXXNullPtrLiteralExpr'):
            return [(const(0), st)]
        if k == 'StringLiteral':
            return [(('str', n['value']), st)]
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            if d['id'] in st.v:
                return [(st.v[d['id']], st)]
            return [(('name', d.get('name')), st)]
        if k == 'CXXThisExpr':
            return [(st.v['this'], st)]
        if k == 'MemberExpr':
            out = []
            for b, s in self.ev(inner[0], st):
                out.append((self.field(b, n['name'], s), s))
            return out
        if k == 'ArraySubscriptExpr':
            out = []
            for b, s in self.ev(inner[0], st):
                for i, s2 in self.ev(inner[1], s):
                    out.append((self.load(self.shift(b, i), s2, n), s2))
            return out
        if k == 'UnaryOperator':
            return self.unary(n, inner, st)
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            return self.binary(n, inner, st)
        if k == 'ConditionalOperator':
            out = []
            for b, s in self.cond(inner[0], st):
                out += self.ev(inner[1 if b else 2], s)
            return out
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            return self.call(n, inner, st)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            return self.construct(n, inner, st)
        if k == 'InitListExpr':
            res = [([], st)]
            for c in inner:
                res = [(vs + [v], s2) for vs, s in res for v, s2 in self.ev(c, s)]
            return [(('list', tuple(vs)), s) for vs, s in res]
        if k == 'CXXNewExpr' or k == 'CXXDeleteExpr':
            return [(('unknown', self.fresh('new')), st)]
        if k == 'UnaryExprOrTypeTraitExpr':
            return [(('sizeof', (n.get('argType') or {}).get('qualType', '')), st)]
        if k == 'ImplicitValueInitExpr':
            return [(const(0), st)]
        raise Undecided('%s at line %s' % (k, n.get('_line')))

    def field(self, b, name, st):
        if isinstance(b, tuple) and b and b[0] == 'struct':
            return st.structs.setdefault(b[1], {}).get(name, ('field', b, name))
        return ('field', b, name)

    def shift(self, b, i):
        if isinstance(b, tuple) and b and b[0] == 'ptr':
            return ('ptr', b[1], add(b[2], poly(i)))
        if isinstance(b, tuple) and b and b[0] == 'list':
            return ('elem', b, i)
        return ('ptr', b, poly(i))

    def load(self, p, st, n):
        if self.on:
            self.on.use(p, n, st)
        if p[0] == 'elem':
            c = cval(p[2])
            if c is not None and 0 <= c < len(p[1][1]):
                return p[1][1][c]
            raise Undecided('element of a local array')
        for kind, q, v in reversed([e[:3] for e in st.eff]):
            if kind == '=' and q == p:
                return v
        return ('load', p)

    def cmp(self, op, a, b):
        """A canonical atom with polarity, or a constant."""
        if is_p(a) and is_p(b):
            d = cval(add(a, b, -1))
            if d is not None:
                return {'==': d == 0, '!=': d != 0, '<': d < 0, '<=': d <= 0, '>': d > 0, '>=': d >= 0}[op], True
        if a == b:
            return op in ('==', '<=', '>='), True
        if op in ('>', '>='):
            a, b, op = b, a, {'>': '<', '>=': '<='}[op]
        if op == '!=':
            x, pol = self.cmp('==', a, b)
            return (not x if isinstance(x, bool) else x), (pol if isinstance(x, bool) else not pol)
        if op == '==':
            a, b = sorted((a, b), key=repr)
        if op == '<' and (is_p(a) or is_p(b)) and self.isint(a) and self.isint(b):
            # integers: a < b is not (b <= a)
            return ('<=', b, a), False
        return (op, a, b), True

    def isint(self, v):
        return is_p(v)

    # ---- conditions: list of (bool, state)
    def cond(self, n, st):
        k = n['kind']
        inner = [c for c in n.get('inner', []) if c]
        if k in ('ParenExpr', 'ExprWithCleanups', 'ConstantExpr') or k == 'ImplicitCastExpr':
            return self.cond(inner[-1], st)
        if k == 'UnaryOperator' and n['opcode'] == '!':
            return [(not b, s) for b, s in self.cond(inner[0], st)]
        if k == 'BinaryOperator' and n['opcode'] in ('&&', '||'):
            out = []
            stop = n['opcode'] == '||'
            for b, s in self.cond(inner[0], st):
                if b == stop:
                    out.append((b, s))
                else:
                    out += self.cond(inner[1], s)
            return out
        if k == 'BinaryOperator' and n['opcode'] in ('==', '!=', '<', '<=', '>', '>='):
            out = []
            for a, s in self.ev(inner[0], st):
                for b, s2 in self.ev(inner[1], s):
                    for isn in ((a, b), (b, a)):
                        if isn[0][0] == 'arr' and cval(isn[1]) == 0 and n['opcode'] in ('==', '!='):
                            out += [(x == (n['opcode'] == '=='), s3) for x, s3 in self.isnull(isn[0], s2)]
                            break
                    else:
                        out += self.split(*self.cmp(n['opcode'], self.num(a), self.num(b)), s2)
            return out
        out = []
        for v, s in self.ev(n, st):
            if isinstance(v, tuple) and v[0] == 'arr':
                out += [(not x, s2) for x, s2 in self.isnull(v, s)]
            elif isinstance(v, tuple) and v[0] == 'bool':
                out += self.split(v[1], v[2], s)
            elif isinstance(v, tuple) and v[0] == 'cases':
                raise Undecided('cases')
            else:
                out += self.split(*self.cmp('!=', self.num(v), const(0)), s)
        return out

    def num(self, v):
        """Values of integers as polynomials so that equal ones meet; loads and fields are atoms."""
        return v if isinstance(v, tuple) and v and v[0] in ('arr', 'ptr', 'str') else poly(v)

    def isnull(self, a, st):
        x = st.arr.get(a)
        if x in ('owned', 'released', 'borrowed'):
            return [(False, st)]
        if x == 'null':
            return [(True, st)]
        t, f = st.copy(), st.copy()
        t.arr[a], f.arr[a] = 'null', 'owned'
        t.err = True            # a failed conversion sets the exception
        return [(True, t), (False, f)]

    def split(self, a, pol, st):
        if isinstance(a, bool):
            return [(a == pol, st)]
        if a in st.facts:
            return [(st.facts[a] == pol, st)]
        t, f = st.copy(), st.copy()
        t.facts[a], f.facts[a] = True, False
        return [(pol, t), (not pol, f)]

    # ---- operators
    def assign(self, lhs, val, st, n):
        k = lhs['kind']
        inner = [c for c in lhs.get('inner', []) if c]
        if k in ('ParenExpr', 'ImplicitCastExpr'):
            return self.assign(inner[0], val, st, n)
        if k == 'DeclRefExpr':
            st.v[lhs['referencedDecl']['id']] = val
            return [st]
        if k == 'MemberExpr':
            out = []
            for b, s in self.ev(inner[0], st):
                if isinstance(b, tuple) and b[0] == 'struct':
                    s.structs.setdefault(b[1], {})[lhs['name']] = val
                else:
                    s.eff.append(('=', ('field', b, lhs['name']), val, s.loops, dict(s.facts), n.get('_line')))
                out.append(s)
            return out
        if k == 'ArraySubscriptExpr':
            out = []
            for b, s in self.ev(inner[0], st):
                for i, s2 in self.ev(inner[1], s):
                    p = self.shift(b, i)
                    if self.on:
                        self.on.use(p, n, s2)
                    s2.eff.append(('=', p, val, s2.loops, dict(s2.facts), n.get('_line')))
                    out.append(s2)
            return out
        if k == 'UnaryOperator' and lhs['opcode'] == '*':
            out = []
            for b, s in self.ev(inner[0], st):
                p = self.shift(b, const(0))
                if self.on:
                    self.on.use(p, n, s)
                s.eff.append(('=', p, val, s.loops, dict(s.facts), n.get('_line')))
                out.append(s)
            return out
        raise Undecided('assignment to %s at line %s' % (k, lhs.get('_line')))

    def arith(self, op, a, b):
        pa = isinstance(a, tuple) and a[0] == 'ptr'
        pb = isinstance(b, tuple) and b[0] == 'ptr'
        if op in '+-' and pa and not pb:
            return ('ptr', a[1], add(a[2], poly(b), 1 if op == '+' else -1))
        if op == '+' and pb and not pa:
            return ('ptr', b[1], add(b[2], poly(a)))
        if op in ('+', '-'):
            return add(poly(a), poly(b), 1 if op == '+' else -1)
        if op == '*':
            return mul(poly(a), poly(b))
        return ('op', op, a, b)

    def binary(self, n, inner, st):
        op = n['opcode']
        if op == '=':
            out = []
            for v, s in self.ev(inner[1], st):
                out += [(v, s2) for s2 in self.assign(inner[0], v, s, n)]
            return out
        if op in ('&&', '||', '==', '!=', '<', '<=', '>', '>='):
            return [(const(1 if b else 0), s) for b, s in self.cond(n, st)]
        if op == ',':
            return [x for _, s in self.ev(inner[0], st) for x in self.ev(inner[1], s)]
        if op.endswith('='):
            out = []
            arr = strip(inner[0])
            for v, s in self.ev(inner[1], st):
                if arr['kind'] == 'ArraySubscriptExpr' or (arr['kind'] == 'UnaryOperator' and arr['opcode'] == '*'):
                    ai = [c for c in arr['inner'] if c]
                    for b, s2 in self.ev(ai[0], s):
                        for i, s3 in (self.ev(ai[1], s2) if len(ai) > 1 else [(const(0), s2)]):
                            p = self.shift(b, i)
                            if self.on:
                                self.on.use(p, n, s3)
                            s3.eff.append((op, p, v, s3.loops, dict(s3.facts), n.get('_line')))
                            out.append((v, s3))
                    continue
                for a, s2 in self.ev(inner[0], s):
                    w = self.arith(op[:-1], a, v)
                    out += [(w, s3) for s3 in self.assign(inner[0], w, s2, n)]
            return out
        return [(self.arith(op, a, b), s2) for a, s in self.ev(inner[0], st) for b, s2 in self.ev(inner[1], s)]

    def unary(self, n, inner, st):
        op = n['opcode']
        if op == '!':
            return [(const(1 if b else 0), s) for b, s in self.cond(n, st)]
        if op == '&':
            d = strip(inner[0])
            if d['kind'] == 'DeclRefExpr':
                return [(('addr', d['referencedDecl']['id'], d['referencedDecl'].get('name')), st)]
            if d['kind'] == 'ArraySubscriptExpr':
                ai = [c for c in d['inner'] if c]
                return [(self.shift(b, i), s2) for b, s in self.ev(ai[0], st) for i, s2 in self.ev(ai[1], s)]
            return [(('addr-of', self.fresh('x')), st)]
        if op == '*':
            return [(self.load(self.shift(b, const(0)), s, n), s) for b, s in self.ev(inner[0], st)]
        if op in ('++', '--'):
            out = []
            for a, s in self.ev(inner[0], st):
                w = self.arith('+' if op == '++' else '-', a, const(1))
                for s2 in self.assign(inner[0], w, s, n):
                    out.append((a if n.get('isPostfix') else w, s2))
            return out
        if op == '-':
            return [(mul(const(-1), poly(a)), s) for a, s in self.ev(inner[0], st)]
        if op == '+':
            return self.ev(inner[0], st)
        raise Undecided('operator %s' % op)

    def construct(self, n, inner, st):
        name = (n.get('type') or {}).get('qualType', '').replace('const ', '').replace('struct ', '').strip()
        if len(inner) == 1 and name in ((inner[0].get('type') or {}).get('qualType', '')):
            out = []
            for v, s in self.ev(inner[0], st):
                if v[0] == 'struct':
                    i = self.fresh(name)
                    s.structs[i] = dict(s.structs.get(v[1], {}))
                    v = ('struct', i)
                out.append((v, s))
            return out
        res = [([], st)]
        for c in inner:
            res = [(vs + [v], s2) for vs, s in res for v, s2 in self.ev(c, s)]
        out = []
        for vs, s in res:
            i = self.fresh(name)
            s.structs[i] = {}
            for c in self.ctors.get(name, []):
                ps = [p for p in c.get('inner', []) if p.get('kind') == 'ParmVarDecl']
                if len(ps) != len(vs):
                    continue
                for p, v in zip(ps, vs):
                    s.v[p['id']] = v
                s.v['this'] = ('struct', i)
                for x in c.get('inner', []):
                    if x.get('kind') == 'CXXCtorInitializer' and x.get('inner'):
                        (v, s), = self.ev(x['inner'][0], s)
                        s.structs[i][x['anyInit']['name']] = v
                for kind, v, s2 in self.block(body(c), s):
                    s = s2
                break
            out.append((('struct', i), s))
        return out

    def call(self, n, inner, st):
        f = strip(inner[0])
        name = (f.get('referencedDecl') or {}).get('name') if f['kind'] == 'DeclRefExpr' else f.get('name')
        this = None
        res = [([], st)]
        if f['kind'] == 'MemberExpr':
            res = [([b], s) for b, s in self.ev([c for c in f['inner'] if c][0], st)]
            this = True
        for c in inner[1:]:
            if c['kind'] == 'CXXDefaultArgExpr':
                res = [(vs + [None], s) for vs, s in res]
                continue
            res = [(vs + [v], s2) for vs, s in res for v, s2 in self.ev(c, s)]
        fn = self.methods.get(f.get('referencedMemberDecl')) if this else self.fns.get(name)
        out = []
        for vs, s in res:
            if self.on:
                r = self.on.call(self, name, vs, n, s)
                if r is not None:
                    out += r
                    continue
            if fn is None or name in self.opaque or name in self.stack or self.depth > 6:
                out.append((('call', name, tuple(vs)), s))
                continue
            out += self.inline(fn, name, vs, this, s)
        if len(out) > self.MAXPATHS:
            raise Undecided('too many paths')
        return out

    def inline(self, fn, name, vs, this, s):
        ps = [p for p in fn.get('inner', []) if p.get('kind') == 'ParmVarDecl']
        old = s.v.get('this')
        if this:
            s.v['this'] = vs[0]
            vs = vs[1:]
        for p, v in zip(ps, vs):
            if v is None:
                d = [c for c in p.get('inner', []) if c]
                v = self.ev(d[0], s)[0][0] if d else ('unknown', self.fresh('default'))
            s.v[p['id']] = v
        self.stack.append(name)
        self.depth += 1
        try:
            r = self.block(body(fn), s)
        finally:
            self.depth -= 1
            self.stack.pop()
        out = []
        for kind, v, s2 in r:
            if kind == 'goto':
                raise Undecided('goto')
            s2.v['this'] = old
            out.append((v if kind == 'ret' else const(0), s2))
        return out

    # ---- statements: list of (kind, value, state)
    def block(self, n, st):
        return self.seq([c for c in n.get('inner', []) if c], st)

    def seq(self, stmts, st, start=0):
        cur, out = [('next', None, st)], []
        for j in range(start, len(stmts)):
            nxt = []
            for kind, v, s in cur:
                nxt += self.stmt(stmts[j], s)
            cur = []
            for r in nxt:
                (cur if r[0] == 'next' else out).append(r)
            if len(cur) > self.MAXPATHS:
                raise Undecided('too many paths')
        done = []
        for r in out:
            if r[0] == 'goto':
                for j, x in enumerate(stmts):
                    if x['kind'] == 'LabelStmt' and x.get('declId') == r[1]:
                        done += self.seq(stmts, r[2], j)
                        break
                else:
                    done.append(r)
            else:
                done.append(r)
        return done + cur

    def stmt(self, n, st):
        k = n['kind']
        inner = [c for c in n.get('inner', []) if c]
        if k == 'CompoundStmt':
            return self.block(n, st)
        if k == 'DeclStmt':
            res = [st]
            for d in inner:
                if d['kind'] != 'VarDecl':
                    continue
                nxt = []
                for s in res:
                    init = [c for c in d.get('inner', []) if c and not c.get('kind', 'Attr').endswith(('Attr', 'Comment'))]
                    if init:
                        for v, s2 in self.ev(init[-1], s):
                            s2.v[d['id']] = v
                            nxt.append(s2)
                    else:
                        s.v[d['id']] = ('uninit', d.get('name'))
                        nxt.append(s)
                res = nxt
            return [('next', None, s) for s in res]
        if k == 'ReturnStmt':
            if not inner:
                return [('ret', const(0), st)]
            r = self.ev(inner[0], st)
            if self.on and not self.stack:
                for v, s in r:
                    self.on.ret(v, n, s)
            return [('ret', v, s) for v, s in r]
        if k == 'IfStmt':
            out = []
            pre = [st]
            if n.get('hasInit') or n.get('hasVar'):
                raise Undecided('if with declaration')
            for s0 in pre:
                for b, s in self.cond(inner[0], s0):
                    if b:
                        out += self.stmt(inner[1], s)
                    elif len(inner) > 2:
                        out += self.stmt(inner[2], s)
                    else:
                        out.append(('next', None, s))
            return out
        if k in ('NullStmt',):
            return [('next', None, st)]
        if k == 'BreakStmt':
            return [('break', None, st)]
        if k == 'ContinueStmt':
            return [('continue', None, st)]
        if k == 'GotoStmt':
            return [('goto', n.get('targetLabelDeclId'), st)]
        if k == 'LabelStmt':
            return self.stmt(inner[0], st)
        if k == 'WhileStmt':
            return self.loop(n, None, inner[0], None, inner[-1], st)
        if k == 'DoStmt':
            raise Undecided('do loop')
        if k == 'ForStmt':
            raw = n.get('inner', [])
            init, _, cond, inc, bod = (raw + [None] * 5)[:5]
            init, cond, inc = init or None, cond or None, inc or None
            rs = [('next', None, st)] if not init or not init.get('kind') else self.stmt(init, st)
            out = []
            for _, _, s in rs:
                out += self.loop(n, None, cond if cond and cond.get('kind') else None,
                                 inc if inc and inc.get('kind') else None, bod, s)
            return out
        if k == 'CXXForRangeStmt':
            raise Undecided('range for')
        return [('next', None, s) for _, s in self.ev(n, st)]

    # ---- loops
    def loop(self, n, _, cond, inc, bod, st):
        r = self.unroll(cond, inc, bod, st)
        if r is not None:
            return r
        mod = assigned([x for x in (cond, inc, bod) if x])
        mod = [m for m in mod if m in st.v]
        head = {m: self.fresh('h%d' % i) for i, m in enumerate(mod)}
        # pass 1: what one turn does to the variables
        s1 = st.copy()
        e0 = len(s1.eff)
        for m in mod:
            isp = isinstance(st.v[m], tuple) and st.v[m][0] == 'ptr'
            s1.v[m] = ('ptr', head[m], const(0)) if isp else atom(head[m])
        hs = {m: s1.v[m] for m in mod}
        ends, exits, conds = [], [], []
        on, self.on = self.on, None
        nl = len(self.loops)
        try:
            for b, s in (self.cond(cond, s1) if cond else [(True, s1)]):
                if not b:
                    conds.append(dict(s.facts))
                    continue
                for kind, v, s2 in self.stmt(bod, s):
                    if kind in ('next', 'continue'):
                        for s3 in ([x for _, x in self.ev(inc, s2)] if inc else [s2]):
                            ends.append(s3)
                    else:
                        exits.append((kind, v, s2))
        finally:
            self.on = on
        del self.loops[nl:]
        step = {}
        for m in mod:
            ds = set()
            for s in ends:
                a, h = s.v[m], hs[m]
                if isinstance(h, tuple) and h[0] == 'ptr':
                    ds.add(add(a[2], h[2], -1) if isinstance(a, tuple) and a[0] == 'ptr' and a[1] == h[1] else None)
                else:
                    ds.add(add(a, h, -1) if is_p(a) else None)
            if len(ds) == 1 and None not in ds:
                d = next(iter(ds))
                if not (atoms(d) & set(head.values())):
                    step[m] = d
        acc = {}        # accumulators: their turn adds something that depends on the counters only
        # the counter: cond  v < N  over an induction variable
        it = self.fresh('it')
        bound = None
        if cond is not None and len(conds) == 1:
            new = [(a, b) for a, b in conds[0].items() if a not in st.facts]
            if len(new) == 1:
                bound = self.bound(new[0], {head[m]: (st.v[m], step[m]) for m in step if is_p(atom(head[m]))})
        lid = ('loop', it, bound)
        s2 = st.copy()
        s2.loops = st.loops + (lid,)
        for m in mod:
            if m in step:
                v0 = st.v[m]
                t = mul(atom(it), step[m])
                s2.v[m] = ('ptr', v0[1], add(v0[2], t)) if isinstance(v0, tuple) and v0[0] == 'ptr' else add(poly(v0), t)
            else:
                s2.v[m] = hs[m]
        heads = {m: s2.v[m] for m in mod}
        out, turns = [], []
        body_states = []
        for b, s in (self.cond(cond, s2) if cond else [(True, s2)]):
            if not b:
                turns.append(('exit', None, dict(s.facts), {m: s.v[m] for m in mod}))
                continue
            for kind, v, s3 in self.stmt(bod, s):
                if kind in ('next', 'continue'):
                    for s4 in ([x for _, x in self.ev(inc, s3)] if inc else [s3]):
                        turns.append(('next', None, dict(s4.facts), {m: s4.v[m] for m in mod}))
                        body_states.append(s4)
                elif kind == 'break':
                    turns.append(('break', None, dict(s3.facts), {m: s3.v[m] for m in mod}))
                    body_states.append(s3)
                else:
                    turns.append((kind, v, dict(s3.facts), {m: s3.v[m] for m in mod}))
                    out.append((kind, v, s3))
        for m in mod:
            if m not in step and is_p(heads[m]):
                ds = {add(t[3][m], heads[m], -1) if is_p(t[3][m]) else None for t in turns if t[0] == 'next'}
                if len(ds) == 1 and None not in ds and len([t for t in turns if t[0] == 'next']) == 1:
                    d = next(iter(ds))
                    if not (atoms(d) & {x for k in mod if k not in step for x in atoms(heads[k])}):
                        acc[m] = d
        self.loops.append({'node': n, 'init': {m: st.v[m] for m in mod}, 'head': heads, 'turns': turns, 'step': step,
                           'outer': st.loops, 'bound': bound, 'fn': self.stack[-1] if self.stack else None})
        # after the loop
        after = st.copy()
        seen = set()
        for s in body_states:
            for e in s.eff[len(st.eff):]:
                key = repr(e)
                if key not in seen:
                    seen.add(key)
                    after.eff.append(e)
            for a, x in s.arr.items():
                if after.arr.get(a) != x:
                    raise Undecided('array state changed in a loop')
            for i, d in s.structs.items():
                if i in after.structs and after.structs[i] != d:
                    raise Undecided('struct changed in a loop')
            after.err = after.err or s.err
        brk = any(t[0] == 'break' for t in turns)
        leave = [t for t in turns if t[0] in ('break', 'exit')]
        lone = len(leave) == 1 and brk
        for m in mod:
            if lone:
                after.v[m] = leave[0][3][m]
            elif m in step and bound is not None and not brk:
                v0 = st.v[m]
                t = mul(bound, step[m])
                after.v[m] = ('ptr', v0[1], add(v0[2], t)) if isinstance(v0, tuple) and v0[0] == 'ptr' else add(poly(v0), t)
            elif m in acc and bound is not None and not brk and is_p(poly(st.v[m])) and st.v[m][0] != 'ptr':
                after.v[m] = add(poly(st.v[m]), atom(('sum', it, bound, acc[m])))
            elif not brk and len([t for t in turns if t[0] == 'exit']) == 1:
                after.v[m] = [t for t in turns if t[0] == 'exit'][0][3][m]
            else:
                after.v[m] = ('ptr', self.fresh('after'), const(0)) if isinstance(st.v[m], tuple) and st.v[m][0] == 'ptr' \
                    else atom(self.fresh('after'))
        ex = [t for t in turns if t[0] == 'exit']
        if not brk and len(ex) == 1 and bound is None:
            after.facts.update(ex[0][2])
        if lone:
            after.facts.update(leave[0][2])
        if cond is None and not brk:
            return out
        if cval_true(cond) and not brk:
            return out
        return out + [('next', None, after)]

    def bound(self, fact, ind):
        (a, val) = fact
        if a[0] == '<=' and len(a) == 3:
            lo, hi = a[1], a[2]
            if val is True:         # leaves when lo <= hi, i.e. stays while hi < lo
                for h, (v0, stp) in ind.items():
                    if hi == atom(h) and cval(stp) == 1 and is_p(poly(v0)):
                        return add(lo, poly(v0), -1)
            else:                   # leaves when hi < lo: stays while lo <= hi
                for h, (v0, stp) in ind.items():
                    if lo == atom(h) and cval(stp) == 1:
                        return add(add(hi, poly(v0), -1), const(1))
        if a[0] == '==' and val is True:
            for h, (v0, stp) in ind.items():
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    if x == atom(h) and cval(stp) == 1:
                        return add(y, poly(v0), -1)
        return None

    def unroll(self, cond, inc, bod, st):
        """The loop run turn by turn when its condition is a constant each time."""
        if cond is None or cval_true(cond):
            return None
        cur, out = [st.copy()], []
        eff = len(st.eff)
        on, self.on = self.on, None
        for turn in range(2):
            try:
                r = self.cond(cond, st.copy())
            except Undecided:
                r = []
            finally:
                self.on = on
            if len(r) != 1:
                return None
            break
        for _ in range(200):
            nxt = []
            for s in cur:
                r = self.cond(cond, s)
                if len(r) != 1:
                    return None
                b, s = r[0]
                if not b:
                    out.append(('next', None, s))
                    continue
                for kind, v, s2 in self.stmt(bod, s):
                    if kind == 'break':
                        out.append(('next', None, s2))
                    elif kind in ('next', 'continue'):
                        nxt += [x for _, x in self.ev(inc, s2)] if inc else [s2]
                    else:
                        out.append((kind, v, s2))
            cur = nxt
            if not cur:
                return out
        raise Undecided('loop does not end')


def cval_true(n):
    if n is None:
        return True
    n = strip(n)
    return n['kind'] == 'CXXBoolLiteralExpr' and n['value'] in (True, 'true') or \
        n['kind'] == 'IntegerLiteral' and n['value'] != '0'


def strip(n):
    while n['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'ConstantExpr'):
        n = [c for c in n['inner'] if c][-1]
    return n


def body(fn):
    for c in fn.get('inner', []):
        if c.get('kind') == 'CompoundStmt':
            return c
    return None


def assigned(nodes):
    out = []
    st = list(nodes)
    local = set()
    while st:
        n = st.pop(0)
        if n['kind'] == 'VarDecl':
            local.add(n['id'])
        lhs = None
        if n['kind'] in ('BinaryOperator', 'CompoundAssignOperator') and n['opcode'].endswith('=') and \
                n['opcode'] not in ('==', '!=', '<=', '>='):
            lhs = n['inner'][0]
        elif n['kind'] == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            lhs = n['inner'][0]
        if lhs is not None:
            lhs = strip(lhs)
            if lhs['kind'] == 'DeclRefExpr' and lhs['referencedDecl']['id'] not in out:
                out.append(lhs['referencedDecl']['id'])
        st += [c for c in n.get('inner', []) if c and c.get('kind')]
    return [m for m in out if m not in local]
