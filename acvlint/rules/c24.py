"""A converted tree keeps the nodes, thresholds and weights of its model, and the leaf regions are its paths.  For each class
of model the arrays of a converted tree are extracted as terms over the arrays of the model (loops summarised as maps and
fills, conditions on the class of the model evaluated) and compared with the terms of the definition: children, features,
thresholds, values (scaled, or normalised by the sum of the node), weights.  The packed tables must hold row t of tree t; the
list of leaves, of the features of a path and the region of a leaf follow from the walk that fills them, whose step is
interpreted over intervals: left ends the interval at the threshold, right starts it there."""
from ..build import Build, has, mapsyms, name_of, repl, strip
from ..vn import alts, show

SELF = ('param', 'self')
MODEL = ('param', 'model')


def cls_names(v):
    if v[0] == 'const':
        return [v[1]]
    if v[0] in ('list', 'tuple'):
        return [x[1] for x in v[1:] if x[0] == 'const']
    return []


class Mode:
    """The tests of the constructor, for one class of model."""

    def __init__(self, cls, stacked=False, one_output=True):
        self.cls, self.stacked, self.one = cls, stacked, one_output

    def __call__(self, v):
        if v[0] == 'call' and (v[1] if isinstance(v[1], str) else name_of(v[1]) or '').endswith('safe_isinstance'):
            if v[2][0] == MODEL:
                return self.cls in cls_names(v[2][1])
            return any('dummy' in (c or '').lower() for c in cls_names(v[2][1]))
        if has(v, ('name', 'type')) and has(v, MODEL):
            return False
        if v[0] == 'cmp' and v[2][0] == v[3][0] == 'const' and all(isinstance(x[1], (int, float)) for x in v[2:4]):
            a, b = v[2][1], v[3][1]
            return {'Lt': a < b, 'LtE': a <= b, 'Eq': a == b, 'NotEq': a != b}.get(v[1])
        if v[0] == 'cmp' and v[1] in ('Lt', 'LtE', 'NotEq', 'Eq') and (has(v, 'n_classes_') or has(v, 'num_class') or has(v, 'num_stacked_models')):
            if v[1] == 'LtE' and v[3][0] == 'const' or v[1] == 'Eq' or v[1] == 'Lt' and v[3][0] == 'const':
                return not self.stacked
            return self.stacked
        if v[0] == 'cmp' and v[1] in ('Eq', 'NotEq') and ('const', 1) in v[2:]:
            if has(v, 'num_outputs') or has(v, 'values') and has(v, 'shape'):
                return self.one == (v[1] == 'Eq')
            if has(v, 'shape') or has(v, 'data_dim'):
                return v[1] != 'Eq'      # several features
        if v[0] in ('map', 'flat') or v[0] == 'call' and isinstance(v[1], str) and v[1].endswith('.get_trees'):
            return True
        if v[0] == 'cmp' and v[1] in ('Is', 'IsNot', 'Eq', 'NotEq') and (v[2][0] in ('map', 'flat', 'dict') or v[2][0] == 'call' and isinstance(v[2][1], str) and v[2][1].endswith('.get_trees')):
            return v[1] in ('IsNot', 'NotEq')
        return None


def constructed(env, cls, mode):
    init = env.ctx.method(cls, '__init__')

    def known(cf, m, node, st, vn):
        if cf.name == 'get_partition':
            a = {p: vn.ev(x, st) for p, x in m.items()}
            for p in ('part', 'node_id'):
                t = m.get(p)
                if t is not None and hasattr(t, 'id'):
                    st.env[t.id] = ('region' if p == 'part' else 'path', a.get('leaf_id'), a.get('children_left'), a.get('children_right'),
                                    a.get('feature'), a.get('threshold'), a[p])
            return ('const', None)
        if cf.name == '__init__' and cf.cls is not None and cf.cls.name.endswith('Tree'):
            a = {p: vn.ev(x, st) for p, x in m.items()}
            return ('newtree', cf.cls.name, tuple(sorted(a.items())))
        return None
    vn = Build(env, mode, lambda fn, g: g.cls is not None and g.cls is cls and g.name != '__init__', known=known)
    v, st = vn.run(init)
    return init, st


def unify(pat, v, s, got):
    if pat == s:
        if got and got[0] != v:
            return False
        got[:] = [v]
        return True
    if isinstance(pat, tuple) and isinstance(v, tuple) and len(pat) == len(v):
        return all(unify(a, b, s, got) for a, b in zip(pat, v))
    return pat == v


def trees_named(v, trees):
    """v with the p-th tree written ('T', p)."""
    if isinstance(v, tuple):
        if v and v[0] == 'newtree':
            got = []
            if trees[0] == 'map' and unify(trees[3], v, trees[1], got):
                return ('T', got[0] if got else ('const', 0))
        if v[:1] == ('idx',) and (v[1] == ('attr', SELF, 'trees') or v[1] == trees):
            return ('T', v[2])
        return tuple(trees_named(x, trees) for x in v)
    return v


NODES = ('children_left', 'children_right', 'children_default', 'features', 'thresholds', 'values', 'node_sample_weight')
NEWSYM = ('sym', 'x')


def call(n, *a):
    return ('call', ('name', n), a, ())


def canon(v):
    """One writing for node counts, leaf lists, paths; conversions that keep the values dropped."""
    if not isinstance(v, tuple):
        return v
    if v[:1] == ('call',) and isinstance(v[1], tuple):
        w = strip(v)
        if w != v:
            return canon(w)
        n = name_of(v[1]) or ''
        a = tuple(canon(x) for x in v[2])
        kw = dict(v[3])
        if n == 'len' and len(a) == 1 and a[0][0] == 'attr' and a[0][2] in NODES and a[0][1][0] == 'T':
            return ('nodes', a[0][1][1])
        if n == 'len' and a == (('attr', SELF, 'trees'),):
            return ('nt',)
        if n == 'len' and len(a) == 1 and a[0][0] == 'idx' and a[0][2][0] == 'tuple' and len(a[0][2]) == 3 and a[0][2][1][0] == 'slice':
            return canon(call('len', a[0][1]))
        if n == 'len' and len(a) == 1 and a[0][0] == 'map':
            return a[0][2]
        if n in ('np.max', 'max', 'np.amax') or v[1][0] == 'attr' and v[1][2] == 'max' and not a:
            x = a[0] if a else canon(v[1][1])
            return ('max', x)
        if n in ('set', 'np.unique', 'sorted', 'frozenset') and len(a) == 1:
            return a[0] if a[0][0] == 'set' else ('set', a[0])
        if n in ('np.where', 'np.nonzero', 'np.flatnonzero') and len(a) == 1 and leaf_test(a[0]) is not None:
            return ('leaves', leaf_test(a[0])) if n == 'np.flatnonzero' else ('tuple', ('leaves', leaf_test(a[0])))
        if n in ('np.ones', 'np.zeros', 'np.empty', 'np.full'):
            sh = a[0] if a else canon(kw['shape']) if 'shape' in kw else ('opaque', 0)
            return ('array', sh)
        if n in ('np.expand_dims',):
            return a[0]
        return ('call', v[1], a, tuple((k, canon(x)) for k, x in v[3]))
    v = tuple(canon(x) for x in v)
    if v[:1] == ('idx',) and v[1][:1] == ('attr',) and v[1][2] == 'shape' and v[2] == ('const', 0) and v[1][1][:1] == ('attr',) and \
            v[1][1][2] in NODES and v[1][1][1][:1] == ('T',):
        return ('nodes', v[1][1][1][1])
    if v[:1] == ('idx',) and v[1][:1] == ('tuple',) and v[2][:1] == ('const',) and v[2][1] == 0 and len(v[1]) > 1:
        return v[1][1]
    if v[:1] == ('filter',) and len(v[1]) == 1 and len(v[2]) == 1 and v[3] == (v[1][0][0],) and v[1][0][1][:1] == ('nodes',):
        p = leaf_test(v[2][0], v[1][0][0])
        if p is not None and (p == v[1][0][1][1] or p[0] == 'wrong'):
            return ('leaves', p)
    if v[:1] == ('neg',) and v[1][:1] == ('array',):
        return v[1]
    if v[:1] == ('op',) and v[1] == 'Mult' and any(x[:1] == ('array',) for x in v[2:4]) and any(x[:1] == ('const',) for x in v[2:4]):
        return [x for x in v[2:4] if x[:1] == ('array',)][0]
    if v[:1] == ('path',) and isinstance(v[6], tuple) and v[6][:1] == ('list',):
        return ('path',) + v[1:6] + (len(v[6]) - 1,)
    if v[:1] == ('idx',) and v[1][:1] == ('path',) and v[2][:1] == ('slice',):
        if v[2][1:] == (('const', v[1][6]), ('const', None), ('const', None)):
            return ('path',) + v[1][1:6] + (0,)
        return ('wrong', 'the features of the path are cut at %s' % show(v[2][1]))
    if v[:1] == ('idx',) and v[2][:1] == ('tuple',) and len(v[2]) == 2:
        return ('idx', v[1], v[2][1])
    return v


def leaf_test(c, s=None):
    """p if the test says that node s of tree p is a leaf."""
    if c[0] != 'cmp' or c[1] not in ('Lt', 'LtE', 'Eq', 'NotEq'):
        return None
    a, b = c[2], c[3]
    if s is not None:
        if a[0] == 'idx' and a[2] == s:
            a = a[1]
        elif b[0] == 'idx' and b[2] == s:
            b = b[1]
        else:
            return None
    x, flip = (a, False) if b[0] == 'const' else (b, True)
    k = b[1] if b[0] == 'const' else a[1] if a[0] == 'const' else None
    if s is None and flip:
        return None
    if x[0] == 'attr' and x[1][0] == 'T' and x[2] in ('children_left', 'children_right') and isinstance(k, (int, float)):
        # children are numbered from 1, a leaf has -1
        told = [{'Lt': k < n if flip else n < k, 'LtE': k <= n if flip else n <= k, 'Eq': n == k, 'NotEq': n != k}[c[1]] for n in (-1, 1, 2, 1000)]
        return x[1][1] if told == [True, False, False, False] else ('wrong', 'inner nodes taken for leaves, or leaves left out')
    if x[0] == 'attr' and x[1][0] == 'T' and x[2] in ('thresholds', 'values', 'node_sample_weight'):
        return ('wrong', 'leaves told by %s' % x[2])
    return None


VOCAB = {'len', 'np.ones', 'np.zeros', 'abs', 'min', 'np.min', 'np.mean', 'sum', 'np.sum'}


def unclear(v):
    if not isinstance(v, tuple):
        return False
    if v[:1] in (('havoc',), ('opaque',), ('unset',), ('prev',), ('filter',), ('comp',), ('rowof',)):
        return True
    if v[:1] == ('call',) and (not isinstance(v[1], tuple) or name_of(v[1]) not in VOCAB):
        return True
    return any(unclear(x) for x in v)


def at(v, *pos):
    for p in pos:
        v = Build.item(v, p)
    return v


def flat(v):
    """(binders, element) of a list of lists all of whose elements are meant."""
    bs = []
    while v[0] in ('map', 'flat') and len(v) == 4:
        bs.append((v[1], v[2]))
        v = v[3]
    return bs, v


class Judge:
    def __init__(self, r, f, what):
        self.r, self.f, self.what, self.n = r, f, what, 0

    def __call__(self, rule, name, got, want, said):
        if got != want and (unclear(got) or got is None):
            self.r.notes.append('%s: %s of %s is not written in a form the rule reads' % (rule, name, self.what))
            return
        self.r.ob(rule, '%s %s' % (name, self.what), self.f.loc(), got == want, '%s, it is %s' % (said, show(got) if isinstance(got[0], str) else got))


class Attrs(dict):
    def __missing__(self, k):
        return ('havoc',)


def packed(env, r, cls, mode, first):
    f, st = constructed(env, cls, mode)
    if st is None:
        r.notes.append('no constructed explainer for %s' % mode.cls)
        return None
    tr = st.attrs.get((SELF, 'trees'))
    if tr is None or tr[0] != 'map':
        r.notes.append('trees of %s not a list the rule reads' % mode.cls)
        return tr
    if not first:
        return tr
    r.unit(f)
    J = Judge(r, f, '%s%s' % (cls.name, ' stacked' if mode.stacked else ''))
    A = Attrs((k[1], canon(trees_named(v, tr))) for k, v in st.attrs.items() if k[0] == SELF)
    A = Attrs((k, repl(v, canon(trees_named(tr[2], tr)), ('nt',))) for k, v in A.items())
    t, j = ('sym', 't'), ('sym', 'j')
    T, L = ('T', t), ('leaves', t)
    leaf = ('idx', L, j)
    path = (leaf,) + tuple(('attr', T, k) for k in ('children_left', 'children_right', 'features', 'thresholds'))
    nl = call('len', L)
    J('tree-tables', 'leaves_nb', canon(at(A['leaves_nb'], t)), nl, 'entry t should be the number of leaves of tree t')
    for k, want, said in (('leaf_idx_trees', L, 'row t should list the leaves of tree t'),
                          ('partition_leaves_trees', None, 'row t should list the regions of the leaves of tree t')):
        v = A[k]
        if v[0] != 'fill':
            J('tree-tables', k, v, None, said)
            continue
        base, s, n, idx, val = v[1:6]
        J('tree-tables', k + ' rows', mapsyms(('tuple',) + idx, {s: t}), ('tuple', t, ('slice', ('const', None), nl, ('const', None))), said)
        val = canon(mapsyms(val, {s: t}))
        if want is None:
            val = canon(at(val, j))
            want = ('region',) + path + (val[6],) if val[0] == 'region' else ('region',) + path
            if val[0] == 'region':
                i = val[6]
                ok = i[0] == 'map' and whole_line(i[3])
                r.ob('region-starts-whole', '%s %s' % (k, J.what), f.loc(), ok,
                     '' if ok else 'the region of a leaf does not start as the whole space but as %s' % show(i))
                n = i[2] if i[0] == 'map' else ('x',)
                if n[0] == 'idx' and n[1][0] == 'attr' and n[1][2] == 'shape' and n[2][0] == 'const' and (has(n[1], ('param', 'data')) or has(n[1], 'data')):
                    r.ob('region-starts-whole', '%s features %s' % (k, J.what), f.loc(), n[2][1] in (1, -1),
                         '' if n[2][1] in (1, -1) else 'a region has as many features as there are observations')
        J('tree-tables', k, val, want, said)
        sh = base[1] if base[0] == 'array' else None
        if sh is not None and sh[0] == 'tuple' and len(sh) > 2:
            J('tree-tables', k + ' size', ren(sh[2]), ren(('max', ('map', ('sym', 0), ('nt',), call('len', ('leaves', ('sym', 0)))))), 'it should hold the leaves of the largest tree')
    v = canon(at(A['node_idx_trees'], t, j))
    J('tree-tables', 'node_idx_trees', v, ('set', ('path',) + path + (0,)), 'entry (t, j) should hold the distinct features tested on the path to leaf j of tree t')
    v = A['max_var']
    if v[0] in ('max', 'running'):
        bs, e = flat(v[1] if v[0] == 'max' else v[3])
        if len(bs) == 2:
            e = canon(mapsyms(e, {bs[0][0]: t, bs[1][0]: j}))
            J('tree-tables', 'max_var', e, call('len', ('set', ('path',) + path + (0,))), 'it should be the largest number of features on the path to a leaf')
            J('tree-tables', 'max_var over', ('tuple', bs[0][1], canon(mapsyms(bs[1][1], {bs[0][0]: t}))), ('tuple', ('nt',), nl), 'it should range over all leaves of all trees')
        elif has(v, 'last') or len(bs) == 1 and not unclear(e):
            r.ob('tree-tables', 'max_var %s' % J.what, f.loc(), False, 'max_var does not range over the leaves of all trees: the list it is the maximum of is begun anew for every tree')
        else:
            J('tree-tables', 'max_var', ('havoc',), None, '')
    else:
        J('tree-tables', 'max_var', v if unclear(v) else ('havoc',), None, '')
    for k in NODES:
        v = A.get(k)
        if v is None or v[0] != 'fill':
            J('tree-tables', k, v or ('havoc',), None, '')
            continue
        base, s, n, idx, val = v[1:6]
        src = ('attr', T, k)
        rows = ('slice', ('const', None), ('nodes', t), ('const', None))
        if k == 'values' and mode.stacked:
            rows = (rows, ('op', 'Mod', t, st.attrs[(SELF, 'num_stacked_models')]))
            src = ('idx', src, ('tuple', ('slice',) + (('const', None),) * 3, ('const', 0)))
        else:
            rows = (rows,)
        i2 = canon(mapsyms(('tuple',) + idx, {s: t}))
        if k == 'values' and mode.stacked and len(i2) == 4 and i2[3][0] == 'op':
            x = i2[3]
            if x[1] == 'Mod' and x[2] == t:
                i2 = i2[:3] + (rows[1],)
        J('tree-tables', k + ' rows', i2, ('tuple', t) + rows, 'row t should begin with the nodes of tree t')
        J('tree-tables', k, canon(mapsyms(val, {s: t})), src, 'row t should be that of tree t')
        J('tree-tables', k + ' trees', n, ('nt',), 'all trees should be packed')
    J('tree-tables', 'scalings', canon(at(A['scalings'], t)), ('attr', T, 'scaling'), 'entry t should be the scaling of tree t')
    return tr


def whole_line(v):
    v = canon(v)
    return v in (('list', ('list', ('const', float('-inf')), ('const', float('inf')))), ('list', ('tuple', ('const', float('-inf')), ('const', float('inf')))))


def ren(v):
    """symbols numbered by first occurrence"""
    seen = {}

    def go(x):
        if not isinstance(x, tuple):
            return x
        if x[:1] == ('sym',):
            return ('sym', seen.setdefault(x, len(seen)))
        return tuple(go(y) for y in x)
    return go(v)


# ---- half-lines on the path

SIDES = {'children_left': 'left', 'children_right': 'right'}


def where_of(v):
    """side if v is the list of the nodes whose child on that side is the given node"""
    v = strip(v)
    if v[0] == 'idx' and strip(v[1])[0] == 'call' and v[2] == ('const', 0):
        v = strip(v[1])
        n = name_of(v[1]) if isinstance(v[1], tuple) else None
        if n in ('np.where', 'np.nonzero') and len(v[2]) == 1:
            return child_test(v[2][0])
    if v[0] == 'call' and isinstance(v[1], tuple) and name_of(v[1]) == 'np.flatnonzero':
        return child_test(v[2][0])
    return None


def child_test(c):
    c = strip(c)
    if c[0] == 'cmp' and c[1] == 'Eq':
        for a, b in ((c[2], c[3]), (c[3], c[2])):
            a = strip(a)
            k = a[1] if a[0] == 'param' else a[2] if a[0] == 'attr' else None
            if k in SIDES and strip(b) == ('param', 'leaf_id'):
                return SIDES[k]
    return None


def parent_of(v):
    v = strip(v)
    if v[0] == 'idx' and v[2] == ('const', 0):
        return where_of(v[1])
    if v[0] == 'call' and isinstance(v[1], tuple) and name_of(v[1]) == 'np.argmax' and len(v[2]) == 1:
        return child_test(v[2][0])
    return None


def found(v, side):
    """Truth of a test when the node is a child on that side (None: it is the root); None if it says something else."""
    v = strip(v)
    if v[0] == 'not':
        x = found(v[1], side)
        return None if x is None else not x
    if v[0] == 'bool' or v[0] == 'op' and v[1] in ('Mult', 'BitAnd', 'BitOr', 'Add'):
        xs = [found(x, side) for x in v[2:]]
        if v[1] in ('And', 'Mult', 'BitAnd'):
            return False if False in xs else True if all(x is True for x in xs) else None
        return True if True in xs else False if all(x is False for x in xs) else None
    n = None
    if v[0] == 'call' and isinstance(v[1], tuple):
        if name_of(v[1]) == 'len' and len(v[2]) == 1:
            n = where_of(v[2][0])
        elif name_of(v[1]) in ('np.any', 'any') and len(v[2]) == 1:
            n = child_test(v[2][0])
        elif v[1][0] == 'attr' and v[1][2] == 'any':
            n = child_test(v[1][1])
        if n:
            return n == side
        return None
    if v[0] == 'attr' and v[2] == 'size' or v[0] == 'idx' and v[1][0] == 'attr' and v[1][2] == 'shape':
        n = where_of(v[1] if v[0] == 'attr' else v[1][1])
        return None if n is None else n == side
    if v[0] == 'cmp' and v[1] == 'In' and strip(v[2]) == ('param', 'leaf_id'):
        a = strip(v[3])
        k = a[1] if a[0] == 'param' else a[2] if a[0] == 'attr' else None
        return None if k not in SIDES else SIDES[k] == side
    if v[0] == 'cmp':
        for a, b, flip in ((v[2], v[3], False), (v[3], v[2], True)):
            x = found(a, side)
            if x is not None and b[0] == 'const' and isinstance(b[1], int):
                k, c = int(x), b[1]
                return {'Eq': k == c, 'NotEq': k != c, 'Lt': (c < k) if flip else (k < c), 'LtE': (c <= k) if flip else (k <= c)}.get(v[1])
    return None


def rows(v, part, f):
    """(lower ends, upper ends) of the intervals whose intersection v is; None if not read."""
    v = strip(v)
    if v[0] == 'idx' and v[1] == part and v[2] == f or v == part and f is None:
        return frozenset(['lo']), frozenset(['hi'])
    if v[0] == 'stored':
        idx = v[2]
        if idx == (f,):
            return rows(v[3], part, f)
        if len(idx) == 3 and idx[0] == f and idx[2][0] == 'const' and idx[2][1] in (0, 1):
            b = rows(v[1], part, f)
            e = end_of(v[3], idx[2][1], part, f)
            if b is None or e is None:
                return None
            return (e, b[1]) if idx[2][1] == 0 else (b[0], e)
        return rows(v[1], part, f) if idx[0] != f else None
    if v[0] == 'idx' and v[1][0] == 'stored':
        return rows(v[1], part, v[2])
    if v[0] in ('list', 'tuple'):
        out = [frozenset(), frozenset()]
        for x in v[1:]:
            x = strip(x)
            if x[0] in ('list', 'tuple') and len(x) == 3 and strip(x[1])[0] not in ('list', 'tuple'):
                e = end_of(x[1], 0, part, f), end_of(x[2], 1, part, f)
            else:
                e = rows(x, part, f)
            if e is None or None in e:
                return None
            out = [out[0] | e[0], out[1] | e[1]]
        return tuple(out)
    if v[0] == 'call' and isinstance(v[1], tuple) and name_of(v[1]) in ('np.concatenate', 'np.vstack', 'np.append', 'np.row_stack'):
        return rows(('list',) + (v[2][0][1:] if len(v[2]) == 1 and v[2][0][0] in ('list', 'tuple') else v[2]), part, f)
    return None


def end_of(v, side, part, f):
    """The numbers whose maximum (lower end) / minimum (upper end) v is."""
    v = strip(v)
    if v[0] == 'const' and isinstance(v[1], float) and abs(v[1]) == float('inf'):
        return frozenset() if (v[1] < 0) == (side == 0) else frozenset(['inf'])
    if v[0] == 'idx':
        if v[2][0] == 'tuple' and len(v[2]) == 3 and v[2][2][0] == 'const' and v[2][2][1] in (0, 1, -1, -2):
            b, c = v[1], v[2][2][1] % 2
        elif v[2][0] == 'const' and v[1][0] == 'idx' and v[1][2] == ('const', 0):
            b, c = v[1][1], v[2][1] % 2
        else:
            b = None
        if b is not None:
            k = v[2][1] if v[2][0] == 'tuple' else ('const', 0)
            if k[0] == 'const' and isinstance(k[1], int):
                x = one_row(b, k[1], part, f)
            else:
                x = rows(b, part, f)
            if x is None:
                return None
            return x[c] if c == side else frozenset(['other end'])
        if thr(v) is not None:
            return frozenset(['t'])
        return None
    if v[0] == 'call' and isinstance(v[1], tuple):
        n = (name_of(v[1]) or '').split('.')[-1]
        if v[1][0] == 'attr' and v[1][2] in ('max', 'min') and name_of(v[1][1]) not in ('np', 'numpy'):
            n, a = v[1][2], (v[1][1],)
        else:
            a = v[2]
        if n in ('max', 'min', 'maximum', 'minimum', 'amax', 'amin', 'fmax', 'fmin'):
            if len(a) == 1 and a[0][0] in ('list', 'tuple'):
                a = a[0][1:]
            xs = [end_of(x, side, part, f) for x in a]
            if None in xs:
                return None
            if ('max' in n) != (side == 0):
                return frozenset().union(*xs) if len(a) == 1 and isinstance(a[0], tuple) and a[0][0] == 'idx' and False else frozenset([n])
            return frozenset().union(*xs)
    return None


def one_row(v, k, part, f):
    v = strip(v)
    if v[0] == 'call' and isinstance(v[1], tuple) and name_of(v[1]) in ('np.concatenate', 'np.vstack', 'np.append', 'np.row_stack'):
        xs = v[2][0][1:] if len(v[2]) == 1 and v[2][0][0] in ('list', 'tuple') else v[2]
    elif v[0] in ('list', 'tuple'):
        xs = tuple(('list', x) for x in v[1:])
    else:
        xs = (v,)
    if not -len(xs) <= k < len(xs):
        return None
    return rows(xs[k], part, f)


def thr(v):
    """node if v is the threshold of a node"""
    v = strip(v)
    if v[0] == 'idx':
        a = strip(v[1])
        if (a[1] if a[0] == 'param' else a[2] if a[0] == 'attr' else None) in ('threshold', 'thresholds'):
            return v[2]
    return None


def feat(v):
    v = strip(v)
    if v[0] == 'idx':
        a = strip(v[1])
        if (a[1] if a[0] == 'param' else a[2] if a[0] == 'attr' else None) in ('feature', 'features'):
            return v[2]
    return None


WANT = {'left': (frozenset(['lo']), frozenset(['hi', 't'])), 'right': (frozenset(['lo', 't']), frozenset(['hi']))}


def walked(env, f, decide):
    """Calls of f to itself, with the values of the arguments, and the value returned, under the decisions."""
    calls = []

    def known(cf, m, node, st, vn):
        if cf is f:
            a = {p: vn.ev(x, st) for p, x in m.items()}
            calls.append((a, node))
            return ('call', 'again', tuple(sorted(a.items())), ())
        return None
    v, st = Build(env, decide, lambda fn, g: g.cls is None and not g.native and g.mod is f.mod, known=known).run(f)
    return calls, v, st


def updates(v):
    """the indices at which a chain of stores wrote"""
    out = []
    while v[0] == 'stored':
        out.append(v[2][0])
        v = v[1]
    return out, v


def half_line(r, f, side, node, got, want_node, rule='path-half-lines'):
    """got: value of the regions after the step; the step must be at the feature of the node, with its threshold."""
    idx, base = updates(got)
    said = '%s child of %s' % (side, f.name)
    if not idx or base[0] != 'param' or len(set(map(str, idx))) != 1:
        if not idx:
            r.ob(rule, said, f.loc(node), False, 'the region does not change from a node to its %s child' % side)
        else:
            r.notes.append('%s: the step of %s is not written in a form the rule reads' % (rule, f.name))
        return
    fn = feat(idx[0])
    e = rows(got, base, idx[0])
    if fn is None or e is None:
        r.notes.append('%s: the interval of %s is not written in a form the rule reads' % (rule, f.name))
        return
    ts = {thr(x) for x in terms(got) if thr(x) is not None}
    bad = None
    if not want_node(fn):
        bad = 'it bounds the feature of another node'
    elif not all(want_node(x) for x in ts):
        bad = 'it uses the threshold of another node'
    elif e != WANT[side]:
        bad = 'the interval becomes (max %s, min %s), it should be (max %s, min %s)' % (tuple(sorted(x) for x in e) + tuple(sorted(x) for x in WANT[side]))
    r.ob(rule, said, f.loc(node), bad is None, 'the region of the %s child: %s' % (side, bad) if bad else '')


def terms(v):
    if isinstance(v, tuple):
        if v and isinstance(v[0], str):
            yield v
        for x in v:
            yield from terms(x)


def paths(env, r):
    for f in env.ctx.fns:
        if f.native or f.cls is not None or 'leaf_id' not in f.params or f.parent is not None or not f.name.startswith('get_partition') or \
                not f.mod.rel.startswith('acv_explainers'):
            continue
        r.unit(f)
        for side in ('left', 'right', None):
            calls, v, st = walked(env, f, lambda t: found(t, side))
            if side is None:
                ok = not calls and v is not None and not updates(v[1] if v[0] == 'tuple' else v)[0]
                if v is None or v[0] == 'phi':
                    r.notes.append('path-half-lines: the test for the root in %s is not read' % f.name)
                else:
                    r.ob('path-half-lines', 'root of %s' % f.name, f.loc(), ok, 'the region of the root is not the whole space' if not ok else '')
                continue
            if len(calls) != 1:
                if not calls and v is not None and v[0] != 'phi' and not any(True for x in terms(v) if x[0] in ('havoc', 'opaque')):
                    r.ob('path-half-lines', '%s child of %s' % (side, f.name), f.loc(), False, 'the walk stops at the %s child of a node' % side)
                else:
                    r.notes.append('path-half-lines: the walk of %s is not read' % f.name)
                continue
            a, node = calls[0]
            up = parent_of(a.get('leaf_id', ('opaque', 0)))
            if up is None:
                r.notes.append('path-half-lines: the next node of %s is not read' % f.name)
                continue
            r.ob('path-half-lines', 'next node after a %s child in %s' % (side, f.name), f.loc(node), up == side,
                 'the walk goes on from the parent on the %s' % up if up != side else '')
            half_line(r, f, side, node, a['part'], lambda n: parent_of(n) == side)
            if 'node_id' in f.params:
                x = a['node_id']
                ok = x[0] == 'appended' and x[1] == ('param', 'node_id') and feat(x[2]) is not None and parent_of(feat(x[2])) == side
                r.ob('path-features', '%s child in %s' % (side, f.name), f.loc(node), ok, '' if ok else 'the feature of the parent is not recorded, but %s' % show(x))
            for p in f.params:
                if p not in ('leaf_id', 'part', 'node_id'):
                    r.ob('path-half-lines', '%s handed on after a %s child in %s' % (p, side, f.name), f.loc(node), a.get(p) == ('param', p),
                         'it becomes %s' % show(a[p]) if a.get(p) != ('param', p) else '')


def descents(env, r):
    """A walk from the root that narrows the region: the child it goes on with gets its half-line."""
    for f in env.ctx.fns:
        if f.native or f.cls is not None or 'partition_leaves' not in f.params or 'children_left' not in f.params or not f.mod.rel.startswith('acv_explainers'):
            continue
        r.unit(f)
        for inS in (True, False):
            for low in (True, False):
                odd = []

                def decide(v):
                    if v[0] == 'cmp' and v[1] in ('In', 'NotIn') and strip(v[3]) == ('param', 'S'):
                        return inS == (v[1] == 'In')
                    if v[0] == 'cmp' and v[1] in ('Lt', 'LtE') and (v[2] == ('const', 0) or v[3] == ('const', 0)) and (has(v, ('param', 'children_left')) or has(v, ('param', 'children_right'))):
                        return v[2] == ('const', 0)     # an inner node
                    if v[0] == 'cmp' and v[1] in ('Lt', 'LtE') and has(v, ('param', 'x')):
                        xl = thr(v[3]) == ('param', 'i')
                        xr = thr(v[2]) == ('param', 'i')
                        if v[1] == 'LtE' and xl or v[1] == 'Lt' and xr:
                            return low == xl
                        odd.append(v)
                    return None
                calls, v, st = walked(env, f, decide)
                if odd:
                    r.ob('path-half-lines', 'descent of %s' % f.name, f.loc(), False, 'an observation is sent to a child by %s, not by x <= threshold' % show(odd[0]))
                    return
                sides = []
                first = calls[0][0]['partition_leaves'] if len(calls) == 2 else ('x',)
                own = updates(first)[1] != ('param', 'partition_leaves')
                r.ob('path-half-lines', 'the children of %s have regions of their own' % f.name, f.loc(), own,
                     '' if own else 'the bound set for the first child is also set for the second')
                for a, node in calls:
                    i = strip(a.get('i', ('opaque', 0)))
                    k = i[1][1] if i[0] == 'idx' and i[1][0] == 'param' and i[2] == ('param', 'i') else None
                    if k not in SIDES:
                        r.notes.append('path-half-lines: the descent of %s is not read' % f.name)
                        continue
                    sides.append(SIDES[k])
                    half_line(r, f, SIDES[k], node, peel(a['partition_leaves']), lambda n: n == ('param', 'i'))
                want = ['left', 'right'] if not inS else ['left' if low else 'right']
                if len(sides) == len(calls):
                    r.ob('path-half-lines', 'children visited by %s (%s)' % (f.name, 'feature given, %s' % ('x <= t' if low else 'x > t') if inS else 'feature not given'), f.loc(),
                         sorted(sides) == want, 'it goes to %s, it should go to %s' % (sides, want) if sorted(sides) != want else '')


def peel(v):
    """the chain of stores on a copy, with the copied list as its base"""
    out = []
    while v[0] == 'stored':
        out.append(v)
        v = v[1]
    base = strip(v)
    if base == v:
        return out[0] if out else v
    return repl(out[0], v, base) if out else base


# ---- formats of trees

TREE = ('param', 'tree')
INTS = {'children_left', 'children_right', 'features'}


def factors(v, r, c):
    """entry (r, c) of a matrix as a product: {factor: exponent}; None if not read."""
    v = strip(v)
    if v[0] == 'const' and isinstance(v[1], (int, float)):
        return {} if v[1] == 1 else {v: 1}
    if v[0] == 'param':
        return {v: 1}
    if v[0] == 'attr' and v[2] == 'T':
        return factors(v[1], c, r)
    k, a = None, None
    if v[0] == 'op' and v[1] in ('Mult', 'Div'):
        k, a = v[1], v[2:4]
    elif v[0] == 'call' and isinstance(v[1], tuple):
        n = name_of(v[1])
        if n in ('np.multiply', 'np.divide', 'np.true_divide') and len(v[2]) == 2:
            k, a = 'Mult' if n == 'np.multiply' else 'Div', v[2]
        elif n == 'np.transpose' and len(v[2]) == 1:
            return factors(v[2][0], c, r)
        elif v[1][0] == 'attr' and v[1][2] == 'sum' or n == 'np.sum':
            return total(v, c)
        elif v[1][0] == 'attr' and v[1][2] == 'reshape':
            x = strip(v[1][1])
            sh = v[2][0][1:] if len(v[2]) == 1 and v[2][0][0] in ('tuple', 'list') else v[2]
            if x == ('attr', TREE, 'value') and len(sh) == 2 and rowcount(sh[0]) and (sh[1] == ('const', -1) or columns(sh[1])):
                return {('V', r, c): 1}
            if len(sh) == 2 and sh[0] == ('const', -1) and sh[1] == ('const', 1):
                return total(x, r)
            return None
    if k:
        x, y = factors(a[0], r, c), factors(a[1], r, c)
        if x is None or y is None:
            return None
        out = dict(x)
        for f, e in y.items():
            out[f] = out.get(f, 0) + (e if k == 'Mult' else -e)
        return {f: e for f, e in out.items() if e}
    if v[0] == 'idx' and v[1] == TREE and v[2][0] == 'const':
        return {('V' if v[2][1] in ('values', 'value') else v[2][1], r, c): 1}
    if v[0] == 'idx' and v[2][0] == 'tuple' and len(v[2]) == 3 and v[2][1][0] == 'slice' and v[2][2] in (('const', None), ('attr', ('name', 'np'), 'newaxis')):
        return total(v[1], r)
    return None


def total(v, r):
    """entry r of the sums of the rows of a matrix"""
    v = strip(v)
    if v[0] != 'call' or not isinstance(v[1], tuple):
        return None
    n = name_of(v[1])
    kw = dict(v[3])
    x, rest = (v[2][0], v[2][1:]) if n == 'np.sum' else (v[1][1], v[2]) if v[1][0] == 'attr' and v[1][2] == 'sum' else (None, ())
    if x is None:
        return None
    ax = rest[0] if rest else kw.get('axis')
    if ax is None:
        return {('total',): 1}
    if ax in (('const', 1), ('const', -1)):
        f = factors(x, r, '*')
    elif ax == ('const', 0):
        f = factors(x, '*', r)
    else:
        return None
    return None if f is None else {('sum', frozenset(f.items())): 1}


def rowcount(v):
    v = strip(v)
    return v == ('idx', ('attr', ('attr', TREE, 'value'), 'shape'), ('const', 0)) or \
        v[0] == 'call' and name_of(v[1]) == 'len' and strip(v[2][0])[0] == 'attr' and strip(v[2][0])[1] == TREE or \
        v[0] == 'attr' and v[2] == 'node_count'


def columns(v):
    sh = [('idx', ('attr', ('attr', TREE, 'value'), 'shape'), ('const', i)) for i in (1, 2)]
    return v[0] == 'op' and v[1] == 'Mult' and sorted(map(str, v[2:4])) == sorted(map(str, sh))


class Format:
    def __init__(self, keys=(), classes=(), normalize=False, extra=None):
        self.keys, self.classes, self.normalize, self.extra = keys, classes, normalize, extra

    def __call__(self, v):
        if v == ('param', 'normalize'):
            return self.normalize
        if v[0] == 'call' and (v[1] if isinstance(v[1], str) else name_of(v[1]) or '').endswith('safe_isinstance') and v[2][0] == TREE:
            return any(c in self.classes for c in cls_names(v[2][1]))
        if v[0] == 'call' and name_of(v[1]) == 'isinstance' and v[2][0] == TREE:
            return bool(self.keys) and v[2][1] == ('name', 'dict')
        if v[0] == 'cmp' and v[1] in ('Is', 'Eq', 'IsNot', 'NotEq') and any(x[0] == 'call' and name_of(x[1]) == 'type' for x in v[2:4]):
            k = [x for x in v[2:4] if x[0] == 'name']
            if k:
                return (bool(self.keys) and k[0][1] == 'dict') == (v[1] in ('Is', 'Eq'))
        if v[0] == 'cmp' and v[1] in ('In', 'NotIn') and strip(v[3]) == TREE and v[2][0] == 'const':
            return (v[2][1] in self.keys) == (v[1] == 'In')
        if v[0] == 'cmp' and v[1] == 'Eq' and v[3] == ('const', -2):
            return False      # the marker of a leaf
        return self.extra(v) if self.extra else None


def arrays(env, r):
    for f in env.ctx.fns:
        if f.name != '__init__' or f.cls is None or f.cls.name != 'SingleTree' or not f.mod.rel.startswith('acv_explainers'):
            continue
        r.unit(f)
        for norm in (False, True):
            fmts = [('sklearn', Format((), ('sklearn.tree._tree.Tree',), norm), lambda k: ('attr', TREE, k),
                     dict(children_left='children_left', children_right='children_right', features='feature', thresholds='threshold',
                          node_sample_weight='weighted_n_node_samples'))]
            if any(isinstance(x, str) and 'nodeid' in x for x in literals(f)) and not norm:
                base = dict(children_left='children_left', children_right='children_right', children_default='children_default', node_sample_weight='node_sample_weight')
                a, b = dict(base, features='features', thresholds='thresholds'), dict(base, features='feature', thresholds='threshold')
                fmts += [('dict', Format(tuple(a.values()) + ('values',)), lambda k: ('idx', TREE, ('const', k)), a),
                         ('old dict', Format(tuple(b.values()) + ('value',)), lambda k: ('idx', TREE, ('const', k)), b)]
            for what, fmt, src, table in fmts:
                v, st = Build(env, fmt, lambda fn, g: g.parent is f).run(f)
                if st is None:
                    r.notes.append('tree-arrays: %s of %s not read' % (what, f.qual))
                    continue
                said = '%s tree in %s%s' % (what, f.mod.rel.split('/')[-1], ' normalized' if norm else '')
                for k, s in table.items():
                    x = st.attrs.get((SELF, k), ('havoc',))
                    y = strip(x)
                    while y[0] == 'fill' and k == 'features':
                        y = strip(y[1])
                    if y != src(s) and any(t[0] in ('havoc', 'opaque', 'phi', 'prev', 'last') for t in terms(y)):
                        r.notes.append('tree-arrays: %s of a %s is not written in a form the rule reads' % (k, said))
                        continue
                    r.ob('tree-arrays', '%s of a %s' % (k, said), f.loc(), y == src(s), '' if y == src(s) else 'it is %s, it should be %s' % (show(y), show(src(s))))
                    small = narrow(x) if k not in INTS and k != 'children_default' else None
                    r.ob('tree-arrays', 'precision of %s of a %s' % (k, said), f.loc(), small is None, 'it is rounded to %s' % small if small else '')
                x = st.attrs.get((SELF, 'values'), ('havoc',))
                got = factors(x, 'r', 'c')
                want = {('V', 'r', 'c'): 1, ('param', 'scaling'): 1}
                if norm:
                    want[('sum', frozenset([(('V', 'r', '*'), 1)]))] = -1
                if got is None:
                    r.notes.append('tree-arrays: values of a %s are not written in a form the rule reads' % said)
                else:
                    r.ob('tree-arrays', 'values of a %s' % said, f.loc(), got == want,
                         'they are not the values of the tree%s times the scaling' % (' over their sum in the node' if norm else '') if got != want else '')
                x = st.attrs.get((SELF, 'scaling'))
                r.ob('tree-arrays', 'scaling of a %s' % said, f.loc(), x == ('param', 'scaling'), 'it is not the scaling given' if x != ('param', 'scaling') else '')
        if any(isinstance(x, str) and 'tree_structure' in x for x in literals(f)):
            lightgbm(env, r, f)


def narrow(v):
    for t in terms(v):
        ds = []
        if t[0] == 'call' and isinstance(t[1], tuple):
            if t[1][0] == 'attr' and t[1][2] == 'astype':
                ds += list(t[2][:1])
            ds += [x for k, x in t[3] if k == 'dtype']
            if name_of(t[1]) in ('int', 'np.int32', 'np.round', 'round', 'np.float32', 'np.around'):
                return name_of(t[1])
        for d in ds:
            n = name_of(d) or (d[1] if d[0] == 'const' else '') or ''
            if any(x in str(n) for x in ('float32', 'float16', 'int', 'single', 'half')):
                return n
    return None


def literals(f):
    import ast
    return [n.value for n in ast.walk(f.node) if isinstance(n, ast.Constant)]


def key(v, k):
    return ('idx', v, ('const', k))


def lightgbm(env, r, f):
    import itertools
    where = 'LightGBM tree'
    for split, lk, rk, dl in list(itertools.product((True,), (True, False), (True, False), (True, False))) + [(False, True, True, True)]:
        seen = {'V': None, 'odd': False}

        def extra(v):
            if v[0] == 'cmp' and v[1] in ('In', 'NotIn') and v[2] in (('const', 'split_index'), ('const', 'leaf_index'), ('const', 'left_child'), ('const', 'leaf_value')):
                x = strip(v[3])
                pos = (v[1] == 'In') == (v[2][1] in ('split_index', 'left_child'))
                if x[0] == 'idx' and x[2] == ('const', 'left_child'):
                    return lk == pos
                if x[0] == 'idx' and x[2] == ('const', 'right_child'):
                    return rk == pos
                if seen['V'] in (None, x):
                    seen['V'] = x
                    return split == pos
                seen['odd'] = True
                return None
            if v[0] == 'cmp' and v[1] in ('In', 'NotIn') and v[2][0] == 'idx':
                return v[1] == 'NotIn'          # not visited yet
            if v[0] == 'idx' and v[2] == ('const', 'default_left'):
                return dl
            return None
        stores, pushed = [], []

        def stored(b, idx, v, node, fn, st, vn):
            if hasattr(b, 'attr') and b.attr in NODES:
                stores.append((b.attr, idx, v, node))

        def called(cf, v, node, fn, st):
            if cf is None and v[0] == 'call':
                pushed.extend(x for x in v[2])
            elif cf is not None:
                pushed.extend(v.values())
        _, st = Build(env, Format(('tree_structure', 'num_leaves'), (), False, extra), lambda fn, g: g.parent is f, called, on_store=stored, frozen=NODES).run(f)
        V = seen['V']
        stores = list({(a, i, v): (a, i, v, n) for a, i, v, n in stores if V is not None and any(has(x, V) for x in i)}.values())
        if V is None or seen['odd'] or not stores:
            r.notes.append('tree-arrays: the walk over a %s is not read' % where)
            return
        K = ('op', 'Sub', key(TREE, 'num_leaves'), ('const', 1))

        def ident(x, is_split):
            return (key(x, 'split_index'),) if is_split else (('op', 'Add', key(x, 'leaf_index'), K), ('op', 'Add', K, key(x, 'leaf_index')))
        L, R = key(V, 'left_child'), key(V, 'right_child')
        me = ident(V, split)
        if split:
            want = {'children_left': ident(L, lk), 'children_right': ident(R, rk), 'features': (key(V, 'split_feature'),), 'thresholds': (key(V, 'threshold'),),
                    'values': (('list', key(V, 'internal_value')), key(V, 'internal_value')), 'node_sample_weight': (key(V, 'internal_count'),)}
        else:
            want = {'children_left': 'neg', 'children_right': 'neg', 'values': (('list', key(V, 'leaf_value')), key(V, 'leaf_value')),
                    'node_sample_weight': (key(V, 'leaf_count'),)}
        case = 'split node (left %s, right %s)' % ('split' if lk else 'leaf', 'split' if rk else 'leaf') if split else 'leaf'
        for k, w in want.items():
            mine = [x for x in stores if x[0] == k]
            if not mine:
                r.ob('tree-arrays', '%s of a %s of a %s' % (k, case, where), f.loc(), False, 'it is not set')
            for _, idx, v, node in mine:
                if any(t[0] in ('phi', 'havoc', 'opaque') for t in terms((idx, v))):
                    r.notes.append('tree-arrays: %s of a %s is not written in a form the rule reads' % (k, where))
                    continue
                r.ob('tree-arrays', 'row of %s of a %s of a %s' % (k, case, where), f.loc(node), len(idx) == 1 and strip(idx[0]) in me,
                     '' if strip(idx[0]) in me else 'it is written at %s' % show(idx[0]))
                v = strip(v)
                ok = v[0] == 'const' and v[1] < 0 if w == 'neg' else v in w
                r.ob('tree-arrays', '%s of a %s of a %s' % (k, case, where), f.loc(node), ok, '' if ok else 'it is %s' % show(v))
        if split:
            for x, s in ((L, 'left'), (R, 'right')):
                r.ob('tree-arrays', '%s child of a %s is visited' % (s, where), f.loc(), x in pushed, 'the %s child is never visited' % s if x not in pushed else '')
    _, st = Build(env, Format(('tree_structure', 'num_leaves'), (), False, None), lambda fn, g: g.parent is f).run(f)
    v = strip(st.attrs.get((SELF, 'values'), ('havoc',))) if st else ('havoc',)
    a = v[2:4] if v[0] == 'op' and v[1] == 'Mult' else v[2] if v[0] == 'call' and name_of(v[1]) == 'np.multiply' else ()
    if len(a) == 2 and ('param', 'scaling') in a and not has([x for x in a if x != ('param', 'scaling')] or (), ('param', 'scaling')):
        r.ob('tree-arrays', 'scaling of the values of a %s' % where, f.loc(), True)
    elif not has(v, ('param', 'scaling')):
        r.ob('tree-arrays', 'scaling of the values of a %s' % where, f.loc(), False, 'the values are not scaled')
    else:
        r.notes.append('tree-arrays: scaling of a %s not read' % where)


def number(v):
    v = strip(v)
    if v[0] == 'const' and isinstance(v[1], int):
        return v[1]
    if v[0] == 'call' and (name_of(v[1]) or '').split('.')[-1] in ('uint32', 'int64', 'uint64') and len(v[2]) == 1:
        return number(v[2][0])
    if v[0] == 'op':
        a, b = number(v[2]), number(v[3])
        f = {'LShift': lambda: a << b, 'Sub': lambda: a - b, 'Pow': lambda: a ** b, 'Add': lambda: a + b, 'BitOr': lambda: a | b}.get(v[1])
        return f() if f and a is not None and b is not None else None
    return None


def xgboost(env, r):
    cls = env.ctx.cls('XGBTreeModelLoader')
    f = env.ctx.method(cls, 'get_trees') if cls is not None else None
    if f is None:
        r.notes.append('tree-arrays: no loader of XGBoost trees')
        return
    r.unit(f)

    def node(k, i, j):
        a = ('attr', SELF, k)
        return (('idx', ('idx', a, i), j), ('idx', a, ('tuple', i, j)))
    for split in (True, False):
        for left in (True, False):
            odd = []

            def decide(v):
                if v[0] == 'cmp' and has(v, 'node_sindex'):
                    if has(v, ('const', 31)) and number(v[3]) == 0 or has(v, ('const', 31)) and number(v[2]) == 0:
                        return {'NotEq': left, 'Lt': left, 'Eq': not left}.get(v[1])
                    odd.append(v)
                    return None
                if v[0] == 'cmp' and (has(v, 'node_cleft') or has(v, 'node_cright')):
                    k = [number(x) for x in v[2:4]]
                    if v[1] == 'LtE' and k[0] == 0 or v[1] == 'NotEq' and -1 in k or v[1] == 'Lt' and k[0] == -1:
                        return split
                    if v[1] == 'Lt' and k[1] == 0 or v[1] == 'Eq' and -1 in k:
                        return not split
                    odd.append(v)
                return None
            stores, made = [], []

            def stored(b, idx, v, nd, fn, st, vn):
                if hasattr(b, 'attr') and b.attr in NODES:
                    stores.append((b.attr, idx, v, nd))

            def known(cf, m, nd, st, vn):
                if cf.name == '__init__' and cf.cls is not None and cf.cls.name == 'SingleTree':
                    made.append(({p: vn.ev(x, st) for p, x in m.items()}, nd))
                    return ('newtree', 'SingleTree', ())
                return None
            Build(env, decide, None, on_store=stored, known=known, frozen=NODES).run(f)
            if odd:
                r.ob('tree-arrays', 'nodes of a XGBoost tree', f.loc(), False, 'a node is told a leaf, or its default child, by %s' % show(odd[0]))
                return
            if not stores or not made or made[-1][0].get('tree', ('x',))[0] != 'dict':
                r.notes.append('tree-arrays: the loader of XGBoost trees is not read')
                return
            case = 'split' if split else 'leaf'
            for k in ('children_default', 'features', 'thresholds', 'values'):
                mine = [x for x in stores if x[0] == k]
                if not mine and (k == 'thresholds' if not split else k == 'values'):
                    continue
                if not mine:
                    r.ob('tree-arrays', '%s of a %s of a XGBoost tree' % (k, case), f.loc(), False, 'it is not set')
                    continue
                _, idx, v, nd = mine[-1]
                if len(idx) < 2 or any(t[0] in ('phi', 'havoc', 'opaque') for t in terms((idx, v))):
                    r.notes.append('tree-arrays: %s of a XGBoost tree is not written in a form the rule reads' % k)
                    continue
                i, j = idx[:2]
                v = strip(v)
                if k == 'children_default':
                    if not split:
                        continue
                    ok = v in node('node_cleft' if left else 'node_cright', i, j)
                elif k == 'features':
                    x = [y for y in v[2:4] if number(y) is None] if v[0] == 'op' and v[1] == 'BitAnd' else []
                    ok = len(x) == 1 and strip(x[0]) in node('node_sindex', i, j) and (2 ** 31 - 1) in [number(y) for y in v[2:4]]
                elif k == 'values':
                    ok = not split or v == ('const', 0)
                    ok = ok and (split or v in node('node_info', i, j))
                else:
                    ok = not split
                    if v[0] == 'call' and name_of(v[1]) == 'np.nextafter' and len(v[2]) == 2:
                        d = strip(v[2][1])
                        d = strip(d[1]) if d[0] == 'neg' else d
                        neg = v[2][1][0] == 'neg' or d == ('const', float('-inf'))
                        while d[0] == 'call' and len(d[2]) == 1:
                            d = d[2][0]
                        ok = strip(v[2][0]) in node('node_info', i, j) and d[0] == 'const' and (neg or d[1] == float('-inf')) and abs(d[1]) == float('inf')
                r.ob('tree-arrays', '%s of a %s (default %s) of a XGBoost tree' % (k, case, 'left' if left else 'right'), f.loc(nd), ok, '' if ok else 'it is %s' % show(v))
            a, nd = made[-1]
            r.ob('tree-arrays', 'scaling of a XGBoost tree', f.loc(nd), one(a.get('scaling')), 'the trees are scaled' if not one(a.get('scaling')) else '')
            alias = {'feature': 'features', 'threshold': 'thresholds', 'value': 'values'}
            d = {alias.get(k[1], k[1]): v for k, v in a['tree'][1] if k[0] == 'const'}
            want = {'children_left': 'node_cleft', 'children_right': 'node_cright', 'node_sample_weight': 'sum_hess', 'children_default': 'children_default',
                    'features': 'features', 'thresholds': 'thresholds', 'values': 'values'}
            rowsym = None
            for k, w in want.items():
                v = strip(d.get(k, ('havoc',)))
                if v[0] != 'idx' or v[1][0] != 'attr' or v[1][1] != SELF:
                    r.notes.append('tree-arrays: %s of the XGBoost trees is not read' % k)
                    continue
                i = v[2][1] if v[2][0] == 'tuple' else v[2]
                rowsym = rowsym or i
                ok = v[1][2] == w and i == rowsym and i[0] == 'sym'
                r.ob('tree-arrays', '%s of the XGBoost trees' % k, f.loc(nd), ok, '' if ok else 'it is %s' % show(v))


# ---- models

EST = ('attr', MODEL, 'estimators_')
FIRST = ('idx', EST, ('tuple', ('slice',) + (('const', None),) * 3, ('const', 0)))
LR = ('attr', MODEL, 'learning_rate')
MODELS = {'sklearn.ensemble.RandomForestRegressor': (EST, 'mean', False), 'sklearn.ensemble.RandomForestClassifier': (EST, 'mean', True),
          'sklearn.ensemble.ExtraTreesRegressor': (EST, 'mean', False), 'sklearn.ensemble.ExtraTreesClassifier': (EST, 'mean', True),
          'skranger.ensemble.classifier.RangerForestClassifier': (EST, 'mean', True), 'skranger.ensemble.regressor.RangerForestRegressor': (EST, 'mean', False),
          'imblearn.ensemble._forest.BalancedRandomForestClassifier': (EST, 'mean', True),
          'sklearn.ensemble.GradientBoostingRegressor': (FIRST, LR, False), 'sklearn.ensemble.GradientBoostingClassifier': (FIRST, LR, False),
          'sklearn.tree.DecisionTreeRegressor': (None, 'one', False), 'sklearn.tree.DecisionTreeClassifier': (None, 'one', True),
          'lightgbm.sklearn.LGBMRegressor': ('info', 'one', False), 'lightgbm.sklearn.LGBMClassifier': ('info', 'one', False),
          'lightgbm.basic.Booster': ('info', 'one', False)}
HIST = ('sklearn.ensemble.HistGradientBoostingRegressor', 'sklearn.ensemble.HistGradientBoostingClassifier')


def one(v):
    return v in (('const', 1), ('const', 1.0), None)


def models(env, r):
    for cname in ('BaseTree', 'BaseAgnosTree'):
        cls = env.ctx.cls(cname)
        lits = set(literals(env.ctx.method(cls, '__init__')))
        for m, (E, scale, norm) in MODELS.items():
            if m not in lits:
                continue
            f, st = constructed(env, cls, Mode(m))
            tr = st.attrs.get((SELF, 'trees')) if st else None
            said = '%s in %s' % (m, cname)
            if tr is None or tr[0] not in ('map', 'list'):
                r.notes.append('model-trees: the trees of %s are not read' % said)
                continue
            nt = tr[3] if tr[0] == 'map' else tr[1] if len(tr) == 2 else ('havoc',)
            if nt[0] != 'newtree':
                r.notes.append('model-trees: the trees of %s are not read' % said)
                continue
            a = dict(nt[2])
            src = a.get('tree', ('havoc',))
            if E is None:
                ok = src == ('attr', MODEL, 'tree_')
            elif E == 'info':
                ok = tr[0] == 'map' and src[0] == 'idx' and src[2] == tr[1] and src[1][0] == 'idx' and src[1][2] == ('const', 'tree_info')
            else:
                ok = tr[0] == 'map' and src == ('attr', ('idx', E, tr[1]), 'tree_') and tr[2] == call('len', E)
            if not ok and any(t[0] in ('havoc', 'opaque', 'phi') for t in terms(src)):
                r.notes.append('model-trees: the trees of %s are not read' % said)
            else:
                r.ob('model-trees', 'trees of %s' % said, f.loc(), ok, '' if ok else 'the trees are %s' % show(src))
            s = a.get('scaling')
            if scale == 'one':
                ok = one(s)
            elif scale == 'mean':
                ok = s is not None and s[0] == 'op' and s[1] == 'Div' and one(s[2]) and s[3] in (call('len', E), ('attr', MODEL, 'n_estimators'))
            else:
                ok = s == scale
            if not ok and s is not None and any(t[0] in ('havoc', 'opaque', 'phi') for t in terms(s)):
                r.notes.append('model-trees: the scaling of %s is not read' % said)
            else:
                r.ob('model-trees', 'weight of the trees of %s' % said, f.loc(), ok, '' if ok else 'it is %s' % (show(s) if s else '1'))
            n = a.get('normalize', ('const', False))
            if n[0] == 'const':
                r.ob('model-trees', 'class shares of %s' % said, f.loc(), bool(n[1]) == norm,
                     '' if bool(n[1]) == norm else 'the values of the trees are %snormalized' % ('' if n[1] else 'not '))
        for m in HIST:
            if m in lits:
                for leaf in (True, False):
                    hist(env, r, cls, m, leaf)


FIELD = {0: 'value', 1: 'count', 2: 'feature_idx', 3: 'threshold', 4: 'missing_go_to_left', 5: 'left', 6: 'right', 9: 'is_leaf', 'num_threshold': 'threshold'}


class HistMode(Mode):
    def __init__(self, cls, leaf):
        super().__init__(cls)
        self.leaf = leaf

    def __call__(self, v):
        if v[0] == 'idx' and v[2][0] == 'const' and FIELD.get(v[2][1], v[2][1]) == 'is_leaf':
            return self.leaf
        return super().__call__(v)


def hist(env, r, cls, m, leaf):
    f, st = constructed(env, cls, HistMode(m, leaf))
    tr = st.attrs.get((SELF, 'trees')) if st else None
    while tr is not None and tr[0] in ('map', 'flat') and len(tr) == 4:
        tr = tr[3]
    said = '%s of %s' % ('leaves' if leaf else 'splits', m)
    if tr is None or tr[0] != 'newtree' or dict(tr[2]).get('tree', ('havoc',))[0] != 'dict':
        r.notes.append('model-trees: the nodes of %s are not read' % m)
        return
    a = dict(tr[2])
    r.ob('model-trees', 'weight of the trees of %s' % m, f.loc(), one(a.get('scaling')), 'the trees are scaled' if not one(a.get('scaling')) else '')
    want = {'children_left': 'left', 'children_right': 'right', 'features': 'feature_idx', 'thresholds': 'threshold', 'values': 'value', 'node_sample_weight': 'count'}
    d = {k[1]: v for k, v in a['tree'][1] if k[0] == 'const'}
    alias = {'feature': 'features', 'threshold': 'thresholds', 'value': 'values'}
    d = {alias.get(k, k): v for k, v in d.items()}
    for k, w in want.items():
        v = strip(d.get(k, ('havoc',)))
        if v[0] != 'map':
            r.notes.append('model-trees: %s of the nodes of %s is not read' % (k, m))
            continue
        x = strip(v[3])
        if x[0] == 'list' and len(x) == 2:
            x = strip(x[1])
        neg = leaf and k in ('children_left', 'children_right')
        if x[0] == 'idx' and x[2][0] == 'const' and x[1][0] == 'idx' and x[1][2] == v[1]:
            g = FIELD.get(x[2][1], x[2][1])
            ok = g == w and not neg
        elif x[0] == 'const':
            g, ok = x[1], neg and x[1] < 0 or leaf and k in ('features', 'thresholds')
        else:
            r.notes.append('model-trees: %s of the nodes of %s is not read' % (k, m))
            continue
        r.ob('model-trees', '%s of the %s' % (k, said), f.loc(), ok, '' if ok else 'it is %s' % g)
        small = narrow(d[k]) if k in ('thresholds', 'values') else None
        r.ob('model-trees', 'precision of %s of the %s' % (k, said), f.loc(), small is None, 'it is rounded to %s' % small if small else '')


def check(env, r):
    paths(env, r)
    arrays(env, r)
    xgboost(env, r)
    descents(env, r)
    models(env, r)
    for name in ('BaseTree', 'BaseAgnosTree'):
        cls = env.ctx.cls(name)
        mod = 'sklearn.ensemble.RandomForestRegressor' if name == 'BaseTree' else 'skranger.ensemble.regressor.RangerForestRegressor'
        packed(env, r, cls, Mode(mod), True)
        if name == 'BaseTree':
            packed(env, r, cls, Mode('lightgbm.sklearn.LGBMClassifier', True), True)
