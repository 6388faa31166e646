"""Predictions of the C extension.  The functions of the extension are executed symbolically over clang's syntax tree; loops
are summarised by their counters.  For every sample, output and tree the sum of what is added to the result must be the
offset of the output plus the output of one leaf per tree, read at the pointers of that sample; the walk to the leaf starts
at the root of that tree and, for every combination of the conditions a turn tests, goes to the default child if the value
is missing, else left if it is at most the threshold, else right, and returns the values of the leaf it has reached; the
depth of a tree is one more than that of its deepest child, zero for a leaf.  The arrays Python passes reach the fields
they are named after, with the dimensions of the arrays themselves, and the offset is as long as the outputs before it is
read.  On the Python side each argument of the call is what its place means: the tables of the explainer, the samples given,
their missing mask, a cleared result with one row per sample, and as many trees as asked for."""
import itertools

from .. import cext
from ..cext import Exec, Undecided, add, atom, body, const, cval, is_p, mul, poly, State
from ..vn import VN, alts, show, subs
from .c18 import Own, takes_objects, wrappers

FIELDS = ('children_left', 'children_right', 'children_default', 'features', 'thresholds', 'values')


def symstruct(ex, st, name, tname):
    i = ex.fresh(name)
    st.structs[i] = {}
    return ('struct', i)


def fieldv(st, s, name):
    return st.structs.get(s[1], {}).get(name, ('field', s, name))


def has_bad(v):
    if isinstance(v, tuple):
        if v and v[0] == 'sym' and v[1] in ('after', 'default', 'new', 'x') or v and v[0] in ('unknown', 'uninit', 'cases'):
            return True
        if v and v[0] == 'sym' and v[1].startswith('h'):
            return True
        return any(has_bad(x) for x in v)
    return False


def terms(effs, extra_loops=()):
    """Effects '+=' flattened to [(loops, pointer, monomial, coefficient, facts)]."""
    out = []
    for op, p, v, loops, facts, line in effs:
        if op == '=':
            if not is_p(v):
                v = poly(v)
            me = ('load', p)
            if (((me,), 1)) in v[1]:
                v = ('p', tuple(x for x in v[1] if x != ((me,), 1)))
                op = '+='
        if op == '-=':
            v = mul(const(-1), poly(v))
            op = '+='
        if op != '+=':
            out.append((op, tuple(loops), p, v, 1, facts, line))
            continue
        flat(poly(v), tuple(loops), p, facts, line, out)
    return out


def flat(v, loops, p, facts, line, out):
    for mon, c in v[1]:
        sums = [a for a in mon if isinstance(a, tuple) and a and a[0] == 'sum']
        if len(sums) == 1:
            rest = tuple(a for a in mon if a != sums[0])
            inner = mul(('p', ((rest, c),)), sums[0][3])
            flat(inner, loops + (('loop', sums[0][1], sums[0][2]),), p, facts, line, out)
        else:
            out.append(('+=', loops, p, mon, c, facts, line))


def rename(v, m):
    return cext.sub(v, m)


def check_sum(env, r, ex, name, single):
    """dense_tree_predict / single_tree_predict."""
    q = 'acv_tree.h:' + name
    fn = ex.fns[name]
    r.unit(q)
    where = '%s:%s' % (cext.HEAD, fn.get('_line'))
    st = State()
    ps = [c for c in fn['inner'] if c.get('kind') == 'ParmVarDecl']
    out, trees, data, tree_j = ('field', 'P', 'out'), None, None, None
    for p in ps:
        t = p['type']['qualType']
        if 'TreeEnsemble' in t:
            trees = symstruct(ex, st, 'trees', t)
            st.v[p['id']] = trees
        elif 'ExplanationDataset' in t:
            data = symstruct(ex, st, 'data', t)
            st.v[p['id']] = data
        elif '*' in t:
            st.v[p['id']] = ('ptr', out, const(0))
        else:
            tree_j = ('arg', p.get('name'))
            st.v[p['id']] = atom(tree_j)
    if trees is None or data is None or (single and tree_j is None):
        r.notes.append('undecided: parameters of %s' % q)
        return None
    for k in ('X', 'X_missing'):
        st.structs[data[1]][k] = ('ptr', ('field', data, k), const(0))
    for k in FIELDS + ('base_offset', 'node_sample_weights'):
        st.structs[trees[1]][k] = ('ptr', ('field', trees, k), const(0))
    for k in ('num_X', 'M', 'num_R'):
        st.structs[data[1]][k] = atom(('field', data, k))
    for k in ('max_nodes', 'num_outputs', 'tree_limit', 'max_depth'):
        st.structs[trees[1]][k] = atom(('field', trees, k))
    try:
        res = ex.block(body(fn), st)
    except Undecided as e:
        r.notes.append('undecided: %s (%s)' % (q, e))
        return None
    ends = [x[2] for x in res if x[0] in ('next', 'ret')]
    if not ends:
        r.notes.append('undecided: %s does not end' % q)
        return None
    walker = None
    F = lambda s, k: atom(('field', s, k))
    good = None
    for s in ends:
        ts = terms(s.eff)
        its = set()
        und = False
        for op, loops, p, mon, c, facts, line in ts:
            for l in loops:
                its.add(l[1])
                und |= l[2] is None
            und |= has_bad(p) or has_bad(mon)
        if und or any(('load', p) == a for t in ts for a in t[3] for p in [t[2]] if t[0] == '+='):
            r.notes.append('undecided: %s has a loop or value without closed form' % q)
            return None
        # guards of the effects beyond the loop conditions
        odd = []
        for op, loops, p, mon, c, facts, line in ts:
            bnds = {l[1]: l[2] for l in loops}
            for a, pol in facts.items():
                if a[0] == '<=' and pol is False and any(a[1:] in ((b, atom(i)),) for i, b in bnds.items()):
                    continue
                if a[0] == '==' and pol is False and any(set(a[1:]) == {b, atom(i)} for i, b in bnds.items()):
                    continue
                odd.append((a, line))
        if any(set(x for x in cext.atoms(a) if x[1] == 'it') or 'load' in repr(a) for a, _ in odd):
            a, line = next((a, l) for a, l in odd)
            good = (False, line, 'what is added depends on a condition of its own')
            break
        if odd:
            r.notes.append('undecided: %s adds under a condition' % q)
            return None
        want = {}
        got = {}
        NX, M, K, T = F(data, 'num_X'), F(data, 'M'), F(trees, 'num_outputs'), F(trees, 'tree_limit')
        for op, loops, p, mon, c, facts, line in ts:
            calls = sorted({a for a in subterms(mon) if a[0] == 'call'}, key=repr)
            best = None
            for perm in itertools.permutations(loops):
                m = {l[1]: ('L', i) for i, l in enumerate(perm)}
                key = (op, tuple(rename(l[2], {k: v for k, v in m.items()}) for l in perm), rename(p, m), rename(mon, m), c)
                if best is None or repr(key) < repr(best):
                    best = key
            got.setdefault(best, line)
            if calls:
                walker = walker or calls[0][1]
        i, k, j = ('L', 'i'), ('L', 'k'), ('L', 'j')
        pt = ('ptr', out, add(mul(atom(i), K), atom(k)))
        exp = [(((i, NX), (k, K)), (('load', ('ptr', ('field', trees, 'base_offset'), atom(k))),))]
        leaf_call = ('LEAF', atom(tree_j) if single else atom(j))
        loops2 = ((i, NX), (k, K)) if single else ((i, NX), (j, T), (k, K))
        exp.append((loops2, leaf_call))
        found = {}
        for op, loops, p, mon, c, facts, line in ts:
            ok = None
            for e, (el, em) in enumerate(exp):
                if len(el) != len(loops):
                    continue
                for perm in itertools.permutations(loops):
                    m = {l[1]: x[0] for l, x in zip(perm, el)}
                    if [rename(l[2], m) for l in perm] != [x[1] for x in el] or rename(p, m) != pt or op != '+=' or c != 1:
                        continue
                    mm = rename(mon, m)
                    if em[0] == 'LEAF':
                        if len(mm) == 1 and mm[0][0] == 'load' and mm[0][1][0] == 'ptr' and mm[0][1][2] == atom(k) and \
                                mm[0][1][1][0] == 'call':
                            args = mm[0][1][1][2]
                            need = [em[1], trees, ('ptr', ('field', data, 'X'), mul(atom(i), M)),
                                    ('ptr', ('field', data, 'X_missing'), mul(atom(i), M))]
                            if len(args) == 4 and all(x in args for x in need):
                                ok = e
                                walker = (mm[0][1][1][1], [('j', 'trees', 'x', 'miss')[need.index(a)] for a in args])
                    elif mm == em:
                        ok = e
            found.setdefault(ok, []).append((line, mon))
        if None in found:
            good = (False, found[None][0][0], 'what is added to the result here is not the offset of the output, nor the leaf of '
                    'one tree for this sample')
        elif any(e not in found for e in range(len(exp))):
            good = (False, fn.get('_line'), 'the %s is never added' % ('offset' if 0 not in found else 'leaf value'))
        elif any(len(v) > 1 for v in found.values()):
            good = (False, fn.get('_line'), 'a part of the prediction is added twice')
        else:
            good = (True, fn.get('_line'), '')
        if not good[0]:
            break
    r.ob('sum-of-leaves', q, '%s:%s' % (cext.HEAD, good[1]), good[0], good[2])
    return walker if isinstance(walker, tuple) else None


def subterms(v):
    if isinstance(v, tuple):
        if v and isinstance(v[0], str):
            yield v
        for x in v:
            yield from subterms(x)


def check_walk(env, r, ex, name, roles, update=False):
    q = 'acv_tree.h:' + name
    fn = ex.fns.get(name)
    if fn is None:
        return
    r.unit(q)
    st = State()
    ps = [c for c in fn['inner'] if c.get('kind') == 'ParmVarDecl']
    trees = symstruct(ex, st, 'trees', '')
    for k in FIELDS + ('base_offset', 'node_sample_weights'):
        st.structs[trees[1]][k] = ('ptr', ('field', trees, k), const(0))
    for k in ('max_nodes', 'num_outputs', 'tree_limit', 'max_depth'):
        st.structs[trees[1]][k] = atom(('field', trees, k))
    X, MISS, J = ('field', 'P', 'x'), ('field', 'P', 'x_missing'), atom(('arg', 'i'))
    for p, role in zip(ps, roles):
        st.v[p['id']] = {'j': J, 'trees': trees, 'x': ('ptr', X, const(0)), 'miss': ('ptr', MISS, const(0))}[role]
    n0 = len(ex.loops)
    ex.stack.append(name)
    try:
        res = ex.block(body(fn), st)
    except Undecided as e:
        r.notes.append('undecided: %s (%s)' % (q, e))
        return
    finally:
        ex.stack.pop()
    loops = ex.loops[n0:]
    where = '%s:%s' % (cext.HEAD, fn.get('_line'))
    if len(loops) != 1:
        r.notes.append('undecided: %s has %d open loops' % (q, len(loops)))
        return
    L = loops[0]
    root = mul(J, atom(('field', trees, 'max_nodes')))
    turns = L['turns']
    rets = [(v, s.facts, s) for kind, v, s in res if kind == 'ret']
    if update:
        rets = [(None, t[2], None) for t in turns if t[0] in ('break', 'exit')]
    heads = {m: h for m, h in L['head'].items() if m not in L['step']}
    best = None
    for m, h in heads.items():
        for rel in (True, False):
            init = poly(L['init'][m])
            POS = add(root, h) if rel else h
            x = judge(r, q, trees, X, MISS, POS, root if not rel else const(0), m, turns, rets, init, update)
            if x is None:
                continue
            if best is None or (x[0] and not best[0]):
                best = x
    if best is None:
        for a in subterms(tuple(t[2:4] and tuple(t[2].items()) + tuple(t[3].values()) for t in turns)):
            if a[0] == 'load' and a[1][0] == 'ptr' and a[1][1] in [('field', trees, c) for c in ('children_left', 'children_right')] \
                    and not has_bad(sub_heads(a[1][2], heads)) and any(set(cext.atoms(a[1][2])) & set(cext.atoms(h)) for h in heads.values()):
                r.ob('walk', q, where, False, 'the tables of the tree are read at another place than tree * max_nodes + node')
                return
        r.notes.append('undecided: no variable of %s walks the tree' % q)
        return
    r.ob('walk', q, where, best[0], best[1])


def sub_heads(v, heads):
    return cext.sub(v, {x: ('arg', 'node') for h in heads.values() for x in cext.atoms(h)})


def judge(r, q, trees, X, MISS, POS, off, m, turns, rets, init, update):
    """(holds, why), or None when the variable does not index the tables."""
    def at(f, s=None):
        return ('load', ('ptr', ('field', trees, f), POS))
    txt = repr(turns) + repr([(v, f) for v, f, _ in rets])
    if repr(at('children_left')) not in txt and repr(at('children_right')) not in txt:
        return None
    feat = atom(at('features'))
    miss, xv, thr = ('load', ('ptr', MISS, feat)), ('load', ('ptr', X, feat)), at('thresholds')

    def classify(a):
        """(condition, polarity that means it holds)."""
        op, x, y = a
        for c in ('children_left', 'children_right'):
            k = atom(at(c))
            if op == '<=' and x == const(0) and y == k:
                return 'leaf', False
            if op == '<=' and x == k and y == const(-1):
                return 'leaf', True
            if op == '==' and {x, y} == {k, const(-1)}:
                return 'leaf', True
        if op == '==' and {x, y} == {atom(miss), const(0)}:
            return 'missing', False
        if op == '==' and {x, y} == {atom(miss), const(1)}:
            return 'missing', True
        nan = [c for p in (x, y) for c in tops(p) if c[0] == 'call' and c[1].split('::')[-1] == 'isnan' and atom(xv) in [poly(z) for z in c[2]]]
        if op == '==' and nan and {x, y} - {atom(nan[0])} in ({const(0)}, {const(1)}):
            return 'missing', const(1) in (x, y)
        if (op, x, y) == ('<=', atom(xv), atom(thr)):
            return 'le', True
        return None, None
    if init != off:
        return False, 'the walk starts at %s, not at the root of the tree' % ('another node',)
    outs = [('next', t[3][m], t[2]) for t in turns if t[0] == 'next'] + [('ret', v, f) for v, f, _ in rets]
    dom = {'leaf': {}, 'missing': {}, 'le': {}}
    allf = set()
    for kind, v, facts in outs:
        allf |= set(facts)
    for a in allf:
        c, pol = classify(a)
        if c is None:
            txt = repr(a)
            if any(repr(z) in txt for z in (at('children_left'), at('children_right'), miss, xv, thr)):
                return False, 'a turn decides by %s' % ctext(a)
            if repr(X) in txt or repr(MISS) in txt or "'thresholds'" in txt:
                return False, 'a turn compares entries of different nodes or features: %s' % ctext(a)
            return None
    nkeys, astray = 0, set()
    for leaf, ms, le in itertools.product((False, True), repeat=3):
        env = {'leaf': leaf, 'missing': ms, 'le': le}
        hit = []
        for kind, v, facts in outs:
            if all((facts[a] == classify(a)[1]) == env[classify(a)[0]] for a in facts):
                hit.append((kind, v))
        if not hit:
            continue
        nkeys += 1
        for kind, v in hit:
            if leaf:
                if kind != 'ret':
                    return False, 'the walk goes on at a leaf'
                if not update and v != ('ptr', ('field', trees, 'values'), mul(POS, atom(('field', trees, 'num_outputs')))):
                    return False, 'what is returned is not the row of values of the leaf reached'
            else:
                if kind == 'ret':
                    return False, 'the walk ends at an inner node'
                want = 'children_default' if ms else 'children_left' if le else 'children_right'
                if ms and poly(v) == add(off, atom(at('children_left' if le else 'children_right'))):
                    astray.add(le)      # a missing value is a NaN: of two complementary comparisons only one is ever met
                elif poly(v) != add(off, atom(at(want))):
                    return False, 'for a %s value the walk does not go to %s' % (
                        'missing' if ms else 'value at most the threshold:' if le else 'value above the threshold:', want)
    if len(astray) > 1:
        return False, 'for a missing value the walk does not go to children_default'
    if nkeys < 8:
        return False, 'some combination of leaf, missing and comparison has no way to go'
    return True, ''


def ctext(a):
    return '%s of %s' % (a[0], ' and '.join(sorted({x[2] for x in subterms(a) if x[0] == 'field'})))


def check_depth(env, r, ex, name):
    fn = ex.fns.get(name)
    if fn is None:
        return
    q = 'acv_tree.h:' + name
    r.unit(q)
    st = State()
    tree = symstruct(ex, st, 'tree', '')
    ps = [c for c in fn['inner'] if c.get('kind') == 'ParmVarDecl']
    node = None
    for p in ps:
        if 'TreeEnsemble' in p['type']['qualType']:
            st.v[p['id']] = tree
        else:
            st.v[p['id']] = atom(('arg', p.get('name')))
            node = node or ('arg', p.get('name'))
    for k in FIELDS + ('node_sample_weights',):
        st.structs[tree[1]][k] = ('ptr', ('field', tree, k), const(0))
    st.structs[tree[1]]['num_outputs'] = atom(('field', tree, 'num_outputs'))
    ex.stack.append(name)
    try:
        res = ex.block(body(fn), st)
    except Undecided as e:
        r.notes.append('undecided: %s (%s)' % (q, e))
        return
    finally:
        ex.stack.pop()
    L, R = [('load', ('ptr', ('field', tree, c), atom(node))) for c in ('children_left', 'children_right')]
    ok, why = True, ''
    for kind, v, s in res:
        inner = None
        for a, pol in s.facts.items():
            for k in (L, R):
                if a == ('<=', const(0), atom(k)):
                    inner = pol
                elif a[0] == '==' and {a[1], a[2]} == {atom(k), const(-1)}:
                    inner = not pol
                elif a == ('<=', atom(k), const(-1)):
                    inner = not pol
        if inner is None:
            r.notes.append('undecided: %s does not tell leaves from inner nodes' % q)
            return
        v = poly(v)
        if not inner:
            if cval(v) is None:
                r.notes.append('undecided: depth of a leaf in %s' % q)
                return
            if cval(v) != 0:
                ok, why = False, 'the depth of a leaf is %s' % cval(v)
        else:
            rest = add(v, const(1), -1)
            m = [a for mon, c in rest[1] for a in mon]
            if len(rest[1]) == 1 and rest[1][0][1] == 1 and len(m) == 1 and m[0][0] == 'call' and m[0][1] in ('max', 'min'):
                kids = set()
                for c in m[0][2]:
                    c = c if c[0] == 'call' else (c[1][0][0][0] if is_p(c) and len(c[1]) == 1 and c[1][0][0] else c)
                    kids |= {x for x in (L, R) if c[0] == 'call' and c[1] == name and atom(x) in [poly(z) for z in c[2]]}
                if m[0][1] == 'min' or kids != {L, R}:
                    ok, why = False, 'the depth is not one more than that of the deeper child'
            elif kid_depth(s, v, name, (L, R)):
                pass
            elif kid_depth(s, v, name, (L, R)) is False or not rest[1] or all(a[0] == 'load' for a in m):
                ok, why = False, 'the depth is not one more than that of the deeper child'
            else:
                r.notes.append('undecided: depth in %s' % q)
                return
    r.ob('depth', q, '%s:%s' % (cext.HEAD, fn.get('_line')), ok, why)


def kid_depth(s, v, name, kids):
    """The value is one more than the depth of a child that is, by the facts, at least as deep as the other: True, or False
    when it is one more than that of the child known to be no deeper, None otherwise."""
    rest = add(v, const(1), -1)
    if len(rest[1]) != 1 or rest[1][0][1] != 1 or len(rest[1][0][0]) != 1 or rest[1][0][0][0][0] != 'call' or rest[1][0][0][0][1] != name:
        return None
    me = rest[1][0][0][0]

    def kid(a):
        return next((k for k in kids if a[0] == 'call' and a[1] == name and atom(k) in [poly(z) for z in a[2]]), None)
    if kid(me) is None:
        return None
    for a, pol in s.facts.items():
        if a[0] != '<=' or len(a) != 3:
            continue
        x, y = [[z for z in tops(p) if kid(z)] for p in a[1:]]
        if len(x) == len(y) == 1 and {kid(x[0]), kid(y[0])} == set(kids) and a[1] == atom(x[0]) and a[2] == atom(y[0]):
            big = y[0] if pol else x[0]
            return kid(big) == kid(me)
    if sum(1 for a in s.facts if sum(1 for x in subterms(a) if kid(x)) > 1) == 0:
        return False
    return None


def tops(p):
    return [a for mon, c in p[1] for a in mon] if is_p(p) else []


class Roles(Own):
    def __init__(self, fn, targets):
        Own.__init__(self, fn)
        self.targets, self.seen = targets, []

    def call(self, ex, name, vs, n, s):
        if name in self.targets:
            self.seen.append((name, vs, dict(s.facts), {k: dict(d) for k, d in s.structs.items()}, n))
        return Own.call(self, ex, name, vs, n, s)


def check_wrapper(env, r, tree, w, entry):
    """Which argument of the Python call ends in which field; -> {place: role}."""
    q = '_cext:' + w['name']
    own = Roles(w, entry)
    ex = Exec(tree, on=own)
    ex.opaque = {f for f, d in ex.fns.items() if not takes_objects(d)}
    st = State()
    for i, p in enumerate([c for c in w['inner'] if c.get('kind') == 'ParmVarDecl']):
        st.v[p['id']] = ('param', i, p.get('name'))
    try:
        ex.block(body(w), st)
    except Undecided as e:
        r.notes.append('undecided: %s (%s)' % (q, e))
        return None
    if not own.seen:
        return None
    r.unit(q)
    name, vs, facts, structs, n = own.seen[0]
    where = '%s:%s' % (cext.CEXT, n.get('_line'))
    roles, arr = {}, {}

    def src(v):
        """Place of the Python argument a pointer or number comes from."""
        if isinstance(v, tuple):
            if v[0] == 'data' and v[1][0] == 'arr' and v[1][3][0] == 'arg':
                arr[v[1][3][1]] = v[1]
                return v[1][3][1]
            if v[0] == 'ptr' and cval(v[2]) == 0:
                return src(v[1])
            if v[0] == 'arg':
                return v[1]
            if is_p(v) and len(v[1]) == 1 and len(v[1][0][0]) == 1 and v[1][0][1] == 1:
                return src(v[1][0][0][0])
        return None
    fields = {}
    for v in vs:
        if isinstance(v, tuple) and v[0] == 'struct':
            fields.update({k: x for k, x in structs.get(v[1], {}).items()})
        elif isinstance(v, tuple) and v[0] in ('data', 'ptr') and src(v) is not None:
            roles[src(v)] = 'out'
        elif src(v) is not None:
            roles[src(v)] = 'tree'
    for f, x in fields.items():
        k = src(x)
        if k is not None and f not in ('num_X', 'M', 'max_nodes', 'num_outputs'):
            if k in roles:
                r.ob('fields', '%s(%s)' % (q, f), where, False, 'one argument of the call ends in both %s and %s' % (roles[k], f))
            roles[k] = f
    back = {f: k for k, f in roles.items()}

    def dim(f, i):
        k = back.get(f)
        return ('dim', arr[k], const(i)) if k in arr else None
    want = {'max_nodes': dim('values', 1), 'num_outputs': dim('values', 2), 'num_X': dim('X', 0), 'M': dim('X', 1)}
    if entry == {'compute_expectations'}:
        want = {'num_outputs': dim('values', 1)}
    for f, v in want.items():
        if f in fields and v is not None:
            ok = fields[f] == v or fields[f] == atom(v)
            r.ob('fields', '%s(%s)' % (q, f), where, ok, '%s is not that dimension of the array itself' % f)
    for f in fields:
        if f in FIELDS + ('base_offset', 'X', 'X_missing', 'tree_limit'):
            r.ob('fields', '%s(%s)' % (q, f), where, f in back or (entry == {'compute_expectations'}), 'the field %s is not filled from an argument' % f)
    if 'base_offset' in back and want.get('num_outputs'):
        a, b = atom(dim('base_offset', 0)), atom(want['num_outputs'])
        ok = any(f[0] == '==' and {poly(f[1]), poly(f[2])} == {a, b} and pol for f, pol in facts.items())
        r.ob('offset-length', q, where, ok, 'the offset is read for every output without having been compared in length')
    return roles


SELF = ('param', 'self')


def core(v):
    """The value without conversions that keep the numbers and the order of the samples."""
    while True:
        if v[0] == 'attr' and v[2] == 'values' and v[1] != SELF:
            v = v[1]
        elif v[0] == 'call' and isinstance(v[1], tuple) and v[1][0] == 'attr' and v[1][2] in ('reshape', 'astype', 'copy', 'flatten', 'ravel', 'to_numpy') \
                and (v[1][2] != 'reshape' or True):
            v = v[1][1]
        elif v[0] == 'call' and isinstance(v[1], tuple) and v[1][0] == 'attr' and v[1][2] in ('asarray', 'array', 'ascontiguousarray', 'expand_dims', 'atleast_2d') and v[2]:
            v = v[2][0]
        elif v[0] == 'idx' and v[2] == ('const', 0):
            v = v[1]
        else:
            return v


def cores(v):
    out = set()
    for a in alts(v):
        c = core(a)
        out |= cores(c) if c[0] == 'phi' else {c}
    return out


def fname(v):
    return v[1][2] if v[0] == 'call' and isinstance(v[1], tuple) and v[1][0] == 'attr' else v[1] if v[0] == 'call' and isinstance(v[1], str) else None


def rows(v, X):
    """v is the number of rows of (something with the rows of) X."""
    if v[0] == 'idx' and v[2] == ('const', 0) and v[1][0] == 'attr' and v[1][2] == 'shape':
        return cores(v[1][1]) == X
    if v[0] == 'call' and (v[1] == ('name', 'len') or v[1] == ('global', 'len') or fname(v) == 'len' or v[1] == ('builtin', 'len')) and v[2]:
        return cores(v[2][0]) == X
    if v[0] == 'idx' and v[1][0] == 'attr' and v[1][2] == 'shape':
        return False
    return None


SCEN = {'given': (True, 0), 'negative': (True, -1), 'too large': (True, 1), 'set on the model': (False, 0), 'none': (False, None)}


def decider(sc):
    given, rel = SCEN[sc]
    P, A = ('param', 'tree_limit'), ('attr', SELF, 'tree_limit')

    def num(v):
        if v[0] == 'const' and isinstance(v[1], (int, float)):
            return v[1]
        if v in (P, A):
            return {0: 5, -1: -3, 1: 50}.get(rel)
        if v[0] == 'op' and v[1] in ('USub',) and v[2][0] == 'const':
            return -v[2][1]
        if v[0] == 'neg' and v[1][0] == 'const':
            return -v[1][1]
        if v[0] == 'idx' and v[1][0] == 'attr' and v[1][2] == 'shape' or v[0] == 'call' and fname(v) == 'len':
            return 10
        return None

    def decide(v):
        if v[0] == 'cmp':
            if v[3] == ('const', None) and v[1] in ('Is', 'IsNot', 'Eq', 'NotEq') and v[2] in (P, A):
                none = (not given) if v[2] == P else rel is None
                return none == (v[1] in ('Is', 'Eq'))
            a, b = num(v[2]), num(v[3])
            if a is not None and b is not None:
                return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b, 'Eq': a == b, 'NotEq': a != b}.get(v[1])
        return None
    return decide


def allT(v):
    return v[0] == 'idx' and v[2] == ('const', 0) and v[1][0] == 'attr' and v[1][2] == 'shape' and core(v[1][1])[0] == 'attr' and core(v[1][1])[1] == SELF or \
        v[0] == 'call' and 'len' in repr(v[1]) and v[2] and core(v[2][0])[0] == 'attr'


def check_python(env, r, roles_of):
    """The calls of the extension in the Python sources."""
    import ast
    for f in env.ctx.fns:
        if f.native or not f.cls:
            continue
        if not any(isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'cext_acv' for x in ast.walk(f.node)):
            continue
        if f.name in ('__init__', 'shap_values') and False:
            continue
        for sc in (SCEN if 'tree_limit' in f.params else ('-',)):
            seen = []

            def on_call(cf, v, node, fn, st, seen=seen):
                if cf is None and isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name) and node.func.value.id == 'cext_acv':
                    seen.append((node, v, node.func.attr))
            ret, st = VN(env, decider(sc) if sc != '-' else None, on_call=on_call).run(f)
            for node, v, name in seen:
                one(env, r, f, sc, node, v, name, roles_of.get(name), ret)


def selfattrs(cls):
    import ast
    return {x.attr for x in ast.walk(cls.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and
            isinstance(x.value, ast.Name) and x.value.id == 'self'}


def one(env, r, f, sc, node, v, name, roles, ret):
    r.unit(f)
    where = f.loc(node)
    q = '%s->%s' % (f.qual, name)
    if roles is None or v[3] or any(isinstance(a, tuple) and a[0] == 'starred' for a in v[2]):
        r.notes.append('undecided: %s' % q)
        return
    args = v[2]
    npl = max(roles) + 1
    r.ob('arguments', q, where, len(args) >= npl, 'the call passes %d arguments, the extension reads %d' % (len(args), npl))
    if len(args) < npl:
        return
    back = {x: args[k] for k, x in roles.items()}
    X = cores(back['X']) if 'X' in back else None
    und = lambda v: any(x[0] in ('opaque', 'havoc', 'loopvar', 'updated') for x in subs(v))
    for role, a in back.items():
        con = '%s(%s)' % (q, role)
        ok, why = True, ''
        src = node.args[[k for k, x in roles.items() if x == role][0]]
        if role in FIELDS + ('node_sample_weights',) and f.name == '__init__' and getattr(getattr(src, 'value', None), 'id', None) == f.params[0]:
            r.ob('arguments', con, where, src.attr.rstrip('s') == role.rstrip('s'), 'the place of %s gets self.%s' % (role, src.attr))
            continue
        if und(a):
            r.notes.append('undecided: %s' % con)
            continue
        if role in FIELDS or role == 'node_sample_weights':
            for c in cores(a):
                div = c[0] == 'op' and c[1] in ('Div', '/') and len(c) == 4
                if div and role == 'values' and c[3] == ('attr', SELF, 'scaling'):
                    cs = cores(c[2])
                else:
                    cs = {c}
                for c in cs:
                    if c[0] != 'attr' or c[1] != SELF:
                        r.notes.append('undecided: %s = %s' % (con, show(c)[:60]))
                    elif c[2].rstrip('s') != role.rstrip('s'):
                        ok, why = False, 'the place of %s gets self.%s' % (role, c[2])
        elif role == 'base_offset':
            for c in cores(a):
                own = any(('base_offset' in t) for t in [selfattrs(f.cls)])
                if fname(c) in ('zeros', 'zeros_like') and not own:
                    continue
                if c != ('attr', SELF, 'base_offset'):
                    ok, why = False, 'the offset passed is %s' % show(c)[:60]
        elif role == 'X':
            if f.params and 'X' in f.params and X != {('param', 'X')}:
                ok, why = False, 'the samples passed are %s' % show(a)[:80]
        elif role == 'X_missing':
            for c in cores(a):
                if fname(c) == 'isnan' and c[2]:
                    if cores(c[2][0]) != X:
                        ok, why = False, 'the missing mask is that of %s' % show(c[2][0])[:60]
                elif fname(c) in ('zeros', 'zeros_like', 'invert', 'logical_not') or c[0] in ('not', 'op', 'attr', 'const', 'param', 'un', 'unary', 'neg'):
                    ok, why = False, 'the missing mask is %s' % show(c)[:60]
                else:
                    r.notes.append('undecided: %s = %s' % (con, show(c)[:60]))
        elif role == 'out':
            for c in cores(a):
                sh = c[2][0] if fname(c) in ('zeros', 'empty', 'ones') and c[2] else dict(c[3]).get('shape') if fname(c) in ('zeros', 'empty', 'ones') else None
                if fname(c) in ('empty', 'ones'):
                    ok, why = False, 'the predictions are added to an array that is not cleared'
                elif sh is None or sh[0] not in ('tuple', 'list') or len(sh) != 3:
                    r.notes.append('undecided: %s = %s' % (con, show(c)[:60]))
                else:
                    if rows(sh[1], X) is False or sh[1] == ('attr', SELF, 'num_outputs'):
                        ok, why = False, 'the result has %s rows' % show(sh[1])[:60]
                    elif sh[2] != ('attr', SELF, 'num_outputs') and not (sh[2][0] == 'idx' and 'shape' in repr(sh[2])) and sh[2][0] in ('const', 'attr'):
                        ok, why = False, 'the result has %s columns' % show(sh[2])[:60]
            if ret is not None and f.name == 'predict':
                rc = set()
                for c in alts(ret):
                    rc |= cores(c)
                if rc != cores(a) and not any(und(x) for x in rc):
                    ok, why = False, 'what is returned is %s, not the array the extension filled' % ' or '.join(show(x)[:40] for x in rc)
        elif role == 'tree_limit':
            want = {'given': lambda c: c == ('param', 'tree_limit'), 'set on the model': lambda c: c == ('attr', SELF, 'tree_limit'),
                    'negative': allT, 'too large': allT, 'none': allT, '-': lambda c: c == ('const', 1) or allT(c)}[sc]
            for c in alts(a):
                if not want(c):
                    if c[0] in ('const', 'param', 'attr', 'idx', 'op'):
                        ok, why = False, 'with the limit %s the trees used are %s' % (sc, show(c)[:60])
                    else:
                        r.notes.append('undecided: %s = %s' % (con, show(c)[:60]))
            con += '/' + sc
        r.ob('arguments', con, where, ok, why)


def check(env, r):
    tree, errors = cext.load(env.ctx)
    if errors:
        r.notes.append('undecided: clang reports %d errors with the stub headers' % errors)
    ex = Exec(tree)
    walks = {}
    open_fns = {f for f, d in ex.fns.items() if any_kind(d, 'WhileStmt') or any(
        x['kind'] == 'ForStmt' and not (x.get('inner') or [None] * 5)[2] for x in nodes(d))}
    ex.opaque = set(open_fns)
    entries = {'dense_tree_predict': False, 'single_tree_predict': True}
    for name, single in entries.items():
        if name not in ex.fns:
            r.notes.append('undecided: %s not found' % name)
            continue
        w = check_sum(env, r, ex, name, single)
        if w:
            walks[w[0]] = w[1]
    for name, roles in walks.items():
        e2 = Exec(tree)
        check_walk(env, r, e2, name, roles)
    if 'tree_update_weights' in ex.fns:
        check_walk(env, r, Exec(tree), 'tree_update_weights', ('j', 'trees', 'x', 'miss'), update=True)
    check_depth(env, r, Exec(tree), 'compute_expectations')
    roles_of = {}
    for w in wrappers(tree):
        for entry in ({'dense_tree_predict'}, {'single_tree_predict'}, {'compute_expectations'}):
            x = check_wrapper(env, r, tree, w, entry)
            if x is not None:
                roles_of[w['name'].replace('_cext_', '')] = x
    r.notes.append('arguments by place: %s' % {k: [v[i] for i in sorted(v)] for k, v in roles_of.items()})
    check_python(env, r, roles_of)
    r.floor('fields', 20)
    r.floor('arguments', 20)


def nodes(n):
    st = [n]
    while st:
        x = st.pop()
        if x.get('kind'):
            yield x
        st += [c for c in x.get('inner', []) if c]


def any_kind(n, k):
    return any(x['kind'] == k for x in nodes(n))
