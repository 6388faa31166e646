"""Class probabilities of binary boosted models come from the two-class leaf values.  (table) The value of the two-class
table is extracted by substitution of reaching definitions as a formula of the leaf values and compared, by computer algebra,
with the logistic function in column 1 and its complement in column 0, both over the number of trees.  (methods) For every
class of boosted classifier, with one output or more, and every other class of model, the leaf values each classification
method hands to the kernels are found by evaluating the conditions on the class of the model, and must be that table exactly
for a booster with one output, and the values of the trees otherwise."""
import sympy
from ..build import Build, has, name_of, strip
from ..vn import show
from .c24 import Mode, cls_names, constructed, trees_named, canon, SELF, MODEL

BOOSTED = (('xgboost.sklearn.XGBClassifier',), ('lightgbm.sklearn.LGBMClassifier',),
           ('sklearn.ensemble.GradientBoostingClassifier', 'sklearn.ensemble._gb.GradientBoostingClassifier'))
OTHERS = (('sklearn.ensemble.RandomForestClassifier',), ('sklearn.ensemble.ExtraTreesClassifier',), ('sklearn.tree.DecisionTreeClassifier',))


class Ask(Mode):
    def __init__(self, names, one):
        super().__init__(names[0], False, one)
        self.names = names

    def __call__(self, v):
        if v[0] == 'call' and (v[1] if isinstance(v[1], str) else name_of(v[1]) or '').endswith('safe_isinstance') and v[2][0] in (MODEL, ('attr', SELF, 'model')):
            return any(c in self.names for c in cls_names(v[2][1]))
        return super().__call__(v)


X, N = sympy.Symbol('x', real=True), sympy.Symbol('n', positive=True)


class Unread(Exception):
    pass


def formula(v, nt):
    v = strip(v)
    if v[0] == 'attr' and v[1][:1] == ('T',) and v[2] == 'values':
        return X
    if v[0] == 'idx' and v[1][0] == 'attr' and v[1][1][:1] == ('T',) and v[1][2] == 'values':
        return X
    if canon(v) == ('nt',) or v == nt:
        return N
    if v[0] == 'const' and isinstance(v[1], (int, float)):
        return sympy.nsimplify(v[1])
    if v[0] == 'neg':
        return -formula(v[1], nt)
    if v[0] == 'op' and v[1] in ('Add', 'Sub', 'Mult', 'Div', 'Pow'):
        a, b = formula(v[2], nt), formula(v[3], nt)
        return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'Div': lambda: a / b, 'Pow': lambda: a ** b}[v[1]]()
    if v[0] == 'call' and isinstance(v[1], tuple):
        n = name_of(v[1]) or ''
        a = v[2]
        if n.endswith('.exp') and len(a) == 1:
            return sympy.exp(formula(a[0], nt))
        if n.endswith('expit') and len(a) == 1:
            return 1 / (1 + sympy.exp(-formula(a[0], nt)))
        if n.endswith('tanh') and len(a) == 1:
            x = formula(a[0], nt)
            return (sympy.exp(x) - sympy.exp(-x)) / (sympy.exp(x) + sympy.exp(-x))
        two = {'np.add': 'Add', 'np.subtract': 'Sub', 'np.multiply': 'Mult', 'np.divide': 'Div', 'np.true_divide': 'Div'}.get(n)
        if two and len(a) == 2:
            return formula(('op', two) + tuple(a), nt)
    raise Unread


def columns(v, nt):
    """The formulas of the two columns."""
    v = strip(v)
    if v[0] == 'op' and v[1] in ('Div', 'Mult', 'Add', 'Sub'):
        try:
            b = formula(v[3], nt)
            return tuple({'Div': c / b, 'Mult': c * b, 'Add': c + b, 'Sub': c - b}[v[1]] for c in columns(v[2], nt))
        except Unread:
            if v[1] != 'Mult':
                raise
        b = formula(v[2], nt)
        return tuple(c * b for c in columns(v[3], nt))
    if v[0] == 'call' and isinstance(v[1], tuple):
        n = name_of(v[1]) or ''
        if n in ('np.concatenate', 'np.hstack', 'np.column_stack') and len(v[2]) >= 1 and v[2][0][0] in ('list', 'tuple') and len(v[2][0]) == 3:
            ax = dict(v[3]).get('axis', v[2][1] if len(v[2]) > 1 else None)
            if n != 'np.concatenate' or ax in (('const', 1), ('const', -1)):
                return tuple(formula(x, nt) for x in v[2][0][1:])
        if n in ('np.divide', 'np.true_divide', 'np.multiply') and len(v[2]) == 2:
            return columns(('op', 'Mult' if 'mult' in n else 'Div') + tuple(v[2]), nt)
    raise Unread


def built(env, r, cls):
    """names -> does the constructor make the two-class leaf values, for one output"""
    made = {}
    for names in BOOSTED + OTHERS:
        for one in (True, False):
            f, st = constructed(env, cls, Ask(names, one))
            if st is None:
                r.notes.append('class-shares: the constructor is not read for %s' % names[0])
                continue
            v = st.attrs.get((SELF, 'values_binary'))
            made[names, one] = v is not None
            want = names in BOOSTED and one
            if v is not None and v[0] in ('phi', 'havoc', 'opaque', 'unset'):
                r.notes.append('class-shares: the two-class leaf values of %s are not read' % names[0])
                continue
            r.ob('class-shares', 'two-class leaf values of %s with %s' % (names[0], 'one output' if one else 'one output per class'), f.loc(),
                 (v is not None) == want, '' if (v is not None) == want else 'they are %smade' % ('' if v is not None else 'not '))
            if v is None or not want:
                continue
            tr = st.attrs.get((SELF, 'trees'))
            if v[0] != 'fill' or tr is None:
                r.notes.append('class-shares: the two-class leaf values of %s are not read' % names[0])
                continue
            base, s, n, idx, val = v[1:6]
            count = tr[2] if tr[0] == 'map' else ('call', ('name', 'len'), (tr,), ())
            try:
                a = columns(trees_named(val, tr), count)
                if has(val, s) is False:
                    raise Unread
            except Unread:
                r.notes.append('class-shares: the two-class leaf values of %s are not written in a form the rule reads' % names[0])
                continue
            p = 1 / (1 + sympy.exp(-X))
            for k, (g, w) in enumerate(zip(a, ((1 - p) / N, p / N))):
                d = sympy.simplify(sympy.together((g - w).rewrite(sympy.exp)))
                ok = d == 0
                if not ok and d.free_symbols and all(abs(complex(d.subs({X: x, N: 3}).evalf())) < 1e-12 for x in (sympy.Rational(-13, 7), sympy.Rational(1, 5), 2)):
                    ok = True
                r.ob('class-shares', 'column %d of the two-class leaf values of %s' % (k, names[0]), f.loc(), ok,
                     '' if ok else 'it is %s, it should be %s' % (g, w))
            r.ob('class-shares', 'trees with two-class leaf values for %s' % names[0], f.loc(), n == count and idx[0] == s,
                 '' if n == count and idx[0] == s else 'the values of %s trees are set at %s' % (show(n), show(idx[0])))
            T = ('T', s)
            i1 = canon(trees_named(idx[1], tr)) if len(idx) > 1 else None
            if i1 is not None and i1[0] == 'slice':
                whole = i1 == ('slice', ('const', None), ('nodes', s), ('const', None))
                r.ob('class-shares', 'nodes with two-class leaf values for %s' % names[0], f.loc(), whole, '' if whole else 'they are %s' % show(i1))
    return made


def values_of(v):
    v = strip(v)
    if v == ('attr', SELF, 'values_binary'):
        return True
    if v == ('attr', SELF, 'values'):
        return False
    return None


def check(env, r):
    cls = env.ctx.cls('BaseTree')
    made = built(env, r, cls)
    for f in env.ctx.fns:
        if f.cls is None or f.native or cls not in env.ctx.mro(f.cls) or f.name == '__init__':
            continue
        for names in BOOSTED + OTHERS:
            for one in (True, False):
                if (names, one) not in made:
                    continue
                calls = []

                def called(cf, m, node, fn, st):
                    if cf is not None and cf.native and 'values' in m and '_clf' in cf.name:
                        calls.append((cf, m['values'], node))
                Build(env, Ask(names, one), lambda fn, g: g.cls is not None and g.cls is fn.cls, called).run(f)
                if not calls:
                    continue
                r.unit(f)
                for cf, v, node in calls:
                    got = values_of(v)
                    if got is None:
                        r.notes.append('class-shares: leaf values given to %s by %s are not read' % (cf.name, f.qual))
                        continue
                    want = made[names, one]
                    r.ob('class-shares', 'leaf values given to %s by %s for %s with %s' % (cf.name, f.name, names[0], 'one output' if one else 'one output per class'),
                         f.loc(node), got == want, '' if got == want else ('the values of the trees are given, not the two-class ones' if want else 'the two-class values are given, which this model does not have'))
