"""The interval and the task an ACXplainer hands to its kernels. For every public operation, value-numbered for
classification, regression with the interval given and regression without: the kernel gets the classifier flag of the
explainer, the given interval, or else the 5% and 95% quantiles predicted by the fitted model for the very samples that
are explained; and for the same samples, the targets paired with them."""
from ..vn import VN, alts, subs, show
from ..wrappers import all_native_calls, argn, cname, strip

SELF = ('param', 'self')


def flag_ok(v, clf):
    return v == ('attr', SELF, 'classifier') or v[0] == 'const' and v[1] in (0, 1) and bool(v[1]) == clf or \
        v[0] == 'call' and cname(v) in ('int', 'bool') and v[2] and flag_ok(v[2][0], clf)


def quantiles_of(v):
    v = strip(v)
    if v[0] == 'call' and cname(v) == 'predict_quantiles' and v[1][0] == 'attr' and v[1][1] == ('attr', SELF, 'model'):
        return argn(v, 0, 'X'), argn(v, 1, 'quantiles')
    return None


def check(env, r):
    for f, sc, k, m, node, trace, fn in all_native_calls(env):
        if f.cls.name != 'ACXplainer' or sc.d != 9:
            continue
        r.unit(f)
        con = '%s->%s' % (f.qual, k.qual)
        task = 'classification' if sc.clf else 'regression'
        if m.get('classifier') is not None:
            r.ob('task', '%s/%s' % (con, task), fn.loc(node), all(flag_ok(a, sc.clf) for a in alts(m['classifier'])),
                 'for %s the kernel is told classifier = %s' % (task, show(m['classifier'])[:80]))
        for xs, ys in (('X', 'y_X'), ('data', 'y_data')):
            if m.get(xs) is not None and m.get(ys) is not None:
                sx, sy = strip(m[xs]), strip(m[ys])
                ok = sx == ('param', xs) and sy in (('param', 'y' if xs == 'X' else 'y_data'), ('param', ys))
                r.ob('samples-and-targets', '%s(%s)' % (con, xs), fn.loc(node), ok,
                     'the kernel gets the samples %s with the targets %s' % (show(sx)[:80], show(sy)[:80]))
        if sc.clf or m.get('t') is None:
            continue
        for a in alts(m['t']):
            if sc.tnone:
                q = quantiles_of(a)
                ok = q is not None and q[0] is not None and strip(q[0]) == strip(m['X'])
                r.ob('default-interval', con + '/samples', fn.loc(node), ok,
                     'without an interval the kernel gets %s, not the quantiles predicted for the explained samples' % show(strip(a))[:120])
                if q is not None and q[1] is not None:
                    r.ob('default-interval', con + '/levels', fn.loc(node), strip(q[1]) in (('list', ('const', 0.05), ('const', 0.95)), ('tuple', ('const', 0.05), ('const', 0.95))),
                         'the default interval is made of the quantiles %s, not of 0.05 and 0.95 in this order' % show(q[1])[:80])
            else:
                r.ob('given-interval', con, fn.loc(node), strip(a) == ('param', 't'), 'the interval given is replaced by %s' % show(strip(a))[:120])
    init = env.ctx.method(env.ctx.cls('ACXplainer'), '__init__')
    st = VN(env, lambda v: None).run(init)[1]
    v = st.attrs.get((SELF, 'classifier'))
    r.ob('task', init.qual + '/classifier', init.loc(), v is not None and (v == ('param', 'classifier') or v[0] == 'call' and cname(v) in ('int', 'bool') and v[2] == (('param', 'classifier'),)),
         'the explainer keeps %s as its task' % (show(v)[:80] if v else 'nothing'))
    for clf, want in ((True, 'RangerForestClassifier'), (False, 'RangerForestRegressor')):
        def decide(v, clf=clf):
            return clf if v[0] in ('param', 'attr', 'call') and any(x in (('param', 'classifier'), ('attr', SELF, 'classifier')) for x in subs(v)) else None
        st = VN(env, decide).run(init)[1]
        v = st.attrs.get((SELF, 'model'))
        r.ob('task', '%s/model/%s' % (init.qual, 'classification' if clf else 'regression'), init.loc(), v is not None and all(a[0] == 'call' and cname(a) == want for a in alts(v)),
             'the forest made for this task is %s' % (show(v)[:60] if v else 'none'))
        if not clf and v is not None and v[0] == 'call':
            r.ob('task', init.qual + '/model/quantiles', init.loc(), dict(v[3]).get('quantiles') == ('const', True),
                 'the regression forest is made without quantiles, which the default interval needs')
    r.floor('task', 50)
    r.floor('samples-and-targets', 100)
    r.floor('default-interval', 30)
    r.floor('given-interval', 15)
