"""An explainer that was not fitted refuses to answer. Every operation of ACXplainer that uses the forest or its arrays has
run check_is_fitted on the model before; with the global rules unfitted, the methods that use them always raise
(constructor and method composed), and only fitting the rules marks them as fitted."""
from ..vn import VN, State, alts, subs, show
from ..wrappers import all_native_calls, cname, public_methods

RULES = ('rules', 'rules_output', 'rules_output_proba', 'rules_coverage', 'rules_acc', 'rules_s_star')

SELF = ('param', 'self')


def fitted_before(trace):
    for c in trace:
        if c[0] == 'call' and cname(c) == 'check_is_fitted':
            a = c[2][0] if c[2] else dict(c[3]).get('estimator')
            if a is not None and a[0] == 'attr' and a[2] == 'model':
                return True
    return False


def family(env, f):
    fam = env.ctx.mro(f.cls)
    return lambda fn, g: g.cls in fam and g.name != '__init__' or g.cls is None and not g.native and g.mod is fn.mod


def check(env, r):
    init = env.ctx.method(env.ctx.cls('ACXplainer'), '__init__')
    for f, sc, k, m, node, trace, fn in all_native_calls(env):
        if f.cls.name != 'ACXplainer':
            continue
        forest = [x for v in m.values() if v is not None for x in subs(v)
                  if x[0] == 'attr' and x[2] in ('ACXplainer', 'model') or x[0] == 'call' and cname(x) in ('BaseAgnosTree', '__init__')]
        if not forest and not any(p in m for p in ('features', 'thresholds')):
            continue
        r.unit(f)
        r.ob('fitted-before-kernel', '%s->%s' % (f.qual, k.qual), fn.loc(node), fitted_before(trace),
             '%s: the native kernel is handed the arrays of a forest that was never checked to be fitted' % sc)
    for f in public_methods(env):
        if f.cls.name != 'ACXplainer' or f.name == '__init__':
            continue
        # the methods that use the fitted rules
        uses = []

        def reads(cf, v, node, fn, st):
            vals = list(v.values()) if cf is not None else [v]
            for x in vals:
                if x is not None and any(y[0] == 'attr' and y[1] == ('param', 'self') and y[2] in RULES for y in subs(x)):
                    uses.append((fn, node, cf.qual if cf is not None else 'call'))
        VN(env, None, family(env, f), reads).run(f)
        if not uses or f.name.startswith('fit'):
            continue
        r.unit(f)
        for clf in (True, False):
            def decide(v, clf=clf):
                return bool(clf) if v[0] in ('param', 'attr', 'call') and any(x in (('param', 'classifier'), ('attr', SELF, 'classifier')) for x in subs(v)) else None
            _, new = VN(env, decide).run(init)
            out, _ = VN(env, decide, family(env, f)).run(f, None, State({}, new.attrs))
            r.ob('rules-fitted-before-use', '%s/%s' % (f.qual, 'classification' if clf else 'regression'), f.loc(), out is None,
                 'on a new explainer, whose global rules were never fitted, the method can return (%s) instead of raising' % (show(out)[:100] if out else ''))
    for f in public_methods(env):
        if f.cls.name != 'ACXplainer' or f.name in ('__init__', 'fit_global_rules'):
            continue
        _, st = VN(env, None, family(env, f)).run(f)
        v = st.attrs.get((('param', 'self'), 'check_is_globalrule')) if st else None
        if v is not None:
            r.ob('only-fit-marks-fitted', f.qual + '/check_is_globalrule', f.loc(), all(x in (('const', False), ('attr', ('param', 'self'), 'check_is_globalrule')) for x in alts(v)),
                 '%s marks the global rules as fitted' % f.name)
    r.floor('fitted-before-kernel', 80)
    r.floor('rules-fitted-before-use', 4)
