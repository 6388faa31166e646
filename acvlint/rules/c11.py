"""Fitting again replaces what was fitted before. Methods are composed: an explainer holding results of an earlier fit
(marked values) is fitted again, then asked; nothing marked may reach a native kernel or the global rules."""
from ..vn import VN, State, alts, subs, show
from ..wrappers import SCENARIOS, cname, nfeat, public_methods, strip
from .c10 import family

SELF = ('param', 'self')
OLD = ('opaque', 'from the fit before')
FOREST = ('ACXplainer', 'd')
RULES = ('rules', 'rules_ori', 'rules_s_star', 'rules_s_star_ori', 'rules_output', 'rules_output_proba', 'rules_coverage', 'rules_acc', 'rules_var')


def mark(attrs):
    return State({}, {(SELF, a): OLD for a in attrs})


def stale(v):
    return any(x == OLD for x in subs(v))


def check(env, r):
    c = env.ctx.cls('ACXplainer')
    fit = env.ctx.method(c, 'fit')
    start = mark(FOREST)
    start.attrs[(SELF, 'check_is_explain')] = ('const', True)
    _, st = VN(env, None, family(env, fit)).run(fit, None, start)
    r.unit(fit)
    fx = st.attrs.get((SELF, 'd'))
    r.ob('width-of-fit', fit.qual + '/d', fit.loc(), fx is not None and all(nfeat(x) is not None and strip(nfeat(x)) == ('param', 'X') or x[0] == 'call' and cname(x) == 'len' for x in alts(fx)),
         'after fit the number of features kept is %s, not that of the training data' % (show(fx)[:100] if fx else 'unset'))
    trained = any(t[0] == 'call' and cname(t) == 'fit' and t[1][0] == 'attr' and t[1][1] == ('attr', SELF, 'model') for t in st.trace)
    r.ob('width-of-fit', fit.qual + '/model', fit.loc(), trained, 'fit does not (always) train the model')
    for f in public_methods(env):
        if f.cls.name != 'ACXplainer' or f.name in ('__init__', 'fit') or not f.params or f.params[0] != 'self':
            continue
        for sc in SCENARIOS[:3]:
            def decide(v, sc=sc):
                return None if v == ('attr', SELF, 'd') else sc.decide(v)

            def seen(cf, m, node, fn, s, f=f, sc=sc):
                if cf is None or not cf.native:
                    return
                used = [p for p, v in m.items() if v is not None and (stale(v) or any(x == ('attr', SELF, 'ACXplainer') for x in subs(v)))]
                tree = [p for p in m if p in ('features', 'thresholds', 'children_left', 'children_right', 'max_depth')]
                if not tree:
                    return
                r.unit(f)
                r.ob('arrays-of-this-fit', '%s->%s' % (f.qual, cf.qual), fn.loc(node), not used,
                     'after a second fit the kernel still gets %s of the forest of the first' % ', '.join(used))
            VN(env, decide, family(env, f), seen).run(f, None, st)
    # asked twice without a fit in between: the arrays built by the first request are those of the model
    prep = env.ctx.method(c, 'check_is_explainer')
    if prep is not None:
        start = mark(())
        start.attrs[(SELF, 'check_is_explain')] = ('const', False)
        _, s2 = VN(env, None, family(env, prep)).run(prep, None, start)
        v = s2.attrs.get((SELF, 'ACXplainer')) if s2 else None
        r.unit(prep)
        ok = v is not None and all(x[0] == 'call' and any(y == ('attr', SELF, 'model') for y in subs(x)) for x in alts(v))
        r.ob('arrays-of-this-fit', prep.qual + '/builds', prep.loc(), ok, 'on first use the forest arrays are %s, not built from the model' % (show(v)[:80] if v else 'not built'))
    # global rules
    fg = env.ctx.method(c, 'fit_global_rules')
    for clf in (True, False):
        def decide(v, clf=clf):
            return clf if v == ('attr', SELF, 'classifier') else True if v == ('attr', SELF, 'check_is_globalrule') else None
        _, sg = VN(env, decide, family(env, fg)).run(fg, None, mark(RULES))
        r.unit(fg)
        g = sg.attrs.get((SELF, 'check_is_globalrule'))
        r.ob('rules-of-this-fit', '%s/flag' % fg.qual, fg.loc(), g == ('const', True), 'fit_global_rules does not mark the rules as fitted')
        for f in public_methods(env):
            if f.cls.name != 'ACXplainer' or f.name in ('__init__', 'fit', 'fit_global_rules') or not f.params or f.params[0] != 'self':
                continue
            hits = []

            def seen(cf, m, node, fn, s):
                vals = list(m.items()) if cf is not None else list(enumerate(m[2])) + list(m[3])
                got = [(p, v) for p, v in vals if v is not None and v != SELF]
                if cf is not None and cf.name.startswith('global_rules_model'):
                    hits.append((fn, node, cf, got))
            VN(env, decide, lambda fn, g: g.cls is not None and g.cls.name == 'ACXplainer' and g.name != '__init__').run(f, None, sg)
            VN(env, decide, lambda fn, g: g.cls is not None and g.cls.name == 'ACXplainer' and g.name != '__init__', seen).run(f, None, sg)
            for fn, node, cf, got in hits:
                r.unit(f)
                bad = [p for p, v in got if stale(v) or any(x[0] == 'attr' and x[1] == SELF and x[2] in RULES for x in subs(v))]
                r.ob('rules-of-this-fit', '%s->%s/%s' % (f.qual, cf.name, 'classification' if clf else 'regression'), fn.loc(node), not bad,
                     'after fitting the rules again, %s still holds what was fitted before' % ', '.join(map(str, bad)))
    r.floor('arrays-of-this-fit', 50)
    r.floor('rules-of-this-fit', 5)
    r.floor('width-of-fit', 2)
