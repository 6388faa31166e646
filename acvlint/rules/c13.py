"""Options reach the computation. For every resolved call between two functions of the repository that both take an option
of the same name (table OPTIONS: thresholds, sizes, targets, backgrounds, coalitions, search settings), the value bound to
the callee's option is computed from the caller's option (followed through local variables), the option is not left to the
callee's default, and no other option takes its place. A constructor stores each option under its own name and hands it on
under its own name. Every documented option of the public methods (table LIVE) reaches a use that is not itself an unused
parameter."""
import ast

from ..ctx import walk_own

# name -> class of options (options of one class denote the same thing)
OPTIONS = {}
for names in (('min_node_size',), ('classifier',), ('t', 'threshold'), ('C',), ('pi_level', 'pi'), ('minimal',), ('stop', 'stopping'),
              ('search_space', 'r_search_space'), ('quantile',), ('S',), ('data',), ('y_data',), ('y_X', 'y'), ('down',), ('up',),
              ('cond',), ('acc_level',), ('p_best',), ('n_try',), ('batch',), ('max_iter',), ('temp',),
              ('max_iter_convergence',), ('S_star', 's_star'), ('N_star', 'n_star'), ('S_bar_set',), ('x_train',),
              ('y_train',), ('y_target',), ('w',), ('fX',), ('tX',), ('y_pred',), ('scaling',), ('thresholds',),
              ('features',), ('children_left',), ('children_right',), ('max_depth',), ('values',),
              ('partition_leaves_trees',), ('leaf_idx_trees',), ('leaves_nb',), ('max_var',), ('node_idx_trees',),
              ('decay',), ('proba',), ('algo2',), ('min_cov',), ('min_acc',), ('min_reg',), ('coverage',), ('X',),
              ('s_star_all',), ('data_bground',), ('rules',), ('rules_data',), ('sdp_all',), ('min_samples',), ('sdp_proba',)):
    for n in names:
        OPTIONS[n] = names[0]
# structural recursion and model predictions take other data on purpose
SAME_ONLY = {'X', 'data', 'y_X', 'rules', 'rules_data', 'sdp_all', 'cond', 't', 'w', 'data_bground', 'S'}
# names that mean something else in these functions
NOT_OPTION = {('utils:weighted_percentile', 'w'), ('utils:weighted_percentile', 'data')}


def taint(f):
    """name -> set of parameters it is computed from (flow-insensitive)."""
    deps = {p: {p} for p in f.params + f.kwonly}
    uses = {}
    for n in walk_own(f.node):
        pairs = []
        if isinstance(n, ast.Assign):
            pairs = [(t, n.value) for t in n.targets]
        elif isinstance(n, ast.AugAssign):
            pairs = [(n.target, n.value)]
        elif isinstance(n, (ast.For, ast.comprehension)):
            pairs = [(n.target, n.iter)]
        elif isinstance(n, ast.AnnAssign) and n.value is not None:
            pairs = [(n.target, n.value)]
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                n.func.attr in ('append', 'push_back', 'insert', 'extend', 'add', 'update'):
            pairs = [(n.func.value, a) for a in n.args]
        for t, v in pairs:
            names = {x.id for x in ast.walk(v) if isinstance(x, ast.Name)} | \
                {'self.' + x.attr for x in ast.walk(v) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == f.selfname}
            tg = t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]
            for x in tg:
                while isinstance(x, (ast.Subscript, ast.Starred)):
                    x = x.value
                if isinstance(x, ast.Name):
                    uses.setdefault(x.id, set()).update(names)
                elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == f.selfname:
                    uses.setdefault('self.' + x.attr, set()).update(names)
    changed = True
    while changed:
        changed = False
        for k, vs in uses.items():
            cur = deps.setdefault(k, set())
            for v in vs:
                d = deps.get(v, set())
                if not d <= cur:
                    cur |= d
                    changed = True
    return deps


def expr_deps(a, deps, f):
    out = set()
    for x in ast.walk(a):
        if isinstance(x, ast.Name):
            out |= deps.get(x.id, set())
        elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == f.selfname:
            out |= deps.get('self.' + x.attr, set())
    return out


def check(env, r):
    ctx, res = env.ctx, env.res
    for f in ctx.fns:
        own = {}
        for p in f.params + f.kwonly:
            if p in OPTIONS:
                own.setdefault(OPTIONS[p], p)
        if f.name == '__init__':
            constructor(env, r, f)
        if not own:
            continue
        r.unit(f)
        deps = None
        cnt = {}
        calls = [n for n in walk_own(f.node) if isinstance(n, ast.Call)]
        for n in calls:
            c = res.callee(f, n)
            if not c or c[0] is f:
                continue
            g = c[0]
            m, problems, exact = res.bind(g, c[1], n)
            gp = g.params[1:] if c[1] else g.params
            if problems or not exact:
                continue
            for p in list(gp) + g.kwonly:
                k = OPTIONS.get(p)
                if k is None or (g.qual, p) in NOT_OPTION or (f.qual, own.get(k)) in NOT_OPTION:
                    continue
                if deps is None:
                    deps = taint(f)
                a = m.get(p)
                cnt[(g.qual, p)] = cnt.get((g.qual, p), 0) + 1
                con = '%s->%s(%s)%s' % (f.qual, g.qual, p, '' if cnt[(g.qual, p)] == 1 else '#%d' % cnt[(g.qual, p)])
                if k in own:
                    if a is None:
                        if p in live_params(env, g):
                            r.ob('forwarded', con, f.loc(n), False, 'the option %s is not handed to %s, which falls back on '
                                 'its default' % (own[k], g.qual))
                        continue
                    d = expr_deps(a, deps, f)
                    if own[k] in d:
                        other = direct_other(a, f, k, own)
                        r.ob('forwarded', con, f.loc(n), other is None,
                             'the option %s of %s receives %s' % (p, g.qual, other))
                    elif k in SAME_ONLY and not same_kind(f, g):
                        continue
                    elif k in SAME_ONLY and d:
                        # another array of the caller on purpose, unless it belongs to an option of its own
                        other = direct_other(a, f, k, own)
                        if other is not None and OPTIONS.get(other) in {OPTIONS.get(q) for q in gp}:
                            r.ob('forwarded', con, f.loc(n), False, 'the option %s of %s receives %s' % (p, g.qual, other))
                    else:
                        r.ob('forwarded', con, f.loc(n), False, 'the option %s of %s is computed from `%s`, not from %s' %
                             (p, g.qual, ast.unparse(a)[:60], own[k]))
                elif a is not None:
                    # some other option of the caller in its place, when the callee has that option as well
                    other = direct_other(a, f, k, own)
                    if other is not None and OPTIONS.get(other) in {OPTIONS.get(q) for q in gp}:
                        r.ob('forwarded', con, f.loc(n), False, 'the option %s of %s receives %s' % (p, g.qual, other))
    live(env, r)
    r.floor('forwarded', 500)
    r.floor('stored', 20)
    r.floor('reaches-a-use', 150)


def same_kind(f, g):
    return g.native or f.native


def direct_other(a, f, k, own):
    """The argument is just another option of the caller."""
    if isinstance(a, ast.Name) and a.id in f.params and a.id in OPTIONS and OPTIONS[a.id] != k and k in own:
        return a.id
    if isinstance(a, ast.Name) and a.id in f.params and a.id in OPTIONS and OPTIONS[a.id] != k and k not in own:
        return a.id
    return None


def constructor(env, r, f):
    """self.p = <from p>; Model(p=self.p)."""
    s = f.selfname
    deps = taint(f)
    params = [p for p in f.params if p != s]
    for n in walk_own(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1:
            t = n.targets[0]
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == s and t.attr in params:
                d = {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name) and x.id in params}
                if d and not isinstance(n.value, ast.Constant):
                    r.ob('stored', '%s/self.%s' % (f.qual, t.attr), f.loc(n), t.attr in d,
                         'self.%s is set from %s, not from the option of its name' % (t.attr, ', '.join(sorted(d))))
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg in params and isinstance(k.value, ast.Attribute) and isinstance(k.value.value, ast.Name) and \
                        k.value.value.id == s and k.value.attr in params:
                    fn = ast.unparse(n.func)
                    r.ob('stored', '%s/%s(%s)' % (f.qual, fn, k.arg), f.loc(n), k.value.attr == k.arg,
                         '%s=self.%s' % (k.arg, k.value.attr))
    if any(isinstance(n, ast.Call) and any(k.arg in params for k in n.keywords) for n in walk_own(f.node)):
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and sum(1 for k in n.keywords if k.arg in params) >= 8:
                fn = ast.unparse(n.func)
                for p in params:
                    if p in ('classifier', 'quantiles', 'self'):
                        continue
                    r.ob('stored', '%s/%s:%s' % (f.qual, fn, p), f.loc(n), p in [k.arg for k in n.keywords],
                         'the option %s is not handed to %s' % (p, fn))


# ------------------------------------------------------------------ live options
def live_params(env, fn=None):
    c = getattr(env, '_live', None)
    if c is None:
        c = env._live = compute_live(env)
    return c.get(fn, set()) if fn is not None else c


def compute_live(env):
    """Parameters with a use other than being handed to an unused parameter (greatest fixpoint from below)."""
    ctx, res = env.ctx, env.res
    edges, livep = {}, {}
    for f in ctx.fns:
        names = set(f.params + f.kwonly)
        passed = {}                     # id(Name node) -> (callee, param)
        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                c = res.callee(f, n)
                if c:
                    m, pr, ex = res.bind(c[0], c[1], n)
                    for p, a in m.items():
                        if isinstance(a, ast.Name) and a.id in names:
                            passed[id(a)] = (c[0], p)
        lv = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names:
                if id(n) in passed:
                    edges.setdefault((f, n.id), set()).add(passed[id(n)])
                else:
                    lv.add(n.id)
        livep[f] = lv
    changed = True
    while changed:
        changed = False
        for (f, p), tg in edges.items():
            if p not in livep[f] and any(q in livep.get(g, ()) for g, q in tg):
                livep[f].add(p)
                changed = True
    return livep


LIVE_CLASSES = ('ACXplainer', 'ACVTree', 'ACVTreeAgnostic', 'CR', 'BaseTree', 'BaseAgnosTree')
# documented as unused, deprecated or only for another class of models; or without effect on the reference tree
DEAD_OK = {'num_threads', 'quantiles', 'algo2', 'rdm_size', 'verbose', 'N', 'max_obs', 'model', 'scaling', 'weight_samples', 'tX',
           'data_missing', 'data_dim'}
DEAD_FN = {('compute_exp_rf', 't'), ('compute_quantile_rf', 't'), ('compute_quantile_diff_rf', 't'),
           ('compute_cdf_rf', 'classifier'), ('compute_quantile_rf', 'classifier'), ('compute_quantile_diff_rf', 'classifier'),
           ('compute_sdp_rule_biased', 'classifier'), ('compute_sdp_rule_biased', 't'),
           ('compute_sdp_maxrules_biased', 'classifier'), ('compute_sdp_maxrules_biased', 't'),
           ('compute_sdp_maxrules_biased', 'y_data'),
           # estimates for a given subset: no level is searched for
           ('compute_ddp_weights', 'pi_level'), ('compute_cdp_cond_weights', 'pi_level'), ('compute_cdp_weights', 'pi_level'),
           ('compute_ddp_cond_weights', 'pi_level'), ('compute_ddp_intv_weights', 'pi_level'),
           ('compute_ddp_intv_same', 'pi_level'), ('compute_cdp_intv_weights', 'pi_level'), ('compute_cdp_intv_same', 'pi_level'),
           ('compute_cdf_rf', 'y'), ('compute_exp_rf', 'y'), ('compute_quantile_rf', 'y')}


def live(env, r):
    lp = live_params(env)
    for f in env.ctx.fns:
        if f.native or not f.cls or f.cls.name not in LIVE_CLASSES or f.name.startswith('py_'):
            continue
        body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if all(isinstance(s, (ast.Pass, ast.Raise)) for s in body):
            continue
        for p in f.params + f.kwonly:
            if p == f.selfname or p in DEAD_OK or (f.name, p) in DEAD_FN:
                continue
            r.ob('reaches-a-use', '%s(%s)' % (f.qual, p), f.loc(), p in lp[f],
                 'the option %s has no effect: nothing but unused parameters receives it' % p)
