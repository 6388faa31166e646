"""Nothing unvalidated reaches native code. The kernels read samples, targets, coalitions and intervals by row without
bounds checks. For every public operation of ACXplainer and for the Shapley and classifier operations of ACVTree, each
scenario (task, interval given or not) is value-numbered: at the native call, samples and background come out of
check_X_y/check_array, targets were compared in length with their samples, and everything indexed by sample (coalitions,
intervals, bounds, conditions) has as many rows as the samples by construction or by a check that ran before."""
from ..vn import alts, show, subs
from ..wrappers import all_native_calls, checked, strip, cname, nfeat

TREE = {'shap_values', 'shap_values_acv', 'shap_values_acv_adap', 'importance_sdp_clf', 'importance_sdp_clf_greedy',
        'importance_sdp_clf_search', 'importance_sdp_clf_nopa', 'compute_sdp_clf', 'compute_sdp_clf_cat',
        'compute_sdp_clf_nopa', 'compute_sdp_clf_cat_nopa', 'shap_values_nopa', 'shap_values_acv_nopa',
        'shap_values_acv_adap_nopa'}
SAMPLES = {'X': 'X', 'data': 'data'}
TARGETS = {'y_X': 'X', 'y_data': 'data'}
ROWS = ('S', 't', 'down', 'up', 'DOWN', 'UP', 'cond', 'S_star', 'N_star')


def per_sample(k, p):
    """Is parameter p of the kernel indexed by sample."""
    t = k.ctypes.get(p, '').replace(' ', '')
    if p in ('S', 'S_star', 'N_star'):
        return t.startswith('vector[vector') or t.startswith(('long[:,', 'constlong[:,'))
    if p in ('t', 'cond', 'down', 'up', 'DOWN', 'UP'):
        return '[:' in t
    return False


def rows_of(v):
    """The value whose number of rows v has by construction, or None."""
    v = strip(v)
    if v[0] == 'call':
        n = cname(v)
        if n in ('zeros', 'ones', 'empty', 'full') and (v[2] or v[3]):
            sh = v[2][0] if v[2] else dict(v[3]).get('shape')
            if sh is not None and sh[0] in ('tuple', 'list') and len(sh) > 1:
                sh = sh[1]
            return shape0(sh)
        if n in ('zeros_like', 'ones_like', 'empty_like') and v[2]:
            return strip(v[2][0])
        if n in ('predict_quantiles', 'predict', 'predict_proba'):
            a = v[2][0] if v[2] else dict(v[3]).get('X')
            return strip(a) if a is not None else None
    if v[0] == 'param':
        return v
    return None


def shape0(v):
    if v is None:
        return None
    if v[0] == 'idx' and v[1][0] == 'attr' and v[1][2] == 'shape' and v[2] == ('const', 0):
        return strip(v[1][1])
    if v[0] == 'call' and cname(v) == 'len' and v[2]:
        return strip(v[2][0])
    return None


def consistent(trace, a, b):
    """A length check of a against b ran (directly, or within check_X_y)."""
    groups = []
    for c in trace:
        if c[0] != 'call':
            continue
        n = cname(c)
        if n == 'check_consistent_length':
            groups.append({strip(x) for y in c[2] for x in ([y] if y[0] != 'star' else list(subs(y)))})
        elif n == 'check_X_y' and len(c[2]) >= 2:
            groups.append({strip(c[2][0]), strip(c[2][1])})
    # transitively
    have = {a}
    ch = True
    while ch:
        ch = False
        for g in groups:
            if g & have and not g <= have:
                have |= g
                ch = True
    return b in have


def check(env, r):
    for f, sc, k, m, node, trace, fn in all_native_calls(env):
        if not (f.cls.name == 'ACXplainer' or f.cls.name == 'ACVTree' and f.name in TREE):
            continue
        r.unit(f)
        con = '%s->%s' % (f.qual, k.qual)
        for p, v in m.items():
            if p in SAMPLES:
                if v == ('attr', ('param', 'self'), 'data'):
                    continue        # validated by the constructor (next rule)
                for a in alts(v):
                    c = checked(a)
                    r.ob('samples-validated', '%s(%s)' % (con, p), fn.loc(node), c is not None and c[0] == '2d',
                         '%s: the native kernel is handed %s, which did not go through check_array or check_X_y' % (sc, show(a)[:120]))
            elif p in TARGETS and f.cls.name == 'ACXplainer':
                mate = m.get(TARGETS[p])
                for a in alts(v):
                    c = checked(a)
                    ok = c is not None and c[0] == '1d' and (c[1] == strip(mate) or consistent(trace, strip(a), strip(mate)))
                    r.ob('targets-validated', '%s(%s)' % (con, p), fn.loc(node), ok,
                         '%s: the targets %s were not checked against the rows of %s' % (sc, show(a)[:120], show(strip(mate))))
            elif p in ROWS and per_sample(k, p) and 'X' in m:
                if p in ('S_star', 'N_star') and f.cls.name != 'ACXplainer' and p == 'N_star':
                    continue
                x = strip(m['X'])
                for a in alts(v):
                    s = strip(a)
                    ok = rows_of(a) == x or consistent(trace, x, s)
                    r.ob('rows-match', '%s(%s)' % (con, p), fn.loc(node), ok,
                         '%s: %s is read by sample, but nothing makes its length that of %s' % (sc, show(s)[:120], show(x)))
    c = env.ctx.cls('BaseTree')
    init = env.ctx.method(c, '__init__')
    from ..vn import VN
    val = []
    VN(env, None, lambda a, b: False).run(init)
    vn = VN(env, None, lambda a, b: False)
    _, st = vn.run(init)
    v = st.attrs.get((('param', 'self'), 'data'))
    if v is not None:
        r.ob('samples-validated', init.qual + '/self.data', init.loc(), all(checked(a) == ('2d',) for a in alts(v)),
             'the background of a tree explainer is %s: not validated' % show(v)[:120])
    r.floor('samples-validated', 150)
    r.floor('targets-validated', 120)
    r.floor('rows-match', 110)
