"""Leaf-partition estimators compute what they are defined as.  Every kernel that estimates an expectation or a same-decision
probability from the leaves of the trees (and the probability each coalition search compares) is brought into closed form:
sums over trees, leaves and data of products of quantified leaf-membership conditions, leaf values and reciprocal counts,
by substitution of reaching definitions over the canonical events of the function.  The form must be identical to that of
the definition (acvlint/specs/leaf.py), read by the same analysis.  Kernels without such a form are reported as undecided."""
import ast
import copy

from .. import denote, forms
from ..ctx import Fn
from ..norm import show, skey

# definition -> kernels that must compute it
KERNELS = {
    'compute_exp': ('compute_exp', 'compute_exp_nopa'),
    'compute_exp_normalized': ('compute_exp_normalized',),
    'compute_exp_cat': ('compute_exp_cat', 'compute_exp_cat_nopa'),
    'compute_sdp_clf': ('compute_sdp_clf', 'compute_sdp_clf_nopa'),
    'compute_sdp_clf_cat': ('compute_sdp_clf_cat', 'compute_sdp_clf_cat_nopa'),
    'compute_sdp_reg': ('compute_sdp_reg', 'compute_sdp_reg_nopa'),
    'compute_sdp_reg_cat': ('compute_sdp_reg_cat', 'compute_sdp_reg_cat_nopa'),
    'compute_sdp_swing': ('compute_sdp_swing',),
    'compute_sdp_swing_diff': ('compute_sdp_swing_diff', 'compute_sdp_swing_diff_nopa'),
}
EXTRA = {'scaling', 'num_threads', 'C', 'pi_level', 'minimal', 'stop'}
SEARCHES = {
    'compute_sdp_clf': ('global_sdp_clf', 'global_sdp_clf_nopa', 'global_sdp_clf_approx'),
    'sdp_clf_sums': ('global_sdp_clf_ptrees',),
    'compute_sdp_reg': ('global_sdp_reg', 'global_sdp_reg_nopa'),
}


def check(env, r):
    spec = forms.spec_mod(env, 'leaf')
    fns = {}
    for f in env.native_fns:
        fns.setdefault(f.name, []).append(f)
    undecided = 0
    for name, kernels in KERNELS.items():
        want = None
        for k in kernels:
            for f in fns.get(k, []):
                r.unit(f)
                sf = spec.funcs[name]
                try:
                    got = forms.function_form(env, f, renaming(sf, f))
                    odd = forms.foreign(got)
                    if odd:
                        raise denote.Opaque(odd)
                except denote.Opaque as x:
                    r.notes.append('undecided: %s: %s' % (f.qual, x))
                    undecided += 1
                    continue
                if want is None:
                    want = forms.function_form(env, sf)
                r.ob('equals-definition', f.qual, f.loc(f.node), got == want,
                     'the closed form of %s is not that of its definition (specs/leaf.py:%s): %s'
                     % (f.name, name, forms.difference(got, want)))
    for name, kernels in SEARCHES.items():
        want = None
        for k in kernels:
            for f in fns.get(k, []):
                r.unit(f)
                if want is None:
                    want = ratio_form(env, spec, name)
                try:
                    found = forms.search_forms(env, f, renaming(spec.funcs[name], f, ('S',)))
                except denote.Opaque as x:
                    r.notes.append('undecided: %s: %s' % (f.qual, x))
                    undecided += 1
                    continue
                for e, v, frozen in found:
                    ok, why = same_search(e, v, spec.funcs[name], f, want)
                    if ok is None:
                        r.notes.append('undecided: %s: %s' % (f.qual, why))
                        undecided += 1
                        continue
                    r.ob('search-compares-definition', f.qual, '%s:%d' % (f.mod.rel, getattr(e.node, 'lineno', 0)), ok,
                         'the probability compared for a coalition is not that of the definition %s: %s' % (name, why))
    r.notes.append('%d undecided' % undecided)
    r.floor('equals-definition', 11)
    r.floor('search-compares-definition', 3)


def renaming(sf, f, skip=()):
    """Parameters of the kernel to those of the definition: by name, else by position among those not known by name."""
    mine = [p for p in sf.params if p not in f.params and p not in skip]
    other = [p for p in f.params if p not in sf.params and p not in EXTRA]
    if len(mine) <= len(other):
        return dict(zip(other, mine))
    raise denote.Opaque('parameters %s' % ', '.join(f.params))


def ratio_form(env, spec, name):
    """The definition without its early answers for the empty and the full coalition."""
    sf = spec.funcs[name]
    node = copy.deepcopy(sf.node)
    node.body = [s for s in node.body if not isinstance(s, ast.If)]
    g = Fn(sf.mod, node)
    v = forms.function_form(env, g)
    size = ('idx', ('attr', ('n', 'S'), 'shape'), (('c', 0),))
    return forms.deep(v, lambda e: ('n', 'S_size') if e == size else None)


def same_search(e, v, sf, f, want):
    v = forms.specialise(v, e.loops)
    odd = forms.foreign(v)
    if odd:
        return None, odd
    # the sample: the position written
    i = [l.sym for l in e.loops if forms.has(e.target, l.sym)]
    if len(i) != 1:
        return None, 'writes %s' % show(e.target)
    x = e.target[2][0]
    rows = set()
    forms.deep(v, lambda t: rows.add(t[2][0]) if t[0] == 'idx' and t[1] in (('n', 'X'), ('n', 'fX')) and t[2][0][0] != 'G' else None)
    sample = [y for y in rows if forms.has(y, i[0])]
    if len(sample) != 1 or len(rows) != 1:
        return False, 'it reads the samples %s' % ', '.join(sorted(show(y) for y in rows))
    if x != i[0] and x != sample[0]:
        return False, 'the probability of sample %s is stored for %s' % (show(sample[0]), show(x))
    g = ('G', 0, ('idx', ('attr', ('n', 'X'), 'shape'), (('c', 0),)))
    v = forms.deep(v, lambda t: g if t == sample[0] else None)
    free = sorted(forms.names_in(v) - forms.names_in(want) - {'S', 'S_size'} | (forms.names_in(v) & {'S', 'S_size'}))
    # the coalition and its size
    pairs = [(a, b) for a in free for b in free if a != b]
    if len(free) > 4:
        return None, 'names %s' % ', '.join(free)
    for a, b in pairs:
        u = forms.deep(v, lambda t: ('n', 'S') if t == ('n', a) else ('n', 'S_size') if t == ('n', b) else None)
        if u == want:
            return True, ''
    return False, forms.difference(v, want)
