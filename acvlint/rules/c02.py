"""Projected forest walks. For every native function that owns a loop over the trees and follows children tables
(helpers inlined), the guarded facts of one step are extracted and compared, by enumerating all orderings of the values
involved, with what a projected tree does: at a node on a variable of S go left iff x <= threshold and right otherwise;
at any other node follow both children (or, for the conditional walks, the side the condition interval lies on);
background samples on the other side are dropped and only those; the reported region is tightened by the threshold on
the side taken, never widened and never touched when both children are followed; every tree starts at the root with all
samples."""
import ast

from ..ctx import AnalysisError
from ..norm import AND, OR, NOT, TRUE, FALSE, show, subst, subterms, to_poly, mentions
from ..walks import (walk_roots, refs, Vocab, decide, spec_sides, is_idx, IN, T, F, NODE, D_, P0, P1, VALID, ORD, X,
                     C0, C1, membership)


def family(wf):
    ps = wf.root.params
    if any('cond' in p for p in ps):
        return 'intv' if 'intv' in wf.root.name else 'cond'
    return 'base'


def written_names(w):
    out = set()
    for e in w.events:
        if e.kind == 'assign' and is_idx(e.target) and e.target[1][0] == 'n':
            out.add(e.target[1][1])
    return out


def short(x):
    return x if len(x) < 400 else x[:400] + '...'


def check(env, r):
    roots = walk_roots(env)
    for wf in roots:
        walk_rule(env, r, wf)
    r.floor('left-child', 15)
    r.floor('keeps-samples', 13)
    r.floor('tightens-region', 6)


def walk_rule(env, r, wf):
    fn, w = wf.root, wf.w
    r.unit(fn)
    fam = family(wf)
    spL, spR = spec_sides(fam)
    onlyL, onlyR = AND(spL, NOT(spR)), AND(spR, NOT(spL))
    assume = AND(VALID, ORD)
    wr = written_names(w)
    q = fn.qual
    # ---- children followed
    sides = {'CL': [], 'CR': []}
    for e in wf.inserts:
        v = e.value[0]
        b, node = v[2][0], v[2][1]
        voc = Vocab(wf, b, node, (), wr)
        sides[env.role_of(fn, v)].append(voc(wf.g(e)))
    for role, rule, sp in (('CL', 'left-child', spL), ('CR', 'right-child', spR)):
        ok, why = decide(OR(*sides[role]) if sides[role] else FALSE, sp, assume)
        r.ob(rule, q, fn.loc(), ok, '' if ok else 'the %s child is followed under the wrong condition: %s' %
             (rule[:-6], short(str(why))))
    step = wf.inserts[0]
    nodeloops = {l.sym for l in step.loops}
    tree_i = [l.sym for l in step.loops].index(wf.b)
    levels = step.loops[tree_i + 1:]
    # every node of the level is visited and the levels advance
    r.ob('root-start', q, fn.loc(), root_start(env, wf), 'the walk of a tree does not start at its root (node 0)')
    r.ob('advances', q, fn.loc(), advances(env, wf, levels), 'the children found at one level are not the nodes of the next')
    # ---- samples kept
    keep_facts(env, r, wf, fam, spL, spR, onlyL, onlyR, assume, wr, levels)
    # ---- region
    tighten(env, r, wf, onlyL, onlyR, assume, wr)


def root_start(env, wf):
    """Inside the tree loop and before the level loop, some node list receives 0 after being emptied."""
    ins0 = wf.inserts[0]
    depth = [l.sym for l in ins0.loops].index(wf.b) + 1
    reset, started = set(), False
    for e in wf.w.events:
        if e.idx >= ins0.idx:
            break
        if e.kind == 'mutate' and len(e.loops) == depth and e.loops[-1].sym == wf.b:
            if e.op == 'clear':
                reset.add(e.target)
            elif e.op in ('insert', 'push_back', 'append', 'add') and e.value == (('c', 0),) and e.target in reset:
                started = True
        if e.kind == 'assign' and len(e.loops) == depth and e.loops[-1].sym == wf.b and e.value is not None and \
                e.value in (('list', ('c', 0)), ('set', frozenset([('c', 0)]))):
            started = True
        if e.kind == 'assign' and len(e.loops) == depth and e.loops[-1].sym == wf.b and is_idx(e.target) and \
                e.value == ('c', 0):
            started = True
    return started


def advances(env, wf, levels):
    """nodes_level := children, once per level, for the list the node loop ranges over."""
    ins = {e.target for e in wf.inserts}
    for e in wf.w.events:
        if e.kind == 'assign' and e.value in ins and levels and any(l.sym == levels[0].sym for l in e.loops) and \
                e.idx > wf.inserts[0].idx:
            # the target is what the walk iterates over
            for l in levels[1:]:
                if e.target in set(subterms(l.dom)):
                    return True
        if e.kind == 'mutate' and e.op == 'swap' and e.value and levels:
            pair = {e.target, e.value[0]}
            if pair & ins and any((pair - ins) & set(subterms(l.dom)) for l in levels[1:]):
                return True
    return not levels or any(ins & set(subterms(l.dom)) for l in levels)


def sample_loops(wf, e, after):
    return [l for l in e.loops if l.sym not in after]


def keep_facts(env, r, wf, fam, spL, spR, onlyL, onlyR, assume, wr, levels):
    fn, w, q = wf.root, wf.w, wf.root.qual
    outer = {l.sym for l in wf.inserts[0].loops}
    drops, facts = [], []
    for e in w.events:
        if e.idx < wf.inserts[0].idx and not any(l.sym == wf.b for l in e.loops):
            continue
        inner = [l.sym for l in e.loops if l.sym not in outer]
        if not inner or not any(l.sym == wf.b for l in e.loops):
            continue
        if e.kind == 'mutate' and e.op in ('erase', 'remove', 'discard') and e.value:
            drops.append((e, e.target, e.value[-1]))
        elif e.kind == 'expr' and e.target[0] == 'call' and len(e.target[2]) == 3 and \
                e.target[2][0][0] == 'call' and e.target[2][0][1][0] == 'attr' and e.target[2][0][1][2] == 'begin':
            drops.append((e, e.target[2][0][1][1], e.target[2][2]))
        elif e.kind == 'assign' and is_idx(e.target) and e.op is None and refs(env, fn, e.guard) and \
                e.target[2][-1] in inner and e.target[1][0] == 'n':
            facts.append(e)
    if not drops and not facts:
        needs = any(env.roles().get((fn, p)) is None and p == 'data' for p in fn.params)
        if needs:
            r.ob('keeps-samples', q, fn.loc(), False, 'no background sample is ever dropped')
        return
    if drops:
        alts, targets = [], set()
        for e, tgt, sample in drops:
            g = wf.g(e)
            rf = refs(env, fn, g)
            if len(rf) != 1:
                r.ob('keeps-samples', q, e.loc(), False, 'samples are dropped under a condition on %d different nodes' % len(rf))
                return
            (b, node), = rf
            voc = Vocab(wf, b, node, (sample,), wr)
            alts.append(voc(g))
            targets.add(tgt)
        want = OR(AND(onlyL, ('lt', T, D_)), AND(onlyR, ('le', D_, T)))
        ok, why = decide(OR(*alts), want, assume)
        r.ob('keeps-samples', q, drops[0][0].loc(), ok, '' if ok else
             'the wrong background samples are dropped: %s' % short(str(why)))
        survivors(env, r, wf, drops, targets, levels)
    else:
        # mask form: new[i] = old[i] * (condition)
        ok_all = True
        L, R, both = [], [], []
        for e in facts:
            g = wf.g(e)
            (b, node) = sorted(refs(env, fn, g), key=str)[0]
            i = e.target[2][-1]
            voc = Vocab(wf, b, node, (i,), wr - {e.target[1][1]})
            gg = voc(g)
            conds, rest = [], []
            v = voc(e.value)
            p = to_poly(v)
            if len(p) == 1:
                (m, c), = p.items()
                for a, n in m:
                    (conds if a[0] in ('lt', 'le', 'and', 'or', 'not', 'eq', 'ne') else rest).append(a)
            keep = AND(*conds)
            ok1, _ = decide(AND(gg, onlyL), ('le', D_, T) if False else TRUE, assume, 'implies')
            for only, want in ((onlyL, ('le', D_, T)), (onlyR, ('lt', T, D_))):
                ok, why = decide(AND(gg, only, keep), want, assume, 'implies')
                ok2, why2 = decide(AND(gg, only, want), keep, assume, 'implies')
                if not (ok and ok2):
                    ok_all = False
            ok, why = decide(AND(gg, spL, spR), keep, assume, 'implies')
            ok_all = ok_all and ok
        r.ob('keeps-samples', q, facts[0].loc(), ok_all, '' if ok_all else 'the sample mask keeps the wrong side of a split')


def survivors(env, r, wf, drops, targets, levels):
    """The set that loses the samples is (or is copied, at every step, to) the set that is iterated afterwards; both are
    refilled with every sample for every tree."""
    fn, w, q = wf.root, wf.w, wf.root.qual
    depth = [l.sym for l in wf.inserts[0].loops].index(wf.b) + 1
    copies = {}
    for e in w.events:
        if e.kind == 'assign' and e.value in targets and e.target[0] == 'n':
            copies.setdefault(e.target, []).append(e)
    final = set()
    last = max(e.idx for e, _, _ in drops)
    for e in w.events:
        if e.kind == 'loop' and e.idx > last and len(e.loops) == depth and e.loops[-1].sym == wf.b:
            dom = e.aux.dom
            for t in subterms(dom):
                if t in copies or t in targets:
                    final.add(t)
    if final:
        ok = all(f in targets or f in copies for f in final)
        for f in final:
            if f in targets:
                continue
            # after every drop loop, the copy follows under the same walk condition
            for e, tgt, smp in drops:
                base = [l for l in e.loops if l.sym in {x.sym for x in wf.inserts[0].loops}]
                foll = [c for c in copies[f] if c.idx > e.idx and c.value == tgt and
                        len(c.loops) <= len(base) and any(l.sym == wf.b for l in c.loops)]
                if not foll:
                    ok = False
        r.ob('survivors-used', q, drops[0][0].loc(), ok, 'the samples dropped at a node are not dropped from the set that is averaged')
    else:
        r.ob('survivors-used', q, drops[0][0].loc(), False, 'the averaged set is not the one the walk filters')
    # refill
    first = wf.inserts[0].idx
    need = set(targets) | {f for f in final}
    for t in sorted(need, key=str):
        cleared = filled = False
        for e in w.events:
            if e.idx >= first:
                break
            inb = any(l.sym == wf.b for l in e.loops)
            if not inb or any(l.sym in {x.sym for x in levels} for l in e.loops):
                continue
            if e.kind == 'mutate' and e.target == t and e.op == 'clear':
                cleared, filled = True, False
            elif e.kind == 'mutate' and e.target == t and e.op in ('insert', 'push_back') and \
                    len(e.loops) == depth + 1 and e.loops[-1].kind == 'range' and e.loops[-1].dom[1] == ('c', 0) and \
                    e.value == (e.loops[-1].sym,):
                filled = cleared
            elif e.kind == 'assign' and e.target == t:
                v = e.value
                src = v in need
                if src or (v is not None and v[0] == 'call'):
                    cleared = filled = True
        r.ob('fresh-samples', q, fn.loc(), cleared and filled,
             '' if cleared and filled else '%s is not refilled with every sample before each tree' % show(t))


def tighten(env, r, wf, onlyL, onlyR, assume, wr):
    fn, w, q = wf.root, wf.w, wf.root.qual
    sets = {0: [], 1: []}
    any_ = None
    for e in w.events:
        if e.kind != 'assign' or not is_idx(e.target) or e.target[1][0] != 'n':
            continue
        if not any(l.sym == wf.b for l in e.loops) or e.target[2][-1] not in (('c', 0), ('c', 1)):
            continue
        g = wf.g(e)
        rf = refs(env, fn, g) | refs(env, fn, e.target)
        if len(rf) != 1:
            continue
        (b, node), = rf
        voc = Vocab(wf, b, node, (), wr)
        k = e.target[2][-1][1]
        tv = voc(e.target)
        any_ = e
        if tv not in (P0, P1):
            r.ob('tightens-region', q, e.loc(), False, 'the region of another feature than the split feature is changed')
            return
        v = voc(e.value)
        gg = voc(g)
        P = (P0, P1)[k]
        if v == T:
            sets[k].append(gg)
        elif v[0] == 'call' and v[1][-1] in ('min', 'fmin', 'minimum') and set(v[2]) == {P, T} and k == 1:
            sets[k].append(AND(gg, ('le', T, P)))
        elif v[0] == 'call' and v[1][-1] in ('max', 'fmax', 'maximum') and set(v[2]) == {P, T} and k == 0:
            sets[k].append(AND(gg, ('le', P, T)))
        elif v[0] == 'ite' and {v[2], v[3]} == {P, T}:
            sets[k].append(AND(gg, v[1] if v[2] == T else NOT(v[1])))
        else:
            r.ob('tightens-region', q, e.loc(), False, 'a bound of the region is set to `%s`, not to the threshold' % show(e.value))
            return
    if any_ is None:
        if 'rule' in fn.name or any(p.startswith('partition') for p in fn.params):
            r.ob('tightens-region', q, fn.loc(), False, 'the region of the rule is never tightened')
        return
    for k, only, P, side in ((1, onlyL, P1, 'upper'), (0, onlyR, P0, 'lower')):
        G = OR(*sets[k]) if sets[k] else FALSE
        strict = ('lt', T, P) if k == 1 else ('lt', P, T)
        lax = ('le', T, P) if k == 1 else ('le', P, T)
        a, wa = decide(G, AND(only, lax), assume, 'implies')
        b, wb = decide(AND(only, strict), G, assume, 'implies')
        ok = a and b
        r.ob('tightens-region', q, any_.loc(), ok, '' if ok else 'the %s bound of the region is changed wrongly: %s' %
             (side, short(str(wa or wb))))
