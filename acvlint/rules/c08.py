"""Explaining does not change what it is given.  Alias and write effects of every function, composed through the calls (native
kernels included): no public operation writes into an argument (nor into a mutable default), and none writes into the arrays
the explainer holds, which it may have been given by its caller too.  Binding an attribute anew is not a write."""
import ast

from ..effects import Effects

OWNERS = ('ACVTree', 'ACVTreeAgnostic', 'ACXplainer', 'BaseTree', 'BaseAgnosTree')
# documented: "the list that will contain the cluster find by SDP"
OUTPUT = {('local_sdp', 'final_coal')}


def check(env, r):
    eff = Effects(env)
    for f in env.ctx.fns:
        if f.cls is None or f.parent is not None or f.native or not f.mod.rel.startswith('acv_explainers'):
            continue
        if f.cls.name not in OWNERS and not any(c.name in OWNERS for c in env.ctx.mro(f.cls)) and 'counterfactual' not in f.mod.rel:
            continue
        if f.name.startswith('_') and f.name != '__init__':
            continue
        r.unit(f)
        w, _ = eff.of(f)
        for p in f.params + f.kwonly:
            if p == f.selfname:
                continue
            x = w.get(p)
            ok = x is None or (x[0].name, p) in OUTPUT
            r.ob('argument-not-written', '%s(%s)' % (f.qual, p), x[0].loc(x[1]) if x else f.loc(), ok,
                 '' if ok else 'the %s given to %s is changed by %s: %s' % (p, f.name, x[0].qual, x[2]))
        held = sorted(a for a in w if a.startswith('self.'))
        r.ob('held-arrays-not-written', f.qual, w[held[0]][0].loc(w[held[0]][1]) if held else f.loc(), not held or f.name == '__init__' or f.name.startswith('fit'),
             '%s changes what the explainer holds: %s in %s' % (f.name, w[held[0]][2], w[held[0]][0].qual) if held else '')
    # the native kernels called with numpy arrays: what they may write
    for f in env.native_fns:
        if not f.visible:
            continue
        r.unit(f)
        w, _ = eff.of(f)
        bad = sorted(p for p in w if p in f.params)
        r.ob('kernel-does-not-write-inputs', f.qual, w[bad[0]][0].loc(w[bad[0]][1]) if bad else f.loc(), not bad,
             'the kernel writes its argument %s: %s' % (bad[0], w[bad[0]][2]) if bad else '')
    rebound(env, r)
    r.floor('argument-not-written', 400)
    r.floor('held-arrays-not-written', 80)
    r.floor('kernel-does-not-write-inputs', 60)


def binds(f):
    """(attribute, node, value) the method binds on its object."""
    for n in ast.walk(f.node):
        ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
        for t in ts:
            for x in ast.walk(t):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == f.selfname:
                    yield x.attr, n, n.value


def rebound(env, r):
    """What building and fitting made is not replaced by explaining."""
    for c in sorted({f.cls for f in env.ctx.fns if f.cls is not None}, key=lambda c: (c.mod.rel, c.name)):
        if c.name not in OWNERS:
            continue
        mine = [f for k in env.ctx.mro(c) for f in k.methods.values() if not f.native]
        makers = {f.name for f in mine if f.name == '__init__' or f.name.startswith('fit')}
        # helpers that only building and fitting call
        while True:
            users = {}
            for f in mine:
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == f.selfname and isinstance(n.ctx, ast.Load):
                        users.setdefault(n.attr, set()).add(f.name)
            more = {f.name for f in mine if f.name not in makers and users.get(f.name) and users[f.name] <= makers and f.name.startswith('_')}
            if not more:
                break
            makers |= more
        held = {a for f in mine if f.name in makers for a, _, v in binds(f) if not isinstance(v, ast.Constant)}
        for f in mine:
            if f.name in makers or f.cls is not c:
                continue
            bad = [(a, n) for a, n, _ in binds(f) if a in held]
            r.ob('held-not-replaced', f.qual, f.loc(bad[0][1]) if bad else f.loc(), not bad, '%s replaces %s, which explanations use' % (f.name, bad[0][0]) if bad else '')
