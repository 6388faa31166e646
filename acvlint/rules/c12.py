"""Every call inside the code base can be made: for each call whose target is a function, method or constructor of the
repository (native modules included) the arguments bind to its parameters; every name that is read is defined; every
attribute read from self, from an instance of a repository class or from a repository module exists (assigned somewhere
in the class family, a method, a class attribute, a module member); a method that is reached is not left abstract in every
class that can be instantiated; a function handed to a helper takes the arguments the helper calls it with."""
import ast
import builtins

from ..ctx import Mod, walk_own, dotted
from ..vn import alts
from ..wrappers import all_native_calls, cname

BUILTIN = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__all__', '__path__'}


def family(ctx, c):
    """c, its bases and every class deriving from it."""
    out = list(ctx.mro(c))
    for m in ctx.mods.values():
        for d in m.classes.values():
            if d not in out and c in ctx.mro(d):
                out.append(d)
    return out


def stored_attrs(ctx, c, cache={}):
    key = (id(ctx), c)
    if key in cache:
        return cache[key]
    out = set()
    for x in family(ctx, c):
        out |= set(x.methods)
        for st in x.node.body:
            if isinstance(st, ast.Assign):
                out |= {t.id for t in st.targets if isinstance(t, ast.Name)}
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                out.add(st.target.id)
        for mth in x.methods.values():
            s = mth.selfname
            for n in ast.walk(mth.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) \
                        and n.value.id == s:
                    out.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and n.args:
                    if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        out.add(n.args[1].value)
                    else:
                        out.add('*')
    cache[key] = out
    return out


OBJ = {'__class__', '__dict__', '__doc__', '__module__', '__init__'}


def check(env, r):
    ctx, res = env.ctx, env.res
    ptypes = param_types(env)
    for f in ctx.fns:
        r.unit(f)
        loc = f.loc()
        seen = {}

        def key(what):
            seen[what] = seen.get(what, 0) + 1
            return '%s/%s%s' % (f.qual, what, '' if seen[what] == 1 else '#%d' % seen[what])

        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                c = res.callee(f, n)
                if c:
                    _, problems, exact = res.bind(c[0], c[1], n)
                    r.ob('call-binds', key(c[0].qual), f.loc(n), not problems, '%s %s' % (c[0].qual, '; '.join(problems)))
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and not f.native:
                if res.visible_in(f, n.id) is None and n.id not in BUILTIN:
                    if not resolves(ctx, f, n.id):
                        r.ob('name-defined', key(n.id), f.loc(n), False, 'the name %s is not defined' % n.id)
                    else:
                        r.ob('name-defined', key(n.id), f.loc(n), True)
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and not f.native:
                t = res.type_of(f, n.value)
                ts = [t] if t is not None else sorted(ptypes.get((f, n.value.id), ()), key=lambda c: c.name) \
                    if isinstance(n.value, ast.Name) and n.value.id in f.params else []
                if ts:
                    for t in ts:
                        if ctx.ext_bases(t):
                            continue
                        st = stored_attrs(ctx, t)
                        if '*' in st or n.attr in OBJ:
                            continue
                        r.ob('attribute-exists', key('%s.%s' % (t.name, n.attr)), f.loc(n), n.attr in st,
                             '%s has no attribute %s' % (t.name, n.attr))
                else:
                    b = res.resolve_expr(f, n)
                    if b and b[0] == 'missing':
                        r.ob('attribute-exists', key(b[1]), f.loc(n), False, '%s does not exist' % b[1])
                    elif b and b[0] in ('fn', 'cls', 'var', 'mod'):
                        r.ob('attribute-exists', key(n.attr), f.loc(n), True)
        callbacks(env, r, f, key)
        abstract(env, r, f, key)
    ranks(env, r)
    r.floor('native-dimensions', 400)
    r.floor('call-binds', 300)
    r.floor('attribute-exists', 400)
    r.floor('name-defined', 500)


def resolves(ctx, f, name):
    x = ctx.lookup(f.mod, name)
    if x is not None:
        return x[0] != 'missing'
    # names a star import of an outside module may bring
    return any(s not in ctx.mods for s in f.mod.stars)


def callbacks(env, r, f, key):
    """f(.., helper) where the parameter is called inside: the helper's parameters bind to that call."""
    ctx, res = env.ctx, env.res
    for n in walk_own(f.node):
        if not isinstance(n, ast.Call):
            continue
        c = res.callee(f, n)
        if not c:
            continue
        g = c[0]
        m, problems, exact = res.bind(g, c[1], n)
        for p, a in m.items():
            if not isinstance(a, (ast.Name, ast.Attribute, ast.Lambda)):
                continue
            if isinstance(a, ast.Lambda):
                params = [x.arg for x in a.args.args]
                ndef = len(a.args.defaults)
                target, bound, name = None, False, 'lambda'
            else:
                t = res.resolve_expr(f, a)
                if not t or t[0] != 'fn':
                    continue
                target, bound, name = t[1], t[2], t[1].qual
            for q in walk_own(g.node):
                if isinstance(q, ast.Call) and isinstance(q.func, ast.Name) and q.func.id == p:
                    if target is not None:
                        _, prob, _ = res.bind(target, bound, q)
                    else:
                        kw = [k.arg for k in q.keywords]
                        taken = params[:len(q.args)]
                        prob = []
                        if len(q.args) > len(params) or set(kw) & set(taken) or set(kw) - set(params):
                            prob = ['does not take the arguments of %s' % ast.unparse(q)]
                        elif set(params[:len(params) - ndef]) - set(taken) - set(kw):
                            prob = ['is called without some of its arguments']
                    r.ob('callback-binds', key('%s->%s' % (name, g.qual)), f.loc(n), not prob,
                         '%s is called by %s as %s: %s' % (name, g.qual, ast.unparse(q), '; '.join(prob)))


def is_abstract(m):
    return any((isinstance(d, ast.Name) and d.id == 'abstractmethod') or
               (isinstance(d, ast.Attribute) and d.attr == 'abstractmethod') for d in m.node.decorator_list)


def abstract(env, r, f, key):
    """self.m where m is abstract in the class of self and in every class derived from it."""
    if f.native or not f.cls:
        return
    ctx, res = env.ctx, env.res
    subs = [d for m in ctx.mods.values() for d in m.classes.values() if f.cls in ctx.mro(d)]
    for n in walk_own(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == f.selfname and \
                isinstance(n.ctx, ast.Load):
            ms = [ctx.method(d, n.attr) for d in subs]
            if ms[0] is None and not any(ms):
                continue
            ok = any(m is None or not is_abstract(m) for m in ms)
            r.ob('not-abstract', key('self.' + n.attr), f.loc(n), ok,
                 'the method %s is abstract in every class of the family: it returns None' % n.attr)


def param_types(env):
    """(function, parameter) -> the repository classes it is called with, when every resolved call passes one."""
    ctx, res = env.ctx, env.res
    seen, bad = {}, set()
    for f in ctx.fns:
        if f.native:
            continue
        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                c = res.callee(f, n)
                if not c or c[0].native:
                    continue
                m, _, _ = res.bind(c[0], c[1], n)
                for p, a in m.items():
                    t = res.type_of(f, a) if isinstance(a, (ast.Name, ast.Attribute)) else None
                    if t is None:
                        bad.add((c[0], p))
                    else:
                        seen.setdefault((c[0], p), set()).add(t)
    return {k: v for k, v in seen.items() if k not in bad and
            not any(isinstance(n, ast.Name) and n.id == k[1] and isinstance(n.ctx, ast.Store) for n in walk_own(k[0].node))}


def rank(v):
    """Number of dimensions of a value, where its construction fixes it."""
    if v[0] == 'const':
        return 0 if isinstance(v[1], (int, float)) else None
    if v[0] == 'idx' and v[1][0] == 'call' and cname(v[1]) == 'check_X_y' and v[2][0] == 'const':
        return {0: 2, 1: 1}.get(v[2][1])
    if v[0] == 'call':
        n = cname(v)
        if n in ('check_array', 'predict_quantiles', 'predict_proba'):
            return 2
        if n == 'column_or_1d':
            return 1
        if n in ('as_float_array', 'array', 'asarray', 'ascontiguousarray') and v[2]:
            return rank(v[2][0])
        if n in ('astype', 'copy') and v[1][0] == 'attr':
            return rank(v[1][1])
        if n == 'argmax' and v[2] and dict(v[3]).get('axis', ('const', None))[1] is not None and rank(v[2][0]):
            return rank(v[2][0]) - 1
        if n in ('zeros', 'ones', 'empty', 'full'):
            sh = v[2][0] if v[2] else dict(v[3]).get('shape')
            if sh is not None and sh[0] in ('tuple', 'list'):
                return len(sh) - 1
            if sh is not None and (sh[0] == 'const' or sh[0] == 'idx' and sh[1][0] == 'attr' and sh[1][2] == 'shape'):
                return 1
    return None


def ranks(env, r):
    """What is handed to a native buffer parameter has as many dimensions as the parameter."""
    for f, sc, k, m, node, trace, fn in all_native_calls(env):
        for p, v in m.items():
            t = k.ctypes.get(p, '').replace(' ', '').replace('const', '').rstrip('&')
            if not t or v is None:
                continue
            if '[:' in t:
                want = t[t.index('['):].count(':')
            elif t in ('double', 'int', 'long', 'float', 'bint', 'unsignedint'):
                want = 0
            else:
                continue
            for a in alts(v):
                n, what = rank(a), ''
                if a[0] == 'param' and fn is f:
                    d = f.defaults().get(a[1])
                    if isinstance(d, ast.Constant) and isinstance(d.value, (int, float)) and (want == 0 or a[1] in ('t', 'cond', 'down', 'up')):
                        n, what = 0, 'default'
                if n is not None:
                    r.ob('native-dimensions', '%s->%s(%s)%s' % (f.qual, k.qual, p, '' if n == want else '/%s' % (what or '%d-D' % n)), fn.loc(node), n == want,
                         '%s: the native kernel takes %s as %s, and gets a value of %d dimensions' % (sc, p, k.ctypes[p], n))
