"""Loads every Python and Cython source of the repository into one index of modules, classes and functions,
and resolves names, attributes and calls across them (including Python -> Cython calls)."""
import ast
import os
import warnings

from . import cyfront

warnings.filterwarnings('ignore', category=SyntaxWarning)
REPO = os.environ.get('ACV_REPO', '/repo')

PY_FILES = [
    'acv_explainers/__init__.py', 'acv_explainers/acv_agnosticX.py', 'acv_explainers/acv_tree.py',
    'acv_explainers/base_agnostree.py', 'acv_explainers/base_tree.py', 'acv_explainers/counterfactual_rules.py',
    'acv_explainers/py_acv.py', 'acv_explainers/utils.py', 'acv_explainers/utils_cr.py',
    'acv_explainers/utils_exp.py', 'acv_explainers/utils_sdp.py',
    'acv_app/__init__.py', 'acv_app/app.py', 'acv_app/plots.py', 'acv_app/sdp_app.py', 'acv_app/sv_app.py',
    'acv_app/colors/__init__.py', 'acv_app/colors/_colors.py', 'acv_app/colors/_colorconv.py',
    'acv_data/__init__.py', 'acv_data/data_loader.py',
]
PYX_FILES = [
    'acv_explainers/cyext_acv/cyext_acv.pyx', 'acv_explainers/cyext_acv/cyext_acv_nopa.pyx',
    'acv_explainers/cyext_acv/cyext_acv_cache.pyx',
]


class AnalysisError(Exception):
    """The analysis cannot give a verdict (vanished anchor, unparsable source): an error exit, never a pass."""


class Fn:
    """One function or method of the repository."""

    def __init__(self, mod, node, cls=None, parent=None):
        self.mod, self.node, self.cls, self.parent = mod, node, cls, parent
        self.name = node.name
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.ndef = len(a.defaults)
        self.decos = set()
        for d in node.decorator_list:
            t = d.func if isinstance(d, ast.Call) else d
            self.decos.add(t.attr if isinstance(t, ast.Attribute) else getattr(t, 'id', ''))
        self.static = 'staticmethod' in self.decos
        self.classm = 'classmethod' in self.decos
        self.native = mod.native
        self.ctypes = getattr(node, '_ctypes', {})
        self.cdef = getattr(node, '_cdef', False)
        self.visible = getattr(node, '_visible', True)
        self.nested = {}

    @property
    def qual(self):
        p = self.mod.short + ':'
        if self.cls:
            p += self.cls.name + '.'
        if self.parent:
            p += self.parent.name + '.'
        return p + self.name

    @property
    def is_method(self):
        return self.cls is not None and not self.static and self.parent is None

    @property
    def selfname(self):
        return self.params[0] if self.is_method and self.params else None

    def defaults(self):
        a = self.node.args
        d = dict(zip(self.params[len(self.params) - self.ndef:], a.defaults))
        for n, v in zip(self.kwonly, a.kw_defaults):
            if v is not None:
                d[n] = v
        return d

    def loc(self, node=None):
        return '%s:%s' % (self.mod.rel, getattr(node if node is not None else self.node, 'lineno', '?'))

    def __repr__(self):
        return '<Fn %s>' % self.qual


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.methods = {}
        self.attrs = set()


class Mod:
    def __init__(self, rel, tree, src, native):
        self.rel, self.tree, self.src, self.native = rel, tree, src, native
        base = rel.rsplit('.', 1)[0]
        self.short = os.path.basename(base) if os.path.basename(base) != '__init__' else base.replace('/', '.')
        if native:
            self.name = os.path.basename(base)
        else:
            self.name = base.replace('/', '.')
            if self.name.endswith('.__init__'):
                self.name = self.name[:-9]
        self.funcs, self.classes, self.globals, self.imports, self.stars = {}, {}, set(), {}, []
        self.allfns = []


class Ctx:
    def __init__(self, repo=None, overlay=None):
        self.repo = repo or REPO
        self.overlay = overlay or {}
        self.mods = {}
        self.fns = []
        for rel in PY_FILES + PYX_FILES:
            self.load(rel, rel.endswith('.pyx'))
        # new source files in the packages are analysed too
        seen = set(PY_FILES + PYX_FILES)
        for top in ('acv_explainers', 'acv_app', 'acv_data'):
            for d, dirs, files in os.walk(os.path.join(self.repo, top)):
                dirs[:] = [x for x in dirs if x not in ('__pycache__', 'build')]
                for f in sorted(files):
                    rel = os.path.relpath(os.path.join(d, f), self.repo)
                    if rel in seen or not f.endswith(('.py', '.pyx')) or f == 'setup.py':
                        continue
                    self.load(rel, f.endswith('.pyx'))
        for m in self.mods.values():
            self.index(m)
        self._mro = {}

    def read(self, rel):
        if rel in self.overlay:
            return self.overlay[rel]
        p = os.path.join(self.repo, rel)
        if not os.path.exists(p):
            raise AnalysisError('source file %s not found' % rel)
        with open(p, encoding='utf-8') as f:
            return f.read()

    def load(self, rel, native):
        src = self.read(rel)
        try:
            tree = cyfront.parse_pyx(rel, src) if native else ast.parse(src, rel)
        except (SyntaxError, cyfront.FrontError) as e:
            raise AnalysisError('cannot parse %s: %s' % (rel, e))
        if native and tree._unknown:
            raise AnalysisError('unsupported Cython construct: %s' % tree._unknown[:3])
        m = Mod(rel, tree, src, native)
        self.mods[m.name] = m

    def index(self, m):
        def addfn(node, cls=None, parent=None):
            f = Fn(m, node, cls, parent)
            self.fns.append(f)
            m.allfns.append(f)
            node._fn = f
            for st in ast.walk(node):
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)) and st is not node \
                        and not hasattr(st, '_fn'):
                    f.nested[st.name] = addfn(st, cls, f)
            return f

        def top(stmts):
            for st in stmts:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.funcs[st.name] = addfn(st)
                elif isinstance(st, ast.ClassDef):
                    c = Cls(m, st)
                    m.classes[st.name] = c
                    for x in st.body:
                        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            c.methods[x.name] = addfn(x, c)
                        elif isinstance(x, (ast.Assign, ast.AnnAssign)):
                            for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                                if isinstance(t, ast.Name):
                                    c.attrs.add(t.id)
                elif isinstance(st, ast.Import):
                    for a in st.names:
                        m.imports[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
                elif isinstance(st, ast.ImportFrom):
                    base = st.module or ''
                    if st.level:
                        pk = m.name.split('.') if m.rel.endswith('__init__.py') else m.name.split('.')[:-1]
                        pk = pk[:len(pk) - (st.level - 1)]
                        base = '.'.join(pk + ([base] if base else []))
                    for a in st.names:
                        if a.name == '*':
                            m.stars.append(base)
                        else:
                            m.imports[a.asname or a.name] = ('from', base, a.name)
                elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                    for fld in ('body', 'orelse', 'finalbody'):
                        top(getattr(st, fld, []) or [])
                    for h in getattr(st, 'handlers', []):
                        top(h.body)
                    if isinstance(st, (ast.For,)):
                        for n in ast.walk(st.target):
                            if isinstance(n, ast.Name):
                                m.globals.add(n.id)
                    if isinstance(st, ast.With):
                        for i in st.items:
                            if isinstance(i.optional_vars, ast.Name):
                                m.globals.add(i.optional_vars.id)
                else:
                    for n in ast.walk(st):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            m.globals.add(n.id)
        top(m.tree.body)

    # -- name resolution
    def lookup(self, m, name, seen=None):
        """-> ('fn', Fn) | ('cls', Cls) | ('mod', Mod|dotted) | ('var', name) | ('ext', dotted) | None"""
        seen = seen or set()
        if (m.name, name) in seen:
            return None
        seen.add((m.name, name))
        if name in m.funcs:
            return ('fn', m.funcs[name])
        if name in m.classes:
            return ('cls', m.classes[name])
        if name in m.imports:
            i = m.imports[name]
            if i[0] == 'mod':
                return ('mod', self.mods.get(i[1], i[1]))
            _, base, nm = i
            sub = self.mods.get(base + '.' + nm)
            if base in self.mods:
                r = self.lookup(self.mods[base], nm, seen)
                if r:
                    return r
                if sub:
                    return ('mod', sub)
                return ('missing', base + '.' + nm)
            if sub:
                return ('mod', sub)
            return ('ext', base + '.' + nm)
        if name in m.globals:
            return ('var', name)
        for s in reversed(m.stars):
            if s in self.mods:
                r = self.lookup(self.mods[s], name, seen)
                if r and r[0] != 'missing':
                    return r
        return None

    def mro(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x in out:
                continue
            out.append(x)
            for b in x.node.bases:
                if isinstance(b, ast.Name):
                    r = self.lookup(x.mod, b.id)
                    if r and r[0] == 'cls':
                        todo.append(r[1])
        return out

    def ext_bases(self, c):
        """True when a base class is outside the repository (attributes cannot be enumerated)."""
        for x in self.mro(c):
            for b in x.node.bases:
                if isinstance(b, ast.Name):
                    if b.id == 'object':
                        continue
                    r = self.lookup(x.mod, b.id)
                    if not r or r[0] != 'cls':
                        return True
                else:
                    return True
        return False

    def method(self, c, name):
        for x in self.mro(c):
            if name in x.methods:
                return x.methods[name]
        return None

    def cls(self, name):
        out = [c for m in self.mods.values() for c in m.classes.values() if c.name == name]
        if not out:
            raise AnalysisError('class %s not found' % name)
        return out[0]

    def fn(self, qual):
        """'module:func' or 'module:Class.method' -> Fn (AnalysisError when it has vanished)."""
        for f in self.fns:
            if f.qual == qual:
                return f
        raise AnalysisError('function %s not found' % qual)

    def find(self, qual):
        for f in self.fns:
            if f.qual == qual:
                return f
        return None


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b + '.' + e.attr if b else None
    return None


def walk_own(node):
    """ast.walk that does not descend into nested function or class definitions (memoised per function)."""
    c = getattr(node, '_own', None)
    if c is None:
        c = list(_walk_own(node))
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            node._own = c
    return c


def _walk_own(node):
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop(0)
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            todo[:0] = list(ast.iter_child_nodes(n))
        elif isinstance(n, ast.Lambda):
            todo[:0] = [n.body]


class Locals:
    """Names bound in a function, and types inferred for names and self attributes (constructor calls only)."""

    def __init__(self, fn):
        self.bound = set(fn.params) | set(fn.kwonly)
        if fn.vararg:
            self.bound.add(fn.vararg)
        if fn.kwarg:
            self.bound.add(fn.kwarg)
        self.bound |= set(fn.ctypes)
        self.globals = set()
        for n in walk_own(fn.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.bound.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.bound.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    self.bound.add(a.asname or a.name.split('.')[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.bound.add(n.name)
            elif isinstance(n, ast.Lambda):
                for a in n.args.args + n.args.kwonlyargs:
                    self.bound.add(a.arg)
            elif isinstance(n, ast.Global):
                self.globals |= set(n.names)


class Resolver:
    def __init__(self, ctx):
        self.ctx = ctx
        self._loc = {}
        self._attrtypes = {}
        self._types = {}

    def locals(self, fn):
        if fn not in self._loc:
            self._loc[fn] = Locals(fn)
        return self._loc[fn]

    def visible_in(self, fn, name):
        f = fn
        while f is not None:
            if name in self.locals(f).bound:
                return f
            f = f.parent
        return None

    def cls_of_call(self, fn, e):
        """Class constructed by expression e, when it is a direct constructor call."""
        if isinstance(e, ast.Call):
            r = self.resolve_expr(fn, e.func)
            if r and r[0] == 'cls':
                return r[1]
        return None

    def attr_type(self, c, attr):
        """Class of self.<attr> when every assignment in the class family constructs one class (None ignored)."""
        key = (c, attr)
        if key in self._attrtypes:
            return self._attrtypes[key]
        self._attrtypes[key] = None
        types = set()
        for x in self.ctx.mro(c):
            for mth in x.methods.values():
                s = mth.selfname
                for n in walk_own(mth.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name) \
                                    and t.value.id == s:
                                if isinstance(n.value, ast.Constant) and n.value.value is None:
                                    continue
                                types.add(self.cls_of_call(mth, n.value))
        r = types.pop() if len(types) == 1 else None
        self._attrtypes[key] = r
        return r

    def type_of(self, fn, e, depth=0):
        if depth > 4 or fn.native:
            return None
        if isinstance(e, ast.Name):
            key = (fn, e.id)
            if key in self._types:
                return self._types[key]
            self._types[key] = None
            t = self._types[key] = self._type_of(fn, e, depth)
            return t
        return self._type_of(fn, e, depth)

    def _type_of(self, fn, e, depth):
        if isinstance(e, ast.Name):
            f = self.visible_in(fn, e.id)
            if f is None:
                return None
            if f.is_method and e.id == f.selfname and f.cls:
                return f.cls
            if e.id in f.params or e.id in f.kwonly:
                return None
            types = set()
            for n in walk_own(f.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                    types.add(self.cls_of_call(f, n.value) or self.type_of(f, n.value, depth + 1)
                              if not (isinstance(n.value, ast.Name) and n.value.id == e.id) else None)
                elif isinstance(n, (ast.For, ast.comprehension)):
                    if any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(n.target)):
                        types.add(None)
            return types.pop() if len(types) == 1 else None
        if isinstance(e, ast.Attribute):
            t = self.type_of(fn, e.value, depth + 1)
            if t is not None:
                return self.attr_type(t, e.attr)
            return None
        if isinstance(e, ast.Call):
            return self.cls_of_call(fn, e)
        return None

    def resolve_expr(self, fn, e):
        """What does expression e denote: ('fn', Fn, bound) | ('cls', Cls) | ('mod', Mod) | ... | None."""
        ctx = self.ctx
        if isinstance(e, ast.Name):
            f = self.visible_in(fn, e.id)
            if f is not None:
                if e.id in f.nested:
                    return ('fn', f.nested[e.id], False)
                # local import
                for n in walk_own(f.node):
                    if isinstance(n, ast.Import):
                        for a in n.names:
                            if (a.asname or a.name.split('.')[0]) == e.id:
                                return ('mod', ctx.mods.get(a.name if a.asname else a.name.split('.')[0], a.name))
                    if isinstance(n, ast.ImportFrom):
                        for a in n.names:
                            if (a.asname or a.name) == e.id and n.module in ctx.mods:
                                r = ctx.lookup(ctx.mods[n.module], a.name)
                                if r:
                                    return r + ((False,) if r[0] == 'fn' else ())
                # alias:  f = self.method / f = module.func
                defs = [n.value for n in walk_own(f.node) if isinstance(n, ast.Assign)
                        and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
                if len(defs) == 1 and isinstance(defs[0], (ast.Name, ast.Attribute)) and e.id not in f.params \
                        and not (isinstance(defs[0], ast.Name) and defs[0].id == e.id):
                    return self.resolve_expr(f, defs[0])
                return ('local', e.id)
            r = ctx.lookup(fn.mod, e.id)
            if r is None:
                return None
            return r + ((False,) if r[0] == 'fn' else ())
        if isinstance(e, ast.Attribute):
            t = self.type_of(fn, e.value)
            if t is not None:
                m = ctx.method(t, e.attr)
                if m is not None:
                    return ('fn', m, not m.static)
                return ('attr', t, e.attr)
            if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == 'super' \
                    and fn.cls:
                for c in ctx.mro(fn.cls)[1:]:
                    if e.attr in c.methods:
                        return ('fn', c.methods[e.attr], True)
                return None
            b = self.resolve_expr(fn, e.value)
            if b is None:
                return None
            if b[0] == 'mod':
                if isinstance(b[1], Mod):
                    r = ctx.lookup(b[1], e.attr)
                    if r is None:
                        sub = ctx.mods.get(b[1].name + '.' + e.attr)
                        return ('mod', sub) if sub else ('missing', b[1].name + '.' + e.attr)
                    return r + ((False,) if r[0] == 'fn' else ())
                return ('ext', str(b[1]) + '.' + e.attr)
            if b[0] == 'cls':
                m = ctx.method(b[1], e.attr)
                if m is not None:
                    return ('fn', m, m.classm)
            if b[0] == 'ext':
                return ('ext', b[1] + '.' + e.attr)
            return None
        return None

    def callee(self, fn, call):
        """-> (Fn, bound) or None.  bound: the first parameter (self) is supplied implicitly."""
        r = self.resolve_expr(fn, call.func)
        if r is None:
            return None
        if r[0] == 'fn':
            return (r[1], bool(r[2]) if len(r) > 2 else False)
        if r[0] == 'cls':
            m = self.ctx.method(r[1], '__init__')
            return (m, True) if m else None
        return None

    def bind(self, callee, bound, call):
        """-> (mapping param -> arg expr, list of problems, exact)"""
        params = callee.params[1:] if bound else list(callee.params)
        m, problems, exact = {}, [], True
        pos = list(call.args)
        if any(isinstance(a, ast.Starred) for a in pos) or any(k.arg is None for k in call.keywords):
            exact = False
        for i, a in enumerate(pos):
            if isinstance(a, ast.Starred):
                break
            if i < len(params):
                m[params[i]] = a
            elif not callee.vararg:
                problems.append('takes %d positional arguments but %d are given' % (len(params), len(pos)))
                break
        for k in call.keywords:
            if k.arg is None:
                continue
            if k.arg in m:
                problems.append('argument %r given twice' % k.arg)
            elif k.arg in params or k.arg in callee.kwonly:
                m[k.arg] = k.value
            elif not callee.kwarg:
                problems.append('has no parameter %r' % k.arg)
        if exact:
            d = callee.defaults()
            miss = [p for p in params + callee.kwonly if p not in m and p not in d]
            if miss:
                problems.append('required argument(s) %s missing' % ', '.join(repr(x) for x in miss))
        return m, problems, exact
