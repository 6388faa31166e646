"""Ownership in the C extension.  Every path of every function that Python can call (read from clang's syntax tree, helpers
inlined) is followed with the state of each array: obtained (maybe NULL), known to be there, released.  An array is not
dereferenced, measured or unconditionally released before it was tested; its data is read with the type it was converted
to, and never after the release; at every return every array was released exactly once; NULL is returned exactly when an
exception is set; the format of the argument tuple matches the variables it fills."""
from .. import cext
from ..cext import Exec, Undecided, cval, const, strip, body

POINTEE = {'NPY_INT': ('int',), 'NPY_INT32': ('int',), 'NPY_DOUBLE': ('double', 'tfloat'), 'NPY_FLOAT64': ('double', 'tfloat'),
           'NPY_BOOL': ('bool', 'unsigned char', 'npy_bool', 'char'), 'NPY_LONG': ('long',), 'NPY_INT64': ('long', 'long long'),
           'NPY_FLOAT': ('float',), 'NPY_UINT': ('unsigned int', 'unsigned')}
PARSE = {'O': ('PyObject *',), 'i': ('int',), 'd': ('double', 'tfloat'), 'I': ('unsigned int', 'unsigned'), 'l': ('long',),
         'f': ('float',), 'n': ('Py_ssize_t',), 'p': ('int',)}


class Own:
    """Hooks of the executor: the states of the arrays of one wrapper."""

    def __init__(self, fn):
        self.fn, self.bad, self.arrs, self.rets, self.parse, self.site = fn, {}, {}, [], [], []

    def fault(self, rule, a, n, text):
        self.bad.setdefault((rule, a), (n.get('_line') if n else 0, text))

    def name(self, a):
        return self.arrs.get(a, str(a))

    def call(self, ex, name, vs, n, s):
        if name == 'PyArg_ParseTuple':
            fail = s.copy()
            fail.err = True
            fmt = vs[1][1].strip('"').split(':')[0].split(';')[0].replace('|', '') if vs[1][0] == 'str' else None
            self.parse.append((fmt, vs[2:], n))
            for k, a in enumerate(vs[2:]):
                if a[0] == 'addr':
                    s.v[a[1]] = ('arg', k, a[2])
            return [(const(0), fail), (const(1), s)]
        if name in ('PyArray_FROM_OTF', 'PyArray_FROM_OF'):
            src = vs[0]
            a = ('arr', n['id'], tuple(ex.stack), src, vs[1][1] if vs[1][0] == 'name' else None)
            self.arrs[a] = src[2].replace('_obj', '') if src[0] == 'arg' else repr(src)
            s.arr[a] = 'maybe'
            return [(a, s)]
        if name in ('PyArray_DATA', 'PyArray_DIM', 'PyArray_DIMS', 'PyArray_NDIM', 'PyArray_SIZE'):
            a = vs[0]
            if a[0] == 'arr':
                if s.arr.get(a) in ('maybe', 'null'):
                    self.fault('tested-before-use', a, n, '%s of %s, which may be NULL here' % (name, self.name(a)))
                elif s.arr.get(a) == 'released':
                    self.fault('not-used-after-release', a, n, '%s of %s after its release' % (name, self.name(a)))
                if name == 'PyArray_DATA':
                    return [(('data', a), s)]
                return [((name[8:].lower(),) + tuple(vs), s)]
            return None
        if name in ('Py_DECREF', 'Py_XDECREF', 'Py_CLEAR'):
            a = vs[0]
            if a[0] == 'arr':
                st = s.arr.get(a)
                if st == 'released':
                    self.fault('released-once', a, n, '%s is released twice' % self.name(a))
                elif name == 'Py_DECREF' and st in ('maybe', 'null'):
                    self.fault('tested-before-use', a, n, 'Py_DECREF of %s, which may be NULL here' % self.name(a))
                if st == 'maybe' and name != 'Py_DECREF':
                    s.arr[a] = 'released'       # or NULL: nothing is owed either way
                elif st != 'null':
                    s.arr[a] = 'released'
            elif a[0] == 'arg':
                self.fault('released-once', a, n, 'the argument %s, which the caller owns, is released' % a[2])
            return [(const(0), s)]
        if name in ('Py_INCREF', 'Py_XINCREF'):
            if vs[0][0] == 'arr':
                raise Undecided('reference taken on an array')
            return [(const(0), s)]
        if name in ('PyErr_SetString', 'PyErr_Format', 'PyErr_NoMemory'):
            s.err = True
            return [(const(0), s)]
        if name == 'PyErr_Clear':
            s.err = False
            return [(const(0), s)]
        if name in ('Py_BuildValue', 'PyFloat_FromDouble', 'PyLong_FromLong', 'PyModule_Create'):
            return [(('new', n['id']), s)]
        if name not in ex.fns or name in ex.opaque:
            for v in vs:
                self.reach(v, s, n)
        return None

    def reach(self, v, s, n):
        """Arrays whose data a value gives access to must still be there."""
        todo, seen = [v], set()
        while todo:
            x = todo.pop()
            if not isinstance(x, tuple) or id(x) in seen:
                continue
            seen.add(id(x))
            if x and x[0] == 'data':
                if s.arr.get(x[1]) == 'released':
                    self.fault('not-used-after-release', x[1], n, 'the data of %s is used after its release' % self.name(x[1]))
                continue
            if x and x[0] == 'struct':
                todo += list(s.structs.get(x[1], {}).values())
                continue
            if x and x[0] == 'load':
                continue
            todo += list(x)

    def use(self, p, n, s):
        self.reach(p[1] if p[0] == 'ptr' else p, s, n)

    def cast(self, v, n, s):
        if isinstance(v, tuple) and v[0] == 'data' and v[1][0] == 'arr':
            want = POINTEE.get(v[1][4])
            got = (n.get('type') or {}).get('qualType', '').replace('const ', '').replace('*', '').strip()
            if want and got != 'void' and got not in want:
                self.fault('type-of-data', v[1], n, 'the data of %s, converted to %s, is read as %s' % (
                    self.name(v[1]), v[1][4], got))
        return None

    def ret(self, v, n, s):
        self.rets.append((n, dict(s.arr), s.err, v))


def wrappers(tree):
    """Functions that take (PyObject *, PyObject *) and give a PyObject *."""
    out = []
    for n in tree['inner']:
        if n.get('kind') == 'FunctionDecl' and body(n) is not None:
            t = (n.get('type') or {}).get('qualType', '')
            if t.startswith('PyObject *(PyObject *, PyObject *'):
                out.append(n)
    return out


def takes_objects(n):
    t = (n.get('type') or {}).get('qualType', '')
    return 'PyObject' in t or 'PyArrayObject' in t


def check(env, r):
    tree, errors = cext.load(env.ctx)
    if errors:
        r.notes.append('undecided: clang reports %d errors with the stub headers' % errors)
    ws = wrappers(tree)
    for w in ws:
        where = '%s:%s' % (cext.CEXT, w.get('_line'))
        q = '_cext:' + w['name']
        r.unit(q)
        own = Own(w)
        ex = Exec(tree, on=own)
        ex.opaque = {f for f, d in ex.fns.items() if not takes_objects(d)}
        st = cext.State()
        for i, p in enumerate([c for c in w['inner'] if c.get('kind') == 'ParmVarDecl']):
            st.v[p['id']] = ('param', i, p.get('name'))
        try:
            res = ex.block(body(w), st)
        except Undecided as e:
            r.notes.append('undecided: %s (%s)' % (q, e))
            continue
        if not own.parse and not own.arrs:
            r.notes.append('undecided: %s converts nothing' % q)
            continue
        for kind, v, s in res:
            if kind == 'next':
                own.rets.append((w, dict(s.arr), s.err, None))
        types = vartypes(w)
        for fmt, vs, n in own.parse:
            if fmt is None:
                continue
            letters = [c for c in fmt]
            ok = len(letters) == len(vs)
            why = '' if ok else 'format %r fills %d variables, %d are given' % (fmt, len(letters), len(vs))
            if ok:
                for c, a in zip(letters, vs):
                    t = types.get(a[1]) if a[0] == 'addr' else None
                    if t and c in PARSE and t not in PARSE[c]:
                        ok, why = False, 'format %r writes %s (%s) as %r' % (fmt, a[2], t, c)
                        break
                names = [a[1] for a in vs if a[0] == 'addr']
                if ok and len(set(names)) != len(names):
                    ok, why = False, 'a variable is filled twice'
            r.ob('arguments-parsed', q, '%s:%s' % (cext.CEXT, n.get('_line')), ok, why)
        for a, nm in own.arrs.items():
            leaks = [(n, s) for n, s, err, v in own.rets if s.get(a) in ('owned', 'maybe') and a in s]
            if leaks:
                own.fault('released-once', a, leaks[0][0], '%s is not released on a path that returns here' % nm)
            for rule in ('released-once', 'tested-before-use', 'not-used-after-release', 'type-of-data'):
                b = own.bad.get((rule, a))
                r.ob(rule, '%s(%s)' % (q, nm), '%s:%s' % (cext.CEXT, b[0]) if b else where, not b, b[1] if b else '')
        for (rule, a), b in own.bad.items():
            if a not in own.arrs:
                r.ob(rule, '%s(%s)' % (q, a[2] if len(a) > 2 else a), '%s:%s' % (cext.CEXT, b[0]), False, b[1])
        ok, why, ln = True, '', w.get('_line')
        for n, arr, err, v in own.rets:
            if v is None or (isinstance(v, tuple) and v[0] == 'uninit'):
                ok, why, ln = False, 'a path ends without returning a value', n.get('_line')
            elif cval(v) == 0 and not err:
                ok, why, ln = False, 'NULL is returned without an exception', n.get('_line')
            elif cval(v) != 0 and err:
                ok, why, ln = False, 'a value is returned although an exception is set', n.get('_line')
            if not ok:
                break
        r.ob('error-reported', q, '%s:%s' % (cext.CEXT, ln), ok, why)
        r.notes.append('%s: %d paths, %d arrays' % (q, len(own.rets), len(own.arrs)))
    r.floor('released-once', 20)


def vartypes(w):
    out = {}
    st = [w]
    while st:
        n = st.pop()
        if n.get('kind') == 'VarDecl':
            out[n['id']] = (n.get('type') or {}).get('qualType', '').replace('const ', '').strip()
        st += [c for c in n.get('inner', []) if c]
    return out
