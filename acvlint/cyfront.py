"""Cython source -> Python `ast` (one representation for .py and .pyx).

The Cython compiler's own parser builds the tree; this module only re-expresses it, so that every rule
works on one syntax.  C declarations become `node._ctypes` on the enclosing function (name -> C type text).
Parsing only: nothing is compiled or executed.
"""
import ast
import io


class FrontError(Exception):
    pass


_BINOPS = {
    '+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '//': ast.FloorDiv, '%': ast.Mod, '**': ast.Pow,
    '|': ast.BitOr, '&': ast.BitAnd, '^': ast.BitXor, '<<': ast.LShift, '>>': ast.RShift, '@': ast.MatMult,
}
_CMPS = {'<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, '==': ast.Eq, '!=': ast.NotEq, '<>': ast.NotEq,
         'is': ast.Is, 'is_not': ast.IsNot, 'in': ast.In, 'not_in': ast.NotIn, 'is not': ast.IsNot,
         'not in': ast.NotIn}


def parse_cython_tree(path, src):
    from Cython.Compiler import Parsing, Errors, Symtab
    from Cython.Compiler.TreeFragment import StringParseContext
    from Cython.Compiler.Scanning import PyrexScanner, StringSourceDescriptor
    try:
        Errors.init_thread()
    except AttributeError:
        pass
    ctx = StringParseContext('m', cpp=True)
    sd = StringSourceDescriptor(path, src)
    sc = PyrexScanner(io.StringIO(src), sd, source_encoding='utf-8',
                      scope=Symtab.ModuleScope('m', None, ctx), context=ctx, initial_pos=(sd, 1, 0))
    try:
        return Parsing.p_module(sc, False, 'm')
    except Exception as e:  # CompileError and friends
        raise FrontError('%s: %s' % (path, e))


class Conv:
    def __init__(self, path):
        self.path = path
        self.scopes = [{}]
        self.unknown = []

    # -- helpers
    def loc(self, new, old):
        line = old.pos[1] if getattr(old, 'pos', None) else 0
        new.lineno = line
        new.col_offset = old.pos[2] if getattr(old, 'pos', None) else 0
        new.end_lineno = line
        new.end_col_offset = 0
        return new

    def unk(self, n):
        self.unknown.append('%s:%s %s' % (self.path, n.pos[1], type(n).__name__))

    # -- types
    def tname(self, t):
        k = type(t).__name__
        if k == 'CSimpleBaseTypeNode':
            mp = '.'.join(list(getattr(t, 'module_path', None) or []) + [t.name or ''])
            pre = ''
            if getattr(t, 'longness', 0) > 0:
                pre = 'long ' * t.longness
                if t.name == 'int':
                    return (('unsigned ' if t.signed == 0 else '') + pre).strip()
            if getattr(t, 'signed', 1) == 0:
                pre = 'unsigned ' + pre
            return (pre + mp).strip()
        if k == 'MemoryViewSliceTypeNode':
            return '%s[%s]' % (self.tname(t.base_type_node), ','.join([':'] * len(t.axes)))
        if k == 'TemplatedTypeNode':
            return '%s[%s]' % (self.tname(t.base_type_node), ','.join(self.tname(a) for a in t.positional_args))
        if k == 'CComplexBaseTypeNode':
            return self.tname(t.base_type)
        if k in ('CQualifierTypeNode', 'CConstTypeNode'):
            return 'const ' + self.tname(t.base_type)
        if k == 'CNestedBaseTypeNode':
            return self.tname(t.base_type) + '.' + t.name
        return k

    def declname(self, d):
        while True:
            k = type(d).__name__
            if k == 'CNameDeclaratorNode':
                return d.name, getattr(d, 'default', None)
            d = d.base

    # -- expressions
    def e(self, n):
        if n is None:
            return None
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            if hasattr(n, 'operator') and hasattr(n, 'operand1') and n.operator in _BINOPS:
                m = self.x_bin
            else:
                self.unk(n)
                return self.loc(ast.Constant(value=Ellipsis), n)
        return self.loc(m(n), n)

    def x_bin(self, n):
        return ast.BinOp(left=self.e(n.operand1), op=_BINOPS[n.operator](), right=self.e(n.operand2))

    x_AddNode = x_SubNode = x_MulNode = x_DivNode = x_PowNode = x_ModNode = x_IntBinopNode = x_bin
    x_BitwiseOrNode = x_MatMultNode = x_bin

    def x_NameNode(self, n):
        return ast.Name(id=str(n.name), ctx=ast.Load())

    def x_NoneNode(self, n):
        return ast.Constant(value=None)

    def x_IntNode(self, n):
        v = str(n.value).rstrip('uUlL')
        try:
            return ast.Constant(value=int(v, 0))
        except ValueError:
            return ast.Constant(value=int(v))

    def x_FloatNode(self, n):
        return ast.Constant(value=float(n.value))

    def x_BoolNode(self, n):
        return ast.Constant(value=bool(n.value))

    def x_NullNode(self, n):
        return ast.Name(id='NULL', ctx=ast.Load())

    def x_UnicodeNode(self, n):
        return ast.Constant(value=str(n.value))

    x_StringNode = x_BytesNode = x_IdentifierStringNode = x_CharNode = x_UnicodeNode

    def x_EllipsisNode(self, n):
        return ast.Constant(value=Ellipsis)

    def x_AttributeNode(self, n):
        return ast.Attribute(value=self.e(n.obj), attr=str(n.attribute), ctx=ast.Load())

    def x_IndexNode(self, n):
        return ast.Subscript(value=self.e(n.base), slice=self.e(n.index), ctx=ast.Load())

    def x_SliceIndexNode(self, n):
        s = ast.Slice(lower=self.opt(n.start), upper=self.opt(n.stop), step=None)
        return ast.Subscript(value=self.e(n.base), slice=self.loc(s, n), ctx=ast.Load())

    def opt(self, n):
        if n is None or type(n).__name__ == 'NoneNode':
            return None
        return self.e(n)

    def x_SliceNode(self, n):
        return ast.Slice(lower=self.opt(n.start), upper=self.opt(n.stop), step=self.opt(n.step))

    def x_TupleNode(self, n):
        return ast.Tuple(elts=[self.e(a) for a in n.args], ctx=ast.Load())

    def x_ListNode(self, n):
        return ast.List(elts=[self.e(a) for a in n.args], ctx=ast.Load())

    def x_SetNode(self, n):
        return ast.Set(elts=[self.e(a) for a in n.args])

    def x_DictNode(self, n):
        return ast.Dict(keys=[self.e(i.key) for i in n.key_value_pairs],
                        values=[self.e(i.value) for i in n.key_value_pairs])

    def x_CondExprNode(self, n):
        return ast.IfExp(test=self.e(n.condition), body=self.e(n.true_val), orelse=self.e(n.false_val))

    def x_BoolBinopNode(self, n):
        op = ast.And() if n.operator == 'and' else ast.Or()
        vals = []
        for o in (n.operand1, n.operand2):
            v = self.e(o)
            if isinstance(v, ast.BoolOp) and type(v.op) is type(op):
                vals += v.values
            else:
                vals.append(v)
        return ast.BoolOp(op=op, values=vals)

    def x_NotNode(self, n):
        return ast.UnaryOp(op=ast.Not(), operand=self.e(n.operand))

    def x_UnaryMinusNode(self, n):
        v = self.e(n.operand)
        if isinstance(v, ast.Constant) and isinstance(v.value, (int, float)):
            return ast.Constant(value=-v.value)
        return ast.UnaryOp(op=ast.USub(), operand=v)

    def x_UnaryPlusNode(self, n):
        return ast.UnaryOp(op=ast.UAdd(), operand=self.e(n.operand))

    def x_TildeNode(self, n):
        return ast.UnaryOp(op=ast.Invert(), operand=self.e(n.operand))

    def x_AmpersandNode(self, n):
        return self.e(n.operand)

    def x_TypecastNode(self, n):
        return self.e(n.operand)

    def x_PrimaryCmpNode(self, n):
        left = self.e(n.operand1)
        ops, comps = [], []
        cur = n
        while cur is not None:
            ops.append(_CMPS[cur.operator]())
            comps.append(self.e(cur.operand2))
            cur = cur.cascade
        return ast.Compare(left=left, ops=ops, comparators=comps)

    def x_SimpleCallNode(self, n):
        return ast.Call(func=self.e(n.function), args=[self.e(a) for a in n.args], keywords=[])

    def x_GeneralCallNode(self, n):
        args = []
        pa = n.positional_args
        k = type(pa).__name__
        if k == 'TupleNode':
            args = [self.e(a) for a in pa.args]
        elif k == 'AsTupleNode':
            args = [self.loc(ast.Starred(value=self.e(pa.arg), ctx=ast.Load()), n)]
        elif k == 'AddNode':  # (a, b) + tuple(args)
            for part in (pa.operand1, pa.operand2):
                if type(part).__name__ == 'TupleNode':
                    args += [self.e(a) for a in part.args]
                else:
                    args.append(self.loc(ast.Starred(value=self.e(getattr(part, 'arg', part)), ctx=ast.Load()), n))
        else:
            self.unk(n)
        kws = []
        kw = n.keyword_args
        if kw is not None:
            if type(kw).__name__ == 'DictNode':
                for it in kw.key_value_pairs:
                    kws.append(self.loc(ast.keyword(arg=str(it.key.value), value=self.e(it.value)), n))
            else:
                kws.append(self.loc(ast.keyword(arg=None, value=self.e(kw)), n))
        return ast.Call(func=self.e(n.function), args=args, keywords=kws)

    def comp_parts(self, loop):
        gens = []
        cur = loop
        while True:
            k = type(cur).__name__
            if k == 'ForInStatNode':
                gens.append(ast.comprehension(target=self.store(self.e(cur.target)), iter=self.e(cur.iterator.sequence),
                                              ifs=[], is_async=0))
                cur = cur.body
            elif k == 'IfStatNode':
                gens[-1].ifs.append(self.e(cur.if_clauses[0].condition))
                cur = cur.if_clauses[0].body
            elif k in ('StatListNode',):
                cur = cur.stats[0]
            else:
                break
        return gens, cur

    def x_ComprehensionNode(self, n):
        gens, tail = self.comp_parts(n.loop)
        k = type(tail).__name__
        if k == 'ComprehensionAppendNode':
            elt = self.e(tail.expr)
        elif k == 'DictComprehensionAppendNode':
            return ast.DictComp(key=self.e(tail.key_expr), value=self.e(tail.value_expr), generators=gens)
        else:
            self.unk(n)
            elt = ast.Constant(value=None)
        return ast.ListComp(elt=elt, generators=gens)

    def x_GeneratorExpressionNode(self, n):
        gens, tail = self.comp_parts(n.loop)
        elt = None
        if hasattr(tail, 'expr'):
            ex = tail.expr
            elt = self.e(getattr(ex, 'arg', ex) if type(ex).__name__ == 'YieldExprNode' else ex)
        if elt is None:
            elt = self.loc(ast.Constant(value=None), n)
        return ast.GeneratorExp(elt=elt, generators=gens)

    def x_LambdaNode(self, n):
        return ast.Lambda(args=self.pyargs(n.args), body=self.e(n.result_expr))

    def x_ImportNode(self, n):
        return ast.Call(func=ast.Name(id='__import__', ctx=ast.Load()),
                        args=[ast.Constant(value=str(n.module_name.value))], keywords=[])

    def x_JoinedStrNode(self, n):
        return ast.Constant(value='<fstring>')

    def x_FormattedValueNode(self, n):
        return ast.Constant(value='<fstring>')

    def x_AsTupleNode(self, n):
        return self.e(n.arg)

    def x_SizeofVarNode(self, n):
        return ast.Constant(value=8)

    x_SizeofTypeNode = x_SizeofVarNode

    def x_AssignmentExpressionNode(self, n):
        return ast.NamedExpr(target=self.store(self.e(n.assignment.lhs)), value=self.e(n.assignment.rhs))

    def x_IteratorNode(self, n):
        return self.e(n.sequence)

    # -- targets
    def store(self, x):
        for s in ast.walk(x):
            if isinstance(s, (ast.Tuple, ast.List)) and s is x:
                s.ctx = ast.Store()
                for el in s.elts:
                    self.store(el)
        if isinstance(x, (ast.Name, ast.Attribute, ast.Subscript, ast.Starred)):
            x.ctx = ast.Store()
        return x

    # -- statements
    def body(self, n):
        out = self.s(n)
        if not out:
            out = [self.loc(ast.Pass(), n)] if n is not None else [ast.Pass(lineno=0, col_offset=0)]
        return out

    def s(self, n):
        if n is None:
            return []
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            self.unk(n)
            return []
        r = m(n)
        if r is None:
            return []
        if not isinstance(r, list):
            r = [r]
        for x in r:
            if not hasattr(x, 'lineno'):
                self.loc(x, n)
        return r

    def s_StatListNode(self, n):
        out = []
        for st in n.stats:
            out += self.s(st)
        return out

    def s_PassStatNode(self, n):
        return ast.Pass()

    def s_ExprStatNode(self, n):
        return ast.Expr(value=self.e(n.expr))

    def s_SingleAssignmentNode(self, n):
        k = type(n.rhs).__name__
        if k == 'ImportNode':
            name = str(n.lhs.name)
            return ast.Import(names=[ast.alias(name=str(n.rhs.module_name.value), asname=name)])
        return ast.Assign(targets=[self.store(self.e(n.lhs))], value=self.e(n.rhs))

    def s_CascadedAssignmentNode(self, n):
        return ast.Assign(targets=[self.store(self.e(l)) for l in n.lhs_list], value=self.e(n.rhs))

    def s_InPlaceAssignmentNode(self, n):
        return ast.AugAssign(target=self.store(self.e(n.lhs)), op=_BINOPS[n.operator](), value=self.e(n.rhs))

    def s_DelStatNode(self, n):
        return ast.Delete(targets=[self.e(a) for a in n.args])

    def s_IfStatNode(self, n):
        orelse = self.s(n.else_clause) if n.else_clause else []
        for cl in reversed(n.if_clauses):
            node = self.loc(ast.If(test=self.e(cl.condition), body=self.body(cl.body), orelse=orelse), cl)
            orelse = [node]
        return orelse

    def s_ForInStatNode(self, n):
        return ast.For(target=self.store(self.e(n.target)), iter=self.e(n.iterator), body=self.body(n.body),
                       orelse=self.s(n.else_clause))

    def s_ForFromStatNode(self, n):
        args = [self.e(n.bound1), self.e(n.bound2)]
        if n.relation1 == '<':
            args[0] = self.loc(ast.BinOp(left=args[0], op=ast.Add(), right=ast.Constant(value=1)), n)
        if n.relation2 == '<=':
            args[1] = self.loc(ast.BinOp(left=args[1], op=ast.Add(), right=ast.Constant(value=1)), n)
        it = self.loc(ast.Call(func=ast.Name(id='range', ctx=ast.Load()), args=args, keywords=[]), n)
        return ast.For(target=self.store(self.e(n.target)), iter=it, body=self.body(n.body),
                       orelse=self.s(n.else_clause))

    def s_WhileStatNode(self, n):
        return ast.While(test=self.e(n.condition), body=self.body(n.body), orelse=self.s(n.else_clause))

    def s_BreakStatNode(self, n):
        return ast.Break()

    def s_ContinueStatNode(self, n):
        return ast.Continue()

    def s_ReturnStatNode(self, n):
        return ast.Return(value=self.e(n.value))

    def s_RaiseStatNode(self, n):
        return ast.Raise(exc=self.e(n.exc_type), cause=None)

    def s_AssertStatNode(self, n):
        return ast.Assert(test=self.e(n.condition), msg=None)

    def s_TryExceptStatNode(self, n):
        hs = [self.loc(ast.ExceptHandler(type=None, name=None, body=self.body(h.body)), h) for h in n.except_clauses]
        return ast.Try(body=self.body(n.body), handlers=hs, orelse=self.s(n.else_clause), finalbody=[])

    def s_TryFinallyStatNode(self, n):
        return ast.Try(body=self.body(n.body), handlers=[], orelse=[], finalbody=self.body(n.finally_clause))

    def s_WithStatNode(self, n):
        return ast.With(items=[ast.withitem(context_expr=self.e(n.manager), optional_vars=None)],
                        body=self.body(n.body))

    def s_GILStatNode(self, n):
        return self.s(n.body)

    def s_CVarDefNode(self, n):
        out = []
        t = self.tname(n.base_type)
        for d in n.declarators:
            if type(d).__name__ == 'CFuncDeclaratorNode':
                continue
            name, default = self.declname(d)
            tt = t + '&' if type(d).__name__ == 'CReferenceDeclaratorNode' else t
            self.scopes[-1][str(name)] = tt
            if default is not None:
                a = ast.Assign(targets=[self.loc(ast.Name(id=str(name), ctx=ast.Store()), n)], value=self.e(default))
                out.append(self.loc(a, n))
        return out

    def s_CTypeDefNode(self, n):
        return []

    s_CDefExternNode = s_CStructOrUnionDefNode = s_CEnumDefNode = s_CTypeDefNode

    def s_FromCImportStatNode(self, n):
        names = [ast.alias(name=str(i[1]), asname=str(i[2]) if i[2] else None) for i in n.imported_names]
        return ast.ImportFrom(module=str(n.module_name), names=names, level=0)

    def s_CImportStatNode(self, n):
        return ast.Import(names=[ast.alias(name=str(n.module_name), asname=str(n.as_name) if n.as_name else None)])

    def s_FromImportStatNode(self, n):
        names = []
        for it in n.items:
            nm, tgt = it[0], it[1]
            names.append(ast.alias(name=str(nm), asname=str(getattr(tgt, 'name', nm))))
        return ast.ImportFrom(module=str(n.module.module_name.value), names=names, level=0)

    def s_GlobalNode(self, n):
        return ast.Global(names=[str(x) for x in n.names])

    def pyargs(self, args, types=None):
        aa, defaults = [], []
        for a in args:
            name, default = self.declname(a.declarator)
            default = a.default if a.default is not None else default
            t = self.tname(a.base_type) if a.base_type is not None else ''
            if not name:  # untyped `def f(x)`: Cython stores the name in the type
                name = getattr(a.base_type, 'name', None) or '?'
                t = ''
            if type(a.declarator).__name__ == 'CReferenceDeclaratorNode':
                t += '&'
            aa.append(self.loc(ast.arg(arg=str(name), annotation=None), a))
            if types is not None:
                types[str(name)] = t
            if default is not None:
                defaults.append(self.e(default))
        return ast.arguments(posonlyargs=[], args=aa, vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None,
                             defaults=defaults)

    def decos(self, n):
        return [self.e(d.decorator) for d in (n.decorators or [])]

    def func(self, n, name, args, cdef, nogil, visible, rettype):
        types = {}
        self.scopes.append(types)
        a = self.pyargs(args, types)
        params = [x.arg for x in a.args]
        body = self.body(n.body)
        self.scopes.pop()
        f = ast.FunctionDef(name=str(name), args=a, body=body, decorator_list=self.decos(n), returns=None)
        f.type_params = []
        self.loc(f, n)
        f._ctypes = types
        f._params = params
        f._cdef = cdef
        f._nogil = nogil
        f._visible = visible
        f._rettype = rettype
        return f

    def s_CFuncDefNode(self, n):
        d = n.declarator
        while type(d).__name__ != 'CFuncDeclaratorNode':
            d = d.base
        name = self.declname(d.base)[0]
        return self.func(n, name, d.args, True, bool(d.nogil or d.with_gil is None and False), bool(n.overridable),
                         self.tname(n.base_type) if n.base_type is not None else '')

    def s_DefNode(self, n):
        return self.func(n, n.name, n.args, False, False, True, '')

    def s_PyClassDefNode(self, n):
        self.unk(n)
        return []

    def s_NonlocalNode(self, n):
        return []

    def s_ParallelAssignmentNode(self, n):
        return self.s_StatListNode(n)


def parse_pyx(path, src):
    tree = parse_cython_tree(path, src)
    c = Conv(path)
    body = c.s(tree.body)
    m = ast.Module(body=body, type_ignores=[])
    m._unknown = c.unknown
    return m
