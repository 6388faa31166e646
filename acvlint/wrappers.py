"""Public methods that hand data to native kernels, value-numbered under scenarios (task, interval given or not, number of
features); what each kernel argument is, which checks ran before."""
import ast

from .ctx import walk_own
from .vn import VN, alts, subs

CLASSES = ('ACXplainer', 'ACVTree', 'ACVTreeAgnostic')
KEEP = {'as_float_array', 'array', 'asarray', 'ascontiguousarray', 'asfortranarray', 'copy', 'astype', 'asanyarray', 'float64', 'squeeze'}
CHECK2 = {'check_X_y', 'check_array'}


def cname(v):
    """Last name of the thing called."""
    f = v[1]
    if isinstance(f, str):
        return f.split(':')[-1].split('.')[-1]
    if f[0] == 'name':
        return f[1]
    if f[0] == 'attr':
        return f[2]
    return ''


def strip(v):
    """v without conversions that keep rows and values."""
    while True:
        if v[0] == 'call':
            n = cname(v)
            if n in KEEP:
                if v[1][0] == 'attr' and n in ('astype', 'copy', 'squeeze') and not (v[1][1][0] == 'name'):
                    v = v[1][1]
                    continue
                if v[2]:
                    v = v[2][0]
                    continue
            if n in ('check_array', 'column_or_1d') and v[2]:
                v = v[2][0]
                continue
        if v[0] == 'idx' and v[1][0] == 'call' and cname(v[1]) == 'check_X_y' and v[2] in (('const', 0), ('const', 1)):
            a = argn(v[1], v[2][1], ('X', 'y')[v[2][1]])
            if a is not None:
                v = a
                continue
        if v[0] == 'attr' and v[2] == 'values':
            v = v[1]
            continue
        return v


def argn(c, i, name):
    if len(c[2]) > i:
        return c[2][i]
    for k, a in c[3]:
        if k == name:
            return a
    return None


def checked(v):
    """Which validation the value went through: ('2d',) / ('1d', what its length was compared with) or None."""
    while True:
        if v[0] == 'call':
            n = cname(v)
            if n == 'check_array':
                return ('2d',)
            if n == 'column_or_1d':
                return ('1d', None)
            if n in KEEP:
                if v[1][0] == 'attr' and n in ('astype', 'copy', 'squeeze') and not (v[1][1][0] == 'name'):
                    v = v[1][1]
                    continue
                if v[2]:
                    v = v[2][0]
                    continue
        if v[0] == 'idx' and v[1][0] == 'call' and cname(v[1]) == 'check_X_y':
            if v[2] == ('const', 0):
                return ('2d',)
            if v[2] == ('const', 1):
                return ('1d', strip(argn(v[1], 0, 'X')))
        return None


def nfeat(v):
    """Is v the number of columns of something: that thing."""
    if v[0] == 'idx' and v[1][0] == 'attr' and v[1][2] == 'shape' and v[2] in (('const', 1), ('const', -1)):
        return v[1][1]
    return None


class Scenario:
    def __init__(self, clf, tnone, d):
        self.clf, self.tnone, self.d = clf, tnone, d

    def __str__(self):
        return '%s%s, %d features' % ('classification' if self.clf else 'regression', '' if self.clf else ', default interval' if self.tnone else ', interval given', self.d)

    def number(self, v):
        if v[0] == 'const' and isinstance(v[1], (int, float)):
            return v[1]
        if nfeat(v) is not None:
            return self.d
        if v[0] == 'attr' and v[1] == ('param', 'self') and v[2] == 'd':
            return self.d
        if v[0] == 'attr' and v[1] == ('param', 'self') and v[2] == 'classifier':
            return int(self.clf)
        if v[0] == 'call' and cname(v) in ('min', 'max') and not v[3]:
            xs = [self.number(a) for a in v[2]]
            if None not in xs and xs:
                return min(xs) if cname(v) == 'min' else max(xs)
        if v[0] == 'call' and cname(v) == 'int' and len(v[2]) == 1:
            return self.number(v[2][0])
        if v[0] == 'call' and cname(v) == 'len' and len(v[2]) == 1 and v[2][0][0] == 'idx':
            return self.d
        if v[0] == 'op':
            a, b = self.number(v[2]), self.number(v[3])
            if a is not None and b is not None:
                return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b}.get(v[1], lambda: None)()
        return None

    def decide(self, v):
        n = self.number(v)
        if n is not None:
            return bool(n)
        if v[0] == 'cmp' and v[2] == ('param', 't') and v[3] == ('const', None):
            return self.tnone == (v[1] in ('Is', 'Eq'))
        if v[0] == 'cmp':
            a, b = self.number(v[2]), self.number(v[3])
            if a is not None and b is not None:
                return {'Lt': a < b, 'LtE': a <= b, 'Eq': a == b, 'NotEq': a != b, 'Is': a == b, 'IsNot': a != b}.get(v[1])
        return None


def public_methods(env):
    for f in env.ctx.fns:
        if f.cls is not None and f.parent is None and not f.native and f.cls.name in CLASSES and not f.name.startswith('_'):
            yield f


def native_calls(env, f, sc):
    """[(kernel Fn, {param: value}, node, trace before, caller)] met when f runs under scenario sc."""
    out = []

    def on_call(cf, cm, node, fn, st):
        if cf is not None and cf.native:
            out.append((cf, cm, node, st.trace, fn))
    fam = env.ctx.mro(f.cls) if f.cls else []

    def enter(fn, g):
        return g.name not in ('__init__', 'predict') and (g.cls in fam or g.cls is None and g.mod is fn.mod or
                                                          g.cls is None and g.name.startswith('_'))
    VN(env, sc.decide, enter, on_call).run(f)
    return out


SCENARIOS = [Scenario(True, True, 9), Scenario(False, True, 9), Scenario(False, False, 9), Scenario(True, True, 10), Scenario(True, True, 11)]


def all_native_calls(env):
    """(public method, scenario, kernel, args, node, trace, caller) of all, cached on env."""
    if not hasattr(env, '_ncalls'):
        env._ncalls = []
        for f in public_methods(env):
            for sc in SCENARIOS:
                for x in native_calls(env, f, sc):
                    env._ncalls.append((f, sc) + x)
    return env._ncalls
