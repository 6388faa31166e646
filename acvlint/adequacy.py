"""Thorough tier: how well the rules of one property tell right from wrong on this code.

Single-token changes of the functions the rules analysed (operators, bounds, indices, dropped statements) and rewrites
that change nothing are made to the source text in memory, never on disk, and the same rules are run on each.  The numbers
go to the evidence file: how many changes were reported, which ones were not (many of those change nothing either, or
break another property), and whether any rewrite was reported.  They do not decide the exit status, which is that of
the rules on the unchanged source."""
import ast
import concurrent.futures
import multiprocessing
import os
import random
import re
import time

from .core import AnalysisError, Env, Result

OPS = [(r'<=', '<'), (r'(?<![<=])<(?![=<])', '<='), (r'>=', '>'), (r'(?<![>=-])>(?![>=])', '>='), (r'!=', '=='),
       (r'==', '!='), (r' \+ ', ' - '), (r'\+=', '-='), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '),
       (r'\band\b', 'or'), (r'\bor\b', 'and'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\bnot ', ''),
       (r'range\((\w+)\)', r'range(\1 - 1)'), (r'range\((\w+)\)', r'range(1, \1)'), (r'\bbreak\b', 'continue'),
       (r'\bcontinue\b', 'break'), (r'\bTrue\b', 'False'), (r'\bFalse\b', 'True'), (r'\bdata\b', 'X'),
       (r', \w+=[\w.]+(?=[,)])', ''), (r'self\.(\w+)', r'self.\1_x'), (r'\((\w+), (\w+), ', r'(\2, \1, '), (r', \w+(?=\))', '')]
SAME = [('swap-equality', r'(?m)^(\s+)if (\w+) == (\w+):$', r'\1if \3 == \2:'),
        ('negated-condition', r'(?m)^(\s+)if (\w+) == (\w+):$', r'\1if not (\2 != \3):'),
        ('expanded-increment', r'(?m)^(\s+)(\w+) \+= 1$', r'\1\2 = \2 + 1'),
        ('flipped-order', r'\(([\w\[\], ]+?) <= ([\w\[\], ]+?)\)', r'(\2 >= \1)'),
        ('empty-statement', r'(?m)^([ \t]+)(for \w+ in [^:\n]*:)\n([ \t]+)(?=\S)', r'\1\2\n\3pass\n\3')]


def _budget():
    return float(os.environ.get('ACVLINT_BUDGET', '420'))


def _fns(env, r):
    return [f for f in env.ctx.fns if f.qual in r.units]


def _mutants(src, first, last):
    lines = src.split('\n')
    out = []
    for i in range(first, min(last + 1, len(lines))):
        s = lines[i].strip()
        if not s or s.startswith(('#', 'cdef', 'def ', 'cpdef', '"""', '@', 'print')):
            continue
        for a, b in OPS:
            for m in re.finditer(a, lines[i]):
                nl = lines[i][:m.start()] + m.expand(b) + lines[i][m.end():]
                if nl != lines[i]:
                    out.append((i, nl))
        if re.match(r'[\w\[\], .]+ [-+*]?= [^=(]*$', s) or s in ('break', 'continue'):
            out.append((i, lines[i][:len(lines[i]) - len(lines[i].lstrip())] + 'pass'))
    return out


def _judge(job):
    mod, prop, text, rel, what, base = job
    import importlib
    import sys
    sys.setrecursionlimit(20000)
    try:
        r = Result(prop)
        importlib.import_module(mod).check(Env(overlay={rel: text}), r)
        return what, 'reported' if {(o[0], o[1]) for o in r.bad()} - base else 'quiet'
    except AnalysisError as e:
        return what, 'no answer: %s' % str(e)[:120]
    except SyntaxError:
        return what, 'does not parse'
    except Exception as e:      # an edit that does not parse, mostly
        return what, 'no answer: %s' % repr(e)[:120]


def extra(prop, mod, seed):
    def run(env, r):
        t0 = time.time()
        base = {(o[0], o[1]) for o in r.bad()}
        return _drive(_jobs(prop, mod, env, r, random.Random(seed)), base, t0)
    return run


def _jobs(prop, mod, env, r, rnd):
    texts, muts, same = {}, [], []
    for fn in _fns(env, r):
        rel = fn.mod.rel
        if rel not in texts:
            texts[rel] = env.ctx.read(rel)
        ls = [n.lineno for n in ast.walk(fn.node) if hasattr(n, 'lineno')]
        doc = set()
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
                doc |= set(range(n.lineno - 1, getattr(n, 'end_lineno', n.lineno) or n.lineno))
        for i, nl in _mutants(texts[rel], fn.node.lineno, max(ls) - 1):
            if i in doc:
                continue
            muts.append((rel, i, nl, fn.qual))
    rnd.shuffle(muts)
    jobs = []
    for rel, i, nl, q in muts[:2000]:
        L = texts[rel].split('\n')
        what = ('change', '%s line %d (%s): %s => %s' % (rel, i + 1, q, L[i].strip()[:90], nl.strip()[:90]))
        jobs.append((mod.__name__, prop, rel, (i, nl), what))
    for rel in texts:
        for name, a, b in SAME:
            for k in range(3):
                rk = random.Random(rnd.random())
                s = re.sub(a, lambda m: m.expand(b) if rk.random() < .5 else m.group(0), texts[rel])
                if s != texts[rel]:
                    same.append((mod.__name__, prop, rel, s, ('rewrite', '%s in %s' % (name, rel))))
    rnd.shuffle(same)
    out = []
    while jobs or same:         # one rewrite for every three changes
        out += same[:1]
        same = same[1:]
        out += jobs[:3]
        jobs = jobs[3:]
    return out, texts


def _drive(jt, base, t0):
    jobs, texts = jt
    end = t0 + _budget()

    def expand():
        for m, p, rel, t, w in jobs:
            if isinstance(t, tuple):
                L = texts[rel].split('\n')
                L[t[0]] = t[1]
                t = '\n'.join(L)
            yield m, p, t, rel, w, base
    n = min(8, os.cpu_count() or 2)
    res, left, stopped = [], [], 0
    gen = expand()
    with multiprocessing.get_context('fork').Pool(n, maxtasksperchild=20) as pool:
        run = set()
        while True:
            while len(run) < n and time.time() < end:
                j = next(gen, None)
                if j is None:
                    break
                run.add(pool.apply_async(_judge, (j,)))
            if not run:
                break
            done = {a for a in run if a.ready()}
            for a in done:
                res.append(a.get())
            run -= done
            if time.time() > end + 200:
                stopped = len(run)
                pool.terminate()
                break
            if not done:
                time.sleep(.05)
    ch = [(w[1], v) for w, v in res if w[0] == 'change']
    rw = [(w[1], v) for w, v in res if w[0] == 'rewrite']
    miss = [w for w, v in ch if v == 'quiet']
    return {'explanation': __doc__.strip(),
            'changes': len(ch), 'changes_reported': sum(v == 'reported' for _, v in ch),
            'changes_without_answer': [(w, v) for w, v in ch if v not in ('reported', 'quiet')][:20],
            'changes_not_reported': miss[:60],
            'rewrites': len(rw), 'rewrites_reported': [w for w, v in rw if v == 'reported'],
            'rewrites_without_answer': [(w, v) for w, v in rw if v not in ('reported', 'quiet')],
            'possible_changes': sum(1 for j in jobs if j[4][0] == 'change'), 'unfinished': stopped,
            'seconds': round(time.time() - t0, 1)}
