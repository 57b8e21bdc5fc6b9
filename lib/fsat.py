"""C07, bounded: random formulas through the real commands check_sat and check_equiv with every encoding and the installed solver, against an own decision of
satisfiability over all short traces (formulas written out step by step)."""
import random, shutil
from fpy import *
import z3
KEY = 'strict-short-traces'
def gen(r, d, ints, neg=True):
    q = r.random()
    if d <= 0 or q < .12:
        if ints and r.random() < .6: return ('rel', r.choice(['==', '!=', '<', '<=', '>', '>=']), num(r, 2), num(r, 1))
        return ('at', r.choice('abc')) if r.random() < .93 else ('k', r.random() < .5)
    g = lambda: gen(r, d - 1, ints); lo = r.choice([0, 0, 0, 1, 2]); iv = (lo, lo + r.choice([0, 1, 1, 2, 3]))
    o = r.choice(['!', '!', '&&', '&&', '||', '->', '<->', 'G', 'G', 'F', 'F', 'U', 'U', 'R'])
    if o == '!': return ('!', g())
    if o in ('G', 'F'): return (o, iv, g())
    if o in ('U', 'R'): return (o, iv, g(), g())
    return (o, g(), g())
def num(r, d):
    if d <= 0 or r.random() < .35: return ('var', r.choice('uv')) if r.random() < .6 else ('n', r.choice([0, 1, 2, 3, 7, -1, -2, -7]))
    o = r.choice(['+', '-', '*', '/', '%', 'neg'])
    if o == 'neg': return ('neg', num(r, d - 1))
    if o in '/%': return (o, num(r, d - 1), ('n', r.choice([1, 2, 3, 5, -2, -3])))
    if o == '*': return (o, num(r, d - 1), ('n', r.choice([2, 3, -2])))
    return (o, num(r, d - 1), num(r, d - 1))
def show(e):
    o = e[0]
    if o in ('at', 'var'): return e[1]
    if o == 'n': return str(e[1]) if e[1] >= 0 else f'({e[1]})'
    if o == 'k': return 'true' if e[1] else 'false'
    if o == '!': return f'!({show(e[1])})'
    if o == 'neg': return f'(-({show(e[1])}))'
    if o in 'GF': return f'({o}[{e[1][0]},{e[1][1]}] ({show(e[2])}))'
    if o in 'UR': return f'(({show(e[2])}) {o}[{e[1][0]},{e[1][1]}] ({show(e[3])}))'
    if o == 'rel': return f'({show(e[2])} {e[1]} {show(e[3])})'
    return f'({show(e[1])} {o} {show(e[2])})'
def depth(e):
    o = e[0]
    if o in ('at', 'k', 'rel'): return 0
    if o in 'GFUR': return e[1][1] + max(depth(x) for x in e[2:])
    return max(depth(x) for x in e[1:])
def uses(e, s): return e[0] in s or any(uses(x, s) for x in e[1:] if isinstance(x, tuple) and x and isinstance(x[0], str))
def nval(e, t):
    o = e[0]
    if o == 'var': return z3.Int(f'{e[1]}{t}')
    if o == 'n': return z3.IntVal(e[1])
    a = nval(e[1], t)
    if o == 'neg': return -a
    b = nval(e[2], t)
    if o == '+': return a + b
    if o == '-': return a - b
    if o == '*': return a * b
    q = z3.If(a >= 0, a / b, -((-a) / b))
    return q if o == '/' else a - b * q
def val(e, t, n, how, memo):
    """truth at time t of a trace of length n; 'doc': the documented semantics, 'cut': only times inside the trace count"""
    k = (id(e), t)
    if k in memo: return memo[k]
    o = e[0]; V = lambda x, s: val(x, s, n, how, memo); T, F = z3.BoolVal(True), z3.BoolVal(False)
    if o == 'at': r = z3.Bool(f'{e[1]}{t}') if t < n else F
    elif o == 'k': r = T if e[1] else F
    elif o == 'rel':
        a, b = nval(e[2], t), nval(e[3], t); r = {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[e[1]] if t < n else F
    elif o == '!': r = z3.Not(V(e[1], t))
    elif o == '&&': r = z3.And(V(e[1], t), V(e[2], t))
    elif o == '||': r = z3.Or(V(e[1], t), V(e[2], t))
    elif o == '->': r = z3.Or(z3.Not(V(e[1], t)), V(e[2], t))
    elif o == '<->': r = V(e[1], t) == V(e[2], t)
    else:
        (l, u) = e[1]; ts = range(t + l, t + u + 1) if how == 'doc' else range(t + l, min(t + u, n - 1) + 1)
        if o == 'G': r = T if n <= t + l else z3.And([V(e[2], s) for s in ts])
        elif o == 'F': r = F if n <= t + l else z3.Or([V(e[2], s) for s in ts])
        elif o == 'U': r = F if n <= t + l else z3.Or([z3.And([V(e[3], s)] + [V(e[2], q) for q in range(t + l, s)]) for s in ts])
        else: r = T if n <= t + l else z3.And([z3.Or([V(e[3], s)] + [V(e[2], q) for q in range(t + l, s)]) for s in ts])
    memo[k] = r; return r
def solve(e, n, how):
    s = z3.Solver(); s.set('timeout', 3000); s.add(val(e, 0, n, how, {})); r = s.check(); return None if r == z3.unknown else r == z3.sat
def truth(e, strict, how):
    """is there a trace: long enough, or (strict) of any length"""
    m = depth(e) + 1
    if not strict: return solve(e, m, how)
    rs = [solve(e, n, how) for n in range(1, m + 1)]
    return True if True in rs else None if None in rs else False
def wanted(e, th, strict, ans):
    """None if the answer is right, the key of a known finding, or a text"""
    if ans not in ('sat', 'unsat'): return None
    got = ans == 'sat'; ref = truth(e, strict, 'doc')
    if ref is None or got == ref: return None
    if strict:
        if got and solve(e, 0, 'doc'): return None                          # the empty trace
        if th != 'uflia' and truth(e, True, 'cut') == got: return KEY
    return f'answers {ans}, but {"some" if ref else "no"} trace satisfies it'
def case(rng, seen):
    ints = rng.random() < .3; n = rng.choice([1, 1, 1, 2, 3]); d = rng.choice([1, 2, 2, 3, 3]); fs = [gen(rng, d, ints) for _ in range(n)]
    if rng.random() < .3: fs[0] = ('&&', fs[0], ('!', fs[0])) if rng.random() < .5 else ('<->', fs[0], ('!', fs[0]))
    if rng.random() < .3 and n > 1: fs[1] = rng.choice([('!', ('!', fs[0])), ('||', fs[0], fs[0]), ('!', fs[0])])
    return judge(fs, [th for th in (('uflia', 'qf_uflia', 'qf_bv') if not ints else ('uflia', 'qf_uflia'))], rng, seen, ints)
def judge(fs, ths, rng, seen, ints, stricts=None):
    n = len(fs); src = 'INPUT a,b,c: bool; u,v: int;\nFTSPEC\n' + ''.join(f'l{i}: {show(f)};\n' for i, f in enumerate(fs)) if ints else 'INPUT a,b,c: bool;\nFTSPEC\n' + ''.join(f'l{i}: {show(f)};\n' for i, f in enumerate(fs))
    p = write('s.c2po', src); nt = 0; done = None
    for th in ths:
        strict = rng.random() < .3 if stricts is None else stricts
        c = Console()
        try: c.run(*(['enable_booleanizer'] if ints else []), f'parse_c2po {p}', 'type_check', 'desugar', *(['remove_extended_operators'] if th == 'qf_bv' else []), f'check_sat {th} --print --smt-max-time 3' + (' --strict' if strict else ''))
        except Exception as x: return f'{th}: {type(x).__name__}: {x}: {src!r}', nt, src
        conj = fs[0]
        for f in fs[1:]: conj = ('&&', conj, f)
        for l in c.text.split('\n'):
            lab, _, ans = l.rpartition(' : ')
            if ans not in ('sat', 'unsat'): continue
            e = conj if lab == 'program' else fs[int(lab[1:])] if lab[:1] == 'l' and lab[1:].isdigit() and int(lab[1:]) < n else None
            if e is None: continue
            nt += 1; w = wanted(e, th, strict, ans)
            if w == KEY: seen.add(KEY); continue
            if w: return f'check_sat {th}{" --strict" if strict else ""}: {lab} {w}: {src!r}', nt, src
        if n == 2:
            c = Console()
            try: c.run(*(['enable_booleanizer'] if ints else []), f'parse_c2po {p}', 'type_check', 'desugar', *(['remove_extended_operators'] if th == 'qf_bv' else []), f'check_equiv {th} --smt-max-time 3')
            except Exception as x: return f'check_equiv {th}: {type(x).__name__}: {x}: {src!r}', nt, src
            ans = [l for l in c.text.split('\n') if l in ('equiv', 'not-equiv')]
            if ans:
                nt += 1; t = truth(('!', ('<->', fs[0], fs[1])), False, 'doc')
                if t is not None and (ans[-1] == 'not-equiv') != t: return f'check_equiv {th} answers {ans[-1]}, but the formulas are {"not " if t else ""}equivalent: {src!r}', nt, src
    return None, nt, src
WITNESS = [('&&', ('at', 'a'), ('&&', ('G', (0, 1), ('at', 'a')), ('G', (1, 1), ('!', ('at', 'a')))))]
def fals_C07(seed, rounds):
    rng = random.Random(seed); n = nt = 0; smp = []; seen = set()
    import check; keys = {k for _, k in check.known()}
    for th in ('uflia', 'qf_uflia', 'qf_bv') if shutil.which('z3') else ():
        b, k, _ = judge(WITNESS, [th], rng, seen, False, True); nt += k
        if b: return dict(bad=b, n=n, nontrivial=nt, samples=smp)
    for k in range(rounds):
        b, c, w = case(rng, seen); n += 1; nt += c > 0
        if b: return dict(bad=b.replace('\n', ' '), n=n, nontrivial=nt, samples=smp)
        if seen - keys: return dict(bad=f'{seen}: strict answers contradict each other: {w!r}', n=n, nontrivial=nt, samples=smp)
        if c and len(smp) < 2: smp.append(w)
    import check
    return dict(bad=None, n=n, nontrivial=nt, samples=smp, known=[h.split(None, 2)[2] + f' key={k}' if len(h.split(None, 2)) > 2 else k for h, k in check.known() if k in seen])
if __name__ == '__main__':
    import sys, time; quiet(); t = time.time(); print(fals_C07(int(sys.argv[1]), int(sys.argv[2])), time.time() - t)
