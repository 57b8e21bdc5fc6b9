"""C11, bounded: random specifications in concrete syntax (random and minimal parentheses) parsed by the real parser against an own operator-precedence parser; written by the real
commands (also after passes) and parsed again; the same for the MLTL standard format."""
import random, os
from fpy import *
import fpy, fdes, fbnd
LV = [['->', 'xor', '<->'], ['||'], ['&&'], ['U', 'R', 'S', 'T'], ['G', 'F', 'H', 'O'], ['|'], ['^'], ['&'], ['==', '!='], ['>', '<', '>=', '<='], ['<<', '>>'], ['+', '-'], ['*', '/', '%', 'pow'], ['!', '~', 'neg'], ['post']]
LEVEL = {o: i for i, l in enumerate(LV) for o in l}
MLV = [['->', '<->'], ['|'], ['&'], ['U', 'R', 'S', 'T'], ['!', 'G', 'F', 'H', 'O']]; MLEVEL = {o: i for i, l in enumerate(MLV) for o in l}
TB, TU = 'URST', 'GFHO'
def word(rng): return rng.choice(['a', 'b', 'c', 'zz', 'previous', 'prev1', 'true_', 'Gx', 'x_1', 'A9', 'xort', 'U2', '_q', 'INPUTS', 'a0', 'e1', 'nota'])
def number(rng): return rng.choice([0, 1, 2, 10, 305, 4294967295, 10**20, rng.randrange(1000)])
def deci(rng): return rng.choice(['0.5', '.25', '-.5', '123.0', '0.0000001', '99999999999999999999.5', '-7.125', '3.141592653589793', '0.1', '00.5', '1000000000000000000000.0'])
SIG = {'a', 'b', 'c'}
# ------------------------------------------------------------------ token lists and their reading
def flatgen(rng, depth, ops, mltl, past=None):
    """a random list of tokens of an expression; strings, and (tree, text) pairs for what is atomic"""
    T = []
    while rng.random() < .35:
        o = rng.choice(['!', 'G', 'F'] if mltl and not past else ['!', 'H', 'O'] if mltl else ['!', '~', 'neg', 'G', 'F', 'H', 'O']); T.append(('pre', o, interval(rng)))
    T.append(primary(rng, depth, ops, mltl, past))
    if not mltl:
        while rng.random() < .15:
            q = rng.randrange(3); T.append(('post', *[('idx', number(rng)), ('slice', number(rng), number(rng)), ('mem', word(rng))][q]))
    if rng.random() < (.6 if depth else .35) and ops[0] > 0:
        ops[0] -= 1
        o = rng.choice(['->', '<->', '|', '&'] + (['S', 'T'] if past else ['U', 'R'])) if mltl else rng.choice([o for i, l in enumerate(LV) for o in l if o not in ('!', '~', 'neg', 'post', *TU)])
        T.append(('bin', o, interval(rng))); T += flatgen(rng, depth, ops, mltl, past)
    return T
def interval(rng):
    if rng.random() < .3: n = number(rng); return (0, n, f'[{n}]')
    a, b = number(rng), number(rng)
    if rng.random() < .8: a, b = min(a, b), max(a, b)
    return (a, b, rng.choice([f'[{a},{b}]', f'[{a}, {b}]', f'[ {a} ,{b}]']))
def primary(rng, depth, ops, mltl, past):
    def sub(): return flatgen(rng, depth - 1, [rng.choice([0, 1, 2])], mltl, past)
    if mltl:
        if depth and rng.random() < .3: return ('par', sub())
        return ('leaf', *rng.choice([(('true',), 'true'), (('false',), 'false')] + [(('sig', f'a{i}'), f'a{i}') for i in (0, 1, 2, 10, 37)]*2))
    if not depth or rng.random() < .55:
        w = word(rng); n = number(rng) * rng.choice([1, 1, -1]); d = deci(rng)
        return ('leaf', *rng.choice([((('sig' if w in SIG else 'var'), w), w)]*4 + [(('const', n), str(n)), (('const', float(d)), d), (('const', True), 'true'), (('const', False), 'false'), (('tau',), 'TAU')]))
    q = rng.randrange(7)
    if q <= 1: return ('par', sub())
    if q == 2: return ('args', 'arr', [sub() for _ in range(rng.randrange(4))])
    if q == 3: return ('args', ('call', word(rng)), [sub() for _ in range(rng.randrange(4))])
    if q == 4: return ('args', rng.choice(['sqrt', 'abs']), [sub()])
    if q == 5: return ('args', 'prev', [sub(), sub()])
    k = rng.choice(['foreach', 'forsome', 'forexactly', 'foratleast', 'foratmost']); return ('agg', k, word(rng), sub(), sub() if k in ('forexactly', 'foratleast', 'foratmost') else None, sub())
def text(rng, T, sp=None):
    o = ''; 
    for t in T:
        if t[0] == 'pre': o += '- ' if t[1] == 'neg' else t[1] + (t[2][2] + rng.choice(['', ' ']) if t[1] in TU else rng.choice(['', ' ']))
        elif t[0] == 'leaf': o += t[2]
        elif t[0] == 'par': o += '(' + text(rng, t[1]) + ')'
        elif t[0] == 'post': o += {'idx': lambda: f'[{t[2]}]', 'slice': lambda: f'[{t[2]}..{t[3]}]', 'mem': lambda: f'.{t[2]}'}[t[1]]()
        elif t[0] == 'bin': o += ' ' + t[1] + (t[2][2] if t[1] in TB else '') + ' '
        elif t[0] == 'args' and t[1] in ('sqrt', 'abs') and len(t[2][0]) == 1 and t[2][0][0][1] not in ('sqrt', 'abs') and rng.random() < .5: o += t[1] + ' ' + text(rng, t[2][0])
        elif t[0] == 'args':
            a = rng.choice([', ', ',']).join(text(rng, x) for x in t[2]); o += '{' + a + '}' if t[1] == 'arr' else (t[1][1] if isinstance(t[1], tuple) else t[1]) + '(' + a + ')'
        elif t[0] == 'agg': o += f'{t[1]}({t[2]}: {text(rng, t[3])}' + (f', {text(rng, t[4])}' if t[4] is not None else '') + f')({text(rng, t[5])})'
    return o
def read(T, lev):
    """the tree of a token list: operators of a higher level bind tighter, all to the left"""
    pos = 0
    def expr(mn):
        nonlocal pos
        t = T[pos]; pos += 1
        if t[0] == 'pre': l = ('tu', t[1], t[2][0], t[2][1], expr(lev[t[1]])) if t[1] in TU else ('un', t[1], expr(lev[t[1]]))
        elif t[0] == 'leaf': l = t[1]
        elif t[0] == 'par': l = read(t[1], lev)
        elif t[0] == 'args' and t[1] in ('sqrt', 'abs'):       # prefix operators: member and index bind tighter
            l = read(t[2][0], lev)
            while pos < len(T) and T[pos][0] == 'post': l = T[pos][1:2] + (l,) + T[pos][2:]; pos += 1
            l = ('args', t[1], (l,))
        elif t[0] == 'args': l = ('args', t[1], tuple(read(x, lev) for x in t[2]))
        else: l = ('agg', t[1], t[2], read(t[3], lev), None if t[4] is None else read(t[4], lev), read(t[5], lev))
        while pos < len(T):
            t = T[pos]
            if t[0] == 'post': pos += 1; l = t[1:2] + (l,) + t[2:]; continue
            if lev[t[1]] <= mn: break
            pos += 1; r = expr(lev[t[1]]); l = ('tb', t[1], t[2][0], t[2][1], l, r) if t[1] in TB else ('bin', t[1], l, r)
        return l
    r = expr(-1); assert pos == len(T); return r
def conv(e):
    """the same tree from a node of C2PO (n-ary operators to the left)"""
    import c2po.cpt as cpt
    if isinstance(e, cpt.Constant): return ('const', e.value)
    if isinstance(e, cpt.CurrentTimestamp): return ('tau',)
    if isinstance(e, cpt.Signal):
        if e.symbol.endswith(']'): n, i = e.symbol[:-1].rsplit('[', 1); return ('idx', ('var', n), int(i))
        return ('sig', e.symbol)
    if isinstance(e, cpt.Variable): return ('var', e.symbol)
    if isinstance(e, cpt.ArraySlice): return ('slice', conv(e.children[0]), e.start, e.stop)
    if isinstance(e, cpt.ArrayIndex): return ('idx', conv(e.children[0]), e.index)
    if isinstance(e, cpt.StructAccess): return ('mem', conv(e.children[0]), e.member)
    if isinstance(e, cpt.ArrayExpression): return ('args', 'arr', tuple(map(conv, e.children)))
    if isinstance(e, (cpt.FunctionCall, cpt.Struct)): return ('args', ('call', e.symbol), tuple(map(conv, e.children)))
    if isinstance(e, cpt.SetAggregation): return ('agg', e.operator.value, e.bound_var.symbol, conv(e.get_set()), conv(e.get_num()) if e.get_num() is not None else None, conv(e.get_expr()))
    if isinstance(e, cpt.Atomic): return conv(e.children[0])
    if isinstance(e, cpt.TemporalOperator): return ('tu' if len(e.children) == 1 else 'tb', e.operator.value, e.interval.lb, e.interval.ub, *map(conv, e.children))
    o = e.operator.value; c = [conv(x) for x in e.children]
    if o in ('sqrt', 'abs', 'prev'): return ('args', o, tuple(c))
    if len(c) == 1: return ('un', 'neg' if o == '-' else o, c[0])
    l = c[0]
    for x in c[1:]: l = ('bin', o, l, x)
    return l
def strict(x): return (type(x).__name__, x) if not isinstance(x, tuple) else tuple(map(strict, x))
ML = {'&&': '&', '||': '|'}
def mltree(t): return tuple(mltree(x) if isinstance(x, tuple) else x for x in ((t[0], ML.get(t[1], t[1])) + t[2:] if t[0] == 'bin' else ('true',) if t == ('const', True) else ('false',) if t == ('const', False) else t))
# ------------------------------------------------------------------ cases
def parse(cmd, path, *more):
    c = Console()
    with alarm(20): c.run(*more, f'{cmd} {path}')
    p = c.c.program
    return (None if p is None or p.is_dummy or not c.ok else p), c
class alarm:
    """a parser that does not come to an end is a failure"""
    def __init__(s, n): s.n = n
    def __enter__(s):
        import signal
        def boom(*a): raise TimeoutError('does not come to an end')
        s.old = signal.signal(signal.SIGALRM, boom); signal.alarm(s.n)
    def __exit__(s, *a):
        import signal
        signal.alarm(0); signal.signal(signal.SIGALRM, s.old)
def entries(p):
    """names, kinds and trees of the sections"""
    import c2po.cpt as cpt; o = []
    for s in p.sections:
        k = type(s).__name__
        for d in getattr(s, 'struct_defs', []): o.append((k, d.symbol, [(v.variables, str(v.type)) for v in d.var_decls]))
        for d in getattr(s, 'enum_defs', []): o.append((k, d.symbol, [(v.symbol, conv(v.expr)) for v in d.var_defs]))
        for d in getattr(s, 'signal_decls', []): o.append((k, d.variables, str(d.type)))
        for d in getattr(s, 'defines', []): o.append((k, d.symbol, conv(d.expr)))
        for d in getattr(s, 'specs', []):
            if isinstance(d, cpt.Contract): o.append((k, d.symbol, tuple(d.formula_numbers), conv(d.get_assumption()), conv(d.get_guarantee())))
            else: o.append((k, d.symbol, d.formula_number, conv(d.get_expr())))
    return o
def first_diff(a, b):
    if len(a) != len(b): return f'{len(a)} entries became {len(b)}'
    return next((f'{x} became {y}' for x, y in zip(a, b) if repr(x) != repr(y)), None)
def syntax_case(rng):
    """random concrete syntax"""
    n = rng.choice([1, 1, 2, 3]); specs = []; src = 'INPUT\n a,b: bool; c: int;\n'; want = []; num = 0
    sec = rng.choice(['FTSPEC', 'PTSPEC']); src += sec + '\n'
    for i in range(n):
        Ts = [flatgen(rng, 2, [rng.choice([0, 1, 2, 3, 4])], False) for _ in range(2)]; ex = [read(t, LEVEL) for t in Ts]; tx = [text(rng, t) for t in Ts]; q = rng.random(); lab = f'l{i}_{word(rng)}'
        if q < .4: src += f' {tx[0]};\n'; want.append((f'__f{num}__', num, ex[0])); num += 1
        elif q < .8: src += f' {lab}: {tx[0]};\n'; want.append((lab, num, ex[0])); num += 1
        else: src += f' {lab}: {tx[0]} => {tx[1]};\n'; want.append((lab, (num, num+1, num+2), ex[0], ex[1])); num += 3
    try:
        p, c = parse('parse_c2po', write('s.c2po', src))
        if p is None: return f'refused: {c.text[-200:]}', src
        got = [e[1:] for e in entries(p) if e[0].endswith('SpecSection')]; d = first_diff(list(map(strict, want)), list(map(strict, got)))
        if d: return f'read as another formula: {d[:400]}', src
        f = scratch() + '/back.c2po'; c.run(f'write_c2po {f}'); t = open(f).read(); q, c2 = parse('parse_c2po', f)
        if q is None: return f'what is written cannot be read: {c2.text[-200:]}', src + '\nwritten:\n' + t
        d = first_diff(entries(p), entries(q))
        return (f'written and read back: {d[:400]}' if d else None), src + '\nwritten:\n' + t
    except Exception as e: return f'{type(e).__name__}: {e}', src
EXTRA = 'STRUCT\n S1: {m: bool; n: int;}; R1: {s: S1; k: bool[2];};\nENUM\n E: {A1: 1, B9: 2};\n F9: {C1, C2, C3: 7};\nINPUT\n a,b: bool; g: E; h: F9; u: int; w: bool[3]; x: float;\nDEFINE\n s := S1(a, u); t := {a, b}; r := R1(s, t);\nFTSPEC\n s.m && G[1,3] (g == B9);\n lab: h == C2 U[0,2] (t[1]);\n k: r.s.m => F[0,4] r.k[0];\n forexactly(y: w, 2)(y && a);\n foratmost(z: w[0..1], u)(z);\n abs(u) - 3 > -u || x < 0.0000004;\nPTSPEC\n O[0,3] (a xor b) ;\n lab2: a S[1,2] (u > 3);\n'
PASSES = ['type_check', 'desugar', *DEFAULT]
def program_case(rng):
    """typed programs written before and after any number of passes"""
    r = rng.random(); bz = True; src = EXTRA if r < .1 else fdes.program(rng, rng.random() < .8)[0] if r < .5 else fbnd.text(fbnd.program(rng, bz), bz)
    n = rng.choice([0, 1, 2, 3, 6, 8]); f = scratch() + '/b.c2po'
    p, c = parse('parse_c2po', write('p.c2po', src), 'enable_booleanizer')
    if p is None: return None, src, False
    try: c.run(*PASSES[:n])
    except Exception as e: return None, src, False
    if not c.ok: return None, src, False
    p = c.c.program
    try: a = entries(p)
    except Exception: return None, src, False
    try:
        c.run(f'write_c2po {f}'); t = open(f).read(); q, c2 = parse('parse_c2po', f, 'enable_booleanizer')
        if q is None: return f'what is written after {n} passes cannot be read: {c2.text[-200:]}', src + '\nwritten:\n' + t, True
        b = entries(q)
    except Exception as e: return f'{type(e).__name__}: {e}', src, True
    if n: a = [unnum(x) for x in a]; b = [unnum(x) for x in b]      # passes may turn variables into the signals and definitions they stand for
    d = first_diff(a, b)
    return (f'after {n} passes, written and read back: {d[:500]}' if d else None), src + '\nwritten:\n' + t, True
def unnum(x): return unvar(x)
def unvar(x):
    if isinstance(x, (tuple, list)):
        if len(x) == 2 and x[0] in ('sig', 'var'): return ('name', x[1])
        return tuple(map(unvar, x))
    return x
def mltl_case(rng):
    past = rng.random() < .3; n = rng.choice([1, 2, 3]); Ts = [flatgen(rng, 2, [rng.choice([0, 1, 2, 3, 4])], True, past) for _ in range(n)]
    want = [read(t, MLEVEL) for t in Ts]; src = ''.join(text(rng, t) + rng.choice(['', ' ']) + '\n' for t in Ts)
    try:
        p, c = parse('parse_mltl', write('m.mltl', src))
        if p is None: return f'refused: {c.text[-200:]}', src
        got = [mltree(conv(s.get_expr())) for s in p.get_specs()]
        d = first_diff(want, got)
        if d: return f'read as another formula: {d[:400]}', src
        f = scratch() + '/m2.mltl'; c.run('type_check')
        if not c.ok: return None, src
        more = rng.choice([[], ['desugar'], ['desugar', 'optimize_cse'], ['desugar', 'optimize_rewrites', 'flatten_multi_operators'], ['desugar', 'to_nnf']])
        c.run(*more, 'compute_atomics'); s0 = [mltree(conv(s.get_expr())) for s in c.c.program.get_specs()]
        c.run(f'write_mltl {f}')
        if not c.ok: return f'not written: {c.text[-200:]}', src
        t = open(f).read(); q, c2 = parse('parse_mltl', f)
        if q is None: return f'what is written cannot be read: {c2.text[-200:]}', src + '\nwritten:\n' + t
        back = [mltree(conv(s.get_expr())) for s in q.get_specs()]; d = first_diff(s0, back)
        m = c2.c.context.signal_mapping
        if not d and any(k != f'a{v}' for k, v in m.items()): d = f'mapping {m}'
        if not d:
            ids = {int(e[1][1:]) for t_ in s0 for e in leaves(t_)}
            if set(m.values()) != ids: d = f'mapping {m}'
        return (f'written and read back: {d[:400]}' if d else None), src + '\nwritten:\n' + t
    except Exception as e: return f'{type(e).__name__}: {e}', src
def leaves(t):
    if t[0] == 'sig': yield t
    for x in t:
        if isinstance(x, tuple): yield from leaves(x)
BADTXT = ['FTSPEC\n a $ && b;\n', 'FTSPEC\n a @;\n', 'FTSPEC\n a "b";\n', 'FTSPEC\n ?a;\n', "FTSPEC\n a';\n", 'FTSPEC\n a ` b;\n', 'FTSPEC\n a && ;\n', 'FTSPEC\n (a;\n', 'FTSPEC\n a b;\n', 'FTSPEC\n G a;\n', 'FTSPEC\n G[1,2;\n', 'FTSPEC\n G[-1,2] a;\n', 'FTSPEC\n a U b;\n', 'FTSPEC\n', 'FTSPEC a', 'INPUT a bool; FTSPEC a;', 'FTSPEC G[0,M] a;']
BADM = ['a0 $ & a1\n', 'a0 & b\n', 'a0 a1\n', 'G a0\n', 'a0', 'a0 &\n', '(a0\n', 'a0 xor a1\n', 'a01\n', 'G[0,1] a0 & H[0,1] a1\n', 'G[0,M] a0\n', 'a0 && a1\n']
def bad_case(rng):
    m = rng.random() < .4; t = rng.choice(BADM if m else BADTXT); pre = '' if m or 'INPUT' in t else 'INPUT\n a,b: bool;\n'
    try: p, c = parse('parse_mltl' if m else 'parse_c2po', write('x.mltl' if m else 'x.c2po', pre + t))
    except Exception as e: return f'{type(e).__name__}: {e}', pre + t
    return ('is accepted although it is not in the language' if p is not None else None), pre + t
def fals_C11(seed, rounds):
    quiet(); rng = random.Random(seed); n = nt = 0; smp = []
    for i in range(rounds):
        k = rng.getrandbits(48); r = random.Random(k); q = i % 8; judged = True
        if q in (0, 1, 2): w, s = syntax_case(r); what = 'parse_c2po, write_c2po'
        elif q in (3, 4): w, s, judged = program_case(r); what = 'write_c2po'
        elif q in (5, 6): w, s = mltl_case(r); what = 'parse_mltl, write_mltl'
        else: w, s = bad_case(r); what = 'text outside the language'
        n += 1; nt += judged
        if w: return dict(bad=f'{what}: {w}: {s!r}', n=n, nontrivial=nt, samples=smp)
        if len(smp) < 5 and q in (0, 5): smp.append(s[:300])
    return dict(bad=None, n=n, nontrivial=nt, samples=smp)
if __name__ == '__main__':
    import sys; r = fals_C11(int(sys.argv[1]), int(sys.argv[2])); print(r['n'], r['nontrivial'], str(r['bad'])[:3000])
