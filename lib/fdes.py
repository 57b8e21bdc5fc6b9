"""C05, bounded: programs with definitions, enumerations, structs, arrays, sets, counting and contracts go through the real parser,
type checker and desugar; every specification is compared with its meaning, computed from the source by this file alone."""
import random
from fpy import *
import fpy
HEAD = 'STRUCT\n Qs: {m: bool; n: int;}; Wr: {q: Qs; k: bool;}; Al: {l: bool[]; j: int;};\nENUM\n E: {A1: 1, A2: 3, A3: 4};\nINPUT\n a,b,c: bool; u,v: int; g,h: E; w: bool[3]; z: int[2];\n'
NM = [('a', 'a'), ('b', 'a'), ('c', 'a'), ('u', 'i'), ('v', 'i'), ('g', 'i'), ('h', 'i')] + [(f'w[{i}]', 'a') for i in range(3)] + [(f'z[{i}]', 'i') for i in range(2)]
ST = {'Qs': {'m': 'B', 'n': 'I'}, 'Wr': {'q': 'Qs', 'k': 'B'}, 'Al': {'l': ('arr', 'B', None), 'j': 'I'}}
EN = {'A1': 1, 'A2': 3, 'A3': 4}
class G:
    """source text and meaning (a function of the bound variables) of random expressions of a type:
    B, I, E (enumeration), the structs, ('arr', type, size)"""
    def __init__(s, rng, past, safe):
        s.r, s.past, s.safe, s.defs, s.labels, s.k = rng, past, safe, [], [], 0      # safe: no count over formulas
    def names(s, t, env):
        return [x for x in s.defs + env if fit(x[1], t)]
    def paths(s, t, env):
        """names, members and elements of type t"""
        out = []
        def go(txt, ty, den, bound, d):
            if fit(ty, t): out.append((txt, den))
            if d == 0: return
            if isinstance(ty, str) and ty in ST:
                for m, mt in ST[ty].items():
                    if not bound or not isinstance(mt, tuple) or t == mt or isinstance(t, tuple): go(f'{txt}.{m}', mt, lambda e, m=m: den(e)[m], bound or isinstance(mt, tuple), d-1)
            if isinstance(ty, tuple) and not bound and ty[2]:
                for i in range(ty[2]): go(f'{txt}[{i}]', ty[1], lambda e, i=i: den(e)[i], bound, d-1)
        for x in s.defs + [('w', ('arr', 'B', 3), lambda e: [('a', f'w[{i}]') for i in range(3)]), ('z', ('arr', 'I', 2), lambda e: [('i', f'z[{i}]') for i in range(2)])]: go(*x[:3], False, 2)
        for x in env: go(*x[:3], True, 2)
        return out
    def B(s, d, env, bz=False):
        r = s.r; q = r.random()
        if d <= 0 or q < .12:
            p = s.paths('B', env); o = r.random()
            if env and r.random() < .75:
                p2 = [x for x in p if any(x[0].split('.')[0].split('[')[0] == y[0] for y in env)]; p = p2 or p
            if p and o < .6: return r.choice(p)
            if o < .7: t, x = s.E(env); i, j = r.choice(list(EN.items())); op = r.choice(['==', '!=']); return f'({t} {op} {i})', lambda e: ('cmp', op, x(e), ('k', j))
            if o < .8:
                op = r.choice(list(CMP)); (t1, x1), (t2, x2) = s.I(1, env), s.I(r.choice([0, 0, 1]), env); return f'({t1} {op} {t2})', lambda e: ('cmp', op, x1(e), x2(e))
            n = r.choice('abc'); return n, lambda e: ('a', n)
        if q < .45:
            k = r.choice(['foreach', 'forsome', 'forexactly', 'foratleast', 'foratmost', 'foreach', 'forsome'])
            cnt = k not in ('foreach', 'forsome')
            ty = r.choice(['B', 'B', 'I', 'Qs', 'Wr', 'E', 'Al'] if not env else ['B', 'I', 'Qs'])
            txt, den = s.arr(ty, env, d-1)
            s.k += 1; v = f'y{s.k}' if r.random() < .8 or not s.defs else r.choice([x[0] for x in s.defs])
            if any(v == x[0] for x in env): v = f'y{s.k}'
            env2 = [x for x in env if x[0] != v] + [(v, ty, lambda e, v=v: e[v])]
            hide = [x for x in s.defs if x[0] == v]; s.defs = [x for x in s.defs if x[0] != v]
            bt, bd = s.B(0 if (cnt and s.safe) or bz else d-1-len(env), env2, bz or (cnt and s.safe)); s.defs += hide
            body = lambda e: [bd({**e, v: x}) for x in den(e)]
            if not cnt: return f'{k}({v}:{txt})({bt})', lambda e: fold('&&' if k == 'foreach' else '||', body(e))
            nt, nd = r.choice([lambda: (lambda i: (str(i), lambda e: ('k', i)))(r.choice([0, 1, 1, 2, 3])), lambda: s.I(0, env)])()
            return f'{k}({v}:{txt}, {nt})({bt})' if False else f'{k}({v}:{txt},{nt})({bt})', lambda e: ('cmp', {'forexactly': '==', 'foratleast': '>=', 'foratmost': '<='}[k], ('cnt',) + tuple(body(e)), nd(e))
        if q < .52:
            ty = r.choice(['B', 'I', 'I']); n = r.choice([1, 2, 3]); op = r.choice(['==', '!='] + (['<', '>', '<=', '>='] if ty == 'I' else []))
            (t1, d1), (t2, d2) = s.arr(ty, [], 0, n), s.arr(ty, [], 0, n)
            return f'({t1} {op} {t2})', lambda e: fold('&&', [(('==', x, y) if op == '==' else ('xor', x, y)) if ty == 'B' else ('cmp', op, x, y) for x, y in zip(d1(e), d2(e))])
        if bz: return s.B(0, env, bz)
        k = r.choice(['!', '&&', '||', '->', '<->'] + (['H', 'O', 'S', 'T'] if s.past else ['G', 'F', 'U', 'R']))
        if k == '!': t, x = s.B(d-1, env); return f'!({t})', lambda e: ('!', x(e))
        (t1, x1), (t2, x2) = s.B(d-1, env), s.B(d-1, env)
        if k in BIN: return f'({t1} {k} {t2})', lambda e: (k, x1(e), x2(e))
        l = r.choice([0, 0, 1, 2]); h = l + r.choice([0, 1, 2])
        if k in 'GFHO': return f'{k}[{l},{h}]({t1})', lambda e: (k, l, h, x1(e))
        return f'(({t1}) {k}[{l},{h}] ({t2}))', lambda e: (k, l, h, x1(e), x2(e))
    def I(s, d, env):
        r = s.r; p = s.paths('I', env)
        if d > 0 and r.random() < .5: k = r.choice('+-'); (t1, x1), (t2, x2) = s.I(d-1, env), s.I(0, env); return f'({t1} {k} {t2})', lambda e: (k, x1(e), x2(e))
        if p and r.random() < .7: return r.choice(p)
        if r.random() < .3: n = r.choice([1, 2, 3]); return str(n), lambda e: ('k', n)
        n = r.choice('uv'); return n, lambda e: ('i', n)
    def E(s, env):
        p = s.paths('E', env) + [(n, lambda e, n=n: ('i', n)) for n in 'gh']; return s.r.choice(p)
    def of(s, ty, env, d):
        """an expression of the type"""
        r = s.r; p = s.paths(ty, env)
        if p and r.random() < .5: return r.choice(p)
        if ty == 'B': return s.B(0 if s.safe else d, env)
        if ty == 'I': return s.I(1, env)
        if ty == 'E': return s.E(env)
        if isinstance(ty, tuple): return s.arr(ty[1], env, d, ty[2])
        ms = {m: s.of(t, env, 0) if not isinstance(t, tuple) else s.arr(t[1], env, 0) for m, t in ST[ty].items()}
        return f'{ty}({",".join(t for t, _ in ms.values())})', lambda e: {m: x(e) for m, (_, x) in ms.items()}
    def arr(s, ty, env, d, n=None):
        r = s.r
        p = [x for x in s.paths(('arr', ty, n), env)]
        if p and r.random() < .4: return r.choice(p)
        big = [x for x in s.defs + [('w', ('arr', 'B', 3), lambda e: [('a', f'w[{i}]') for i in range(3)])] if isinstance(x[1], tuple) and x[1][1] == ty and x[1][2]]
        if big and r.random() < .35:
            t, at, den = r.choice(big)[:3]; i = r.randrange(at[2]); j = r.randrange(i, at[2])
            if n is None or j - i + 1 == n: return f'{t}[{i}..{j}]', lambda e: den(e)[i:j+1]
        l = [s.of(ty, env, d) for _ in range(n or r.choice([1, 2, 2, 3, 4]))]
        return '{' + ','.join(t for t, _ in l) + '}', lambda e: [x(e) for _, x in l]
def fit(have, want):
    if isinstance(have, tuple) and isinstance(want, tuple): return have[1] == want[1] and (want[2] is None or have[2] == want[2])
    return have == want
def fold(op, l):
    r = l[0]
    for x in l[1:]: r = (op, r, x)
    return r
def program(rng, safe):
    """(source, [meaning per formula number])"""
    g = G(rng, False, safe); src = HEAD; ds = []
    for i in range(rng.choice([0, 1, 2, 3, 4])):
        ty = rng.choice(['B', 'B', 'I', 'Qs', 'Wr', 'Al', ('arr', 'B', rng.choice([1, 2, 3])), ('arr', 'I', 2), ('arr', 'Qs', 2)])
        one = [x for x in g.defs if x[1] == ty]
        if one and rng.random() < .25: t, x = one[-1][0], one[-1][2]           # an alias
        else:
            past = g.past; t, x = (plain(g) if ty == 'B' else g.of(ty, [], 0))
        ds.append(f'{"dq"[i%2]}{i} := {t};'); g.defs.append((f'{"dq"[i%2]}{i}', ty, (lambda x: lambda e: x({}))(x)))
    if ds: src += 'DEFINE\n ' + ' '.join(ds) + '\n'
    den = []
    side = rng.choice(['f', 'f', 'p', 'fp'])
    for s in 'fp':
        if s not in side: continue
        g.past = s == 'p'; src += ('PT' if g.past else 'FT') + 'SPEC\n'; keep = list(g.defs)
        for i in range(rng.choice([1, 1, 2, 3])):
            d = rng.choice([0, 1, 2, 2, 3])
            t, x = g.B(d, [])
            if rng.random() < .2:
                t2, x2 = g.B(rng.choice([0, 1]), []); src += f' k{s}{i}: ({t}) => ({t2});\n'
                den += [x({}), ('->', x({}), x2({})), ('&&', x({}), x2({}))]
            elif rng.random() < .4:
                src += f' f{s}{i}: {t};\n'; den.append(x({})); g.defs.append((f'f{s}{i}', 'B', (lambda x: lambda e: x({}))(x)))
            else: src += f' {t};\n'; den.append(x({}))
        g.defs = keep
    return src, den
def plain(g):
    """a definition without temporal operators (used in both kinds of specification)"""
    for _ in range(30):
        t, x = g.B(g.r.choice([0, 1, 2]), [])
        if not any(k + '[' in t.replace('w[', '').replace('z[', '') for k in 'GFURHOST') and 'for' not in t: return t, x
    return 'a', lambda e: ('a', 'a')
def case(src, den, rng, passes=()):
    f = write('d.c2po', src); c = Console()
    c.run('enable_booleanizer', f'parse_c2po {f}', 'type_check', 'desugar')
    if not c.ok: return None if 'KeyError' not in c.text and 'internal' not in c.text else False, c.text[-400:]
    try: c.run(*passes)
    except Exception as e: return True, f'{" ".join(passes)}: {type(e).__name__}: {e}'
    import c2po.cpt as cpt
    got = c.program.get_specs()
    if len(got) != len(den): return True, f'{len(den)} specifications denoted, {len(got)} after desugaring'
    for i, (s, e) in enumerate(zip(den, got)):
        if not isinstance(e, cpt.Formula) or e.formula_number != i: return True, f'specification {i} becomes {type(e).__name__} number {getattr(e, "formula_number", None)}'
        try: d = differ(s, e, rng, 4, 4)
        except NotImplementedError as x: d = f'{x} is left in it'
        if d: return True, f'specification {i} (meaning {show(s)}) becomes {cpt.to_infix_str(e.get_expr())}: {d}'
    return 0, None
def fals_C05(seed, rounds):
    rng = random.Random(seed); n = acc = 0; samples = []; work = []
    for _ in range(rounds):
        safe = rng.random() < .5
        try: src, den = program(rng, safe)
        except RecursionError: continue
        if any(size(x) > 300 or hor(x) > 30 for x in den): continue
        n += 1
        r, why = case(src, den, rng, rng.choice([(), (), DEFAULT, ('optimize_cse',)]))
        if r is True: return dict(bad=f'{src}: {why}', n=n, nontrivial=acc, samples=samples)
        if r == 0:
            acc += 1
            if len(samples) < 2 and len(src) < 700: samples.append(src[len(HEAD):][:400])
            if safe and len(src) < 1200 and acc % 4 == 0: work.append((src, den))
        if len(work) >= 8:
            bad = run(work, rng); work = []
            if bad: return dict(bad=bad, n=n, nontrivial=acc, samples=samples)
    return dict(bad=None, n=n, nontrivial=acc, samples=samples)
def run(work, rng):
    """end to end on the monitor"""
    cases, back = [], []
    for src, den in work:
        try: b, con = assemble(src, [x for x, _ in NM], True)
        except Exception as e: return f'{src}: {type(e).__name__} {e}'
        if b is None: continue
        for _ in range(2):
            tr = trace(rng, NM, 10); cases.append((b, tr)); back.append((src, den))
    if not cases: return None
    for (b, tr), (src, den), (st, vs, txt) in zip(cases, back, monitor(cases, [x for x, _ in NM])):
        r = judge(den, tr, st, vs, txt)
        if r: return f'{src}: {r}; trace {shows(tr)}'
    return None
