"""C08, bounded: random well-typed programs must pass the real parser and type checker; programs with one ill-typed expression, undeclared
or doubly declared name, or operator of the other tense must not."""
import random
from fpy import *
HEAD = 'STRUCT\n Q: {m: bool; n: int;}; Q2: {k: int;};\nENUM\n E: {A1: 1, A2: 3}; E2: {B1: 1};\nINPUT\n a,b,c: bool; u,v: int; x,y: float; g,h: E; k2: E2; w: bool[3]; z: int[2]; p: float[2];\n'
SIG = {'B': ['a', 'b', 'c', 'w[0]', 'w[2]'], 'I': ['u', 'v', 'z[0]', 'z[1]'], 'F': ['x', 'y', 'p[1]'], 'E': ['g', 'h'], 'E2': ['k2']}
BASE = ['B', 'I', 'F', 'E', 'E2', 'Q']
class G:
    def __init__(s, rng, bz, past): s.inspec = False; s.r, s.bz, s.past, s.bad, s.k, s.defs, s.want = rng, bz, past, None, 0, [], False
    def iv(s):
        lo = s.r.choice([0, 0, 1, 3]); return f'[{lo},{lo + s.r.choice([0, 1, 4])}]'
    def arr(s, t, d, env, n=None):
        r = s.r; q = r.random()
        if t == 'B' and n in (None, 3) and q < .4: return 'w', 3
        if t == 'I' and n in (None, 2) and q < .4: return 'z', 2
        if t == 'F' and n in (None, 2) and q < .4: return 'p', 2
        if t == 'B' and n in (None, 2) and q < .6: return r.choice(['w[0..1]', 'w[1..2]']), 2
        m = n or r.choice([1, 2, 3])
        return '{' + ','.join(s.gen(t, d - 1, env) for _ in range(m)) + '}', m
    def leaf(s, t, env):
        r = s.r; l = [x for x, y in env + s.defs if y == t]
        if l and r.random() < .5: return r.choice(l)
        if t == 'Q': return f'Q({s.leaf("B", env)},{s.leaf("I", env)})' if s.bz else f'Q({s.leaf("B", env)},1)'
        if t in ('I', 'F', 'E', 'E2') and not s.bz: return {'I': '3', 'F': '1.5', 'E': 'A1', 'E2': 'B1'}[t]
        if t in SIG and r.random() < .7: return r.choice(SIG[t])
        return {'B': lambda: r.choice(['true', 'false']), 'I': lambda: str(r.choice([0, 1, 7, 255])), 'F': lambda: '2.5', 'E': lambda: r.choice(['g', 'A1', 'A2']), 'E2': lambda: r.choice(['k2', 'B1'])}[t]()
    def gen(s, t, d, env=()):
        """an expression of type t; with s.want set, one subexpression is ill-typed afterwards and s.bad names it"""
        r = s.r; env = list(env)
        if s.want and t in ('B', 'I', 'F') and (d <= 1 or r.random() < .25):
            s.want = False; s.bad = s.ill(t, env); return s.bad
        if d <= 0: return s.leaf(t, env)
        g = lambda u: s.gen(u, d - 1, env); q = r.random()
        if q < .1: return s.leaf(t, env)
        if q < .16 and t in ('B', 'I'): o = g('Q'); return f'{o}.{ {"B": "m", "I": "n"}[t] }' if o.startswith('Q(') or o.isidentifier() else f'({o}).{ {"B": "m", "I": "n"}[t] }'
        if t == 'B':
            o = r.choice(['&&', '||', '->', '<->', '!', 'T', 'T', 'U', 'agg'] + (['xor', '==', 'rel', 'rel', 'arr', 'cnt', 'prev', 'enum'] if s.bz else []))
            if o == '!': return f'!({g("B")})'
            if o == 'T': return f'({r.choice("HO" if s.past else "GF")}{s.iv()} ({g("B")}))'
            if o == 'U': return f'(({g("B")}) {r.choice("ST" if s.past else "UR")}{s.iv()} ({g("B")}))'.replace(' T[', ' S[')
            if o == 'rel': u = r.choice('IF'); return f'({g(u)} {r.choice(["==", "!=", "<", ">", "<=", ">="])} {g(u)})'
            if o == 'enum':
                u = r.choice(['E', 'E', 'E2']); l, m = g(u), g(u)
                if l in ('A1', 'A2', 'B1') and m in ('A1', 'A2', 'B1'): l = {'E': 'g', 'E2': 'k2'}[u]
                return f'({l} {r.choice(["==", "!="])} {m})'
            if o == 'arr':
                u = r.choice('BIF'); l, n = s.arr(u, d, env); m, _ = s.arr(u, d, env, n); return f'({l} {r.choice(["==", "!="] + (["<", ">="] if u == "I" else []))} {m})'
            if o == 'prev': return f'prev({r.choice(["true", "false"])}, {r.choice(SIG["B"])})'
            if o in ('agg', 'cnt'):
                u = r.choice('BIFQ' if s.bz else 'B'); l, _ = s.arr(u, d - 1, env); s.k += 1; i = f'i{s.k}'; e2 = [e for e in env] + [(i, u)]
                if o == 'agg': return f'({r.choice(["foreach", "forsome"])}({i}:{l})({s.gen("B", d - 1, e2)}))'
                return f'({r.choice(["forexactly", "foratleast", "foratmost"])}({i}:{l},{s.gen("I", d - 2, env)})({s.gen("B", d - 1, e2)}))'
            return f'({g("B")} {o} {g("B")})'
        if t == 'I' and s.bz:
            o = r.choice(['+', '-', '*', '/', '%', '&', '|', '^', '~', 'abs', 'neg', 'pow', 'min', 'prev'])
            if o in '/%': return f'({g("I")} {o} {r.choice([1, 3, 7])})'
            if o == '~': return f'(~({g("I")}))'
            if o == 'abs': return f'abs({g("I")})'
            if o == 'neg': return f'(-({g("I")}))'
            if o == 'pow': return f'({g("I")} pow {r.choice([0, 1, 2])})'
            if o == 'prev': return f'prev({r.choice([0, 4])}, {r.choice(SIG["I"])})'
            if o == 'min': return s.leaf('I', env)
            return f'({g("I")} {o} {g("I")})'
        if t == 'F' and s.bz:
            o = r.choice(['+', '-', '*', 'abs', 'sqrt', 'neg', '/'])
            if o in ('abs', 'sqrt'): return f'{o}({g("F")})'
            if o == 'neg': return f'(-({g("F")}))'
            if o == '/': return f'({g("F")} / 2.5)'
            return f'({g("F")} {o} {g("F")})'
        if t == 'Q': return f'Q({g("B")},{g("I")})'
        return s.leaf(t, env)
    def ill(s, t, env):
        r = s.r; L = lambda u: s.leaf(u, env)
        other = lambda: '(O[0,1] a)' if not s.past else '(F[0,1] a)'
        n = r.choice(['I', 'F', 'Q'])
        if t == 'B':
            c = [f'!({L(n)})', f'({L("B")} && {L(n)})', f'({L(n)} || {L("B")})', f'({L(n)} -> {L("B")})', f'({L("B")} <-> {L(n)})', f'({L("B")} && {L("B")} && {L(n)})', f'(F[0,1] {L(n)})' if not s.past else f'(H[0,1] {L(n)})',
                 f'({L("B")} U[0,1] {L(n)})' if not s.past else f'({L(n)} S[0,1] {L("B")})', f'(foreach(i9:{L(n)})({L("B")}))', f'(foreach(i9:w)({L(n)}))', '(foreach(a:w)(a))', '(forsome(A1:w)(b))', 'nope', 'w[3]', 'w[-1]', 'a[0]', 'a.m',
                 'Q(a).m', 'Q(a,1,1).m', 'Q(1,1).m', 'Q(a,b).m', 'Q(a,1).k', 'Q2(1).m', 'E', 'Q', 'nope(a)', '(F[3,1] a)' if not s.past else '(H[3,1] a)', 'w[1..3]', 'w[2..1]', '(a || w)', '{a,b}[2]', '{a,1}[0]', '{a,b}[-1]', 'nope[0]', 'nope.m', 'i77']
            if s.inspec: c += [other(), other(), f'({other()} && a)']
            if s.bz: c += ['(u == x)', '(u < x)', '(a == u)', '(x == a)', '(u < a)', '(Q(a,u) == Q(b,v))', '(w == {a,b})', '(w[0..1] == w)', '(z == p)', '(g == B1)', '(g == k2)', '(g == u)', '(u == A1)', '(g == nope)', '(g == E)', f'(prev(a,b))', '(prev(0,a))', 'prev(false,u)',
                      '(forexactly(i9:w,x)(i9))', '(forexactly(i9:w,Q(a,u))(i9))', '(a xor u)', '(u == 4294967296)', '(~a)', '(a == (u + x))', '(Q(a,u) < Q(b,v))', '(z == {a,b})']
        elif t == 'I': c = ['(u + x)', '(u - a)', '(a * u)', '(u & x)', '(u | a)', '(Q(a,u) ^ Q(a,u))', '(~w)', '(u / 0)', 'z[2]', 'z[-1]', '(z + z)[0]', '(u pow v)', '(u pow (-1))', '(-Q(a,u))', 'abs(z)', 'Q(a,u).zz', 'nope', '(u % x)', 'prev(0,x)', 'prev(u,v)', '4294967296', 'prev(false,v)']
        else: c = ['(x + u)', '(x - a)', '(x * z)', '(x & y)', '(~x)', 'p[2]', '(x / 0.0)', 'nope', 'prev(x,y)', 'abs(p)', 'sqrt(u)', '(x ^ y)']
        return r.choice(c)
def program(rng):
    """(source, booleanizer, None or why it must be rejected)"""
    bz = rng.random() < .8; bad = None; kind = rng.choice(['good', 'good', 'ill', 'ill', 'ill', 'names', 'tense']) if True else None
    G0 = G(rng, bz, rng.random() < .5); out = [HEAD if bz else HEAD.replace('u,v: int; x,y: float; g,h: E; k2: E2; ', '').replace(' z: int[2]; p: float[2];', '')]; at = rng.randrange(4)
    if not bz: SG = 0
    def want(i):
        if kind == 'ill' and i == at: G0.want = True
    ty = rng.choice(['B', 'I', 'Q', 'F', 'E']) if bz else 'B'
    defs = []
    if rng.random() < .6 or kind == 'tense':
        n = rng.choice([1, 2]); l = []
        for i in range(n):
            t = rng.choice(['B', 'B', 'I', 'F', 'Q']) if bz else 'B'; want(i); e = G0.gen(t, rng.choice([1, 2])); G0.want = False; l.append(f' d{i} := {e};'); G0.defs.append((f'd{i}', t))
        defs = l; out.append('DEFINE\n' + '\n'.join(l) + '\n')
    G0.inspec = True; past = G0.past; n = rng.choice([1, 2, 3]); names = []; body = []
    for i in range(n):
        G0.want = kind == 'ill' and not G0.bad
        lab = f'f{i}: ' if rng.random() < .4 else ''
        if rng.random() < .12:
            e = G0.gen('B', 1); G0.want = False
            if not G0.bad: body.append(f' kk{i}: {e} => {G0.gen("B", 1)};'); continue
        else: e = G0.gen('B', rng.choice([1, 2, 3, 4]))
        body.append(f' {lab}{e};')
        if lab: G0.defs.append((lab[:-2], 'B'))
    G0.want = False
    if kind == 'tense':
        q = rng.choice(['def', 'label', 'okdef', 'okboth', 'nested'])
        t1, t2 = ('(O[0,1] a)', '(F[0,1] a)')[::-1 if past else 1]            # t1 is of the other tense
        if q == 'def': out.append(f'DEFINE e := b || {t1};\n'); body.append(' a && e;'); bad = 'tense through a definition'
        elif q == 'nested': out.append(f'DEFINE e := {t1}; e2 := b && e;\n'); body.append(f' foreach(i8:w)(e2);'); bad = 'tense through definitions'
        elif q == 'label':
            out.append(('FTSPEC' if past else 'PTSPEC') + f'\n lab: {t1};\n'); body.append(' a && lab;'); bad = 'tense through a label'
        elif q == 'okdef': out.append(f'DEFINE e := b || {t2};\n'); body.append(' a && e;')
        else: out.append(f'DEFINE e := b || {t2};\n'); body.append(' a && e;'); body.append(' e;')
    out.append(('PTSPEC' if past else 'FTSPEC') + '\n' + '\n'.join(body) + '\n')
    if kind == 'names':
        q = rng.choice(['lab2', 'labs', 'sig', 'sig2', 'def', 'defsig', 'struct', 'enum', 'later', 'late2', 'fresh', 'labdef', 'labsec'])
        sec, oth = ('PTSPEC', 'FTSPEC') if past else ('FTSPEC', 'PTSPEC'); bad = 'name ' + q
        if q == 'lab2': out.append(f'{sec}\n r0: a;\n r0: b;\n')
        elif q == 'labs': out.append(f'{oth}\n r0: a;\n{sec}\n r0: b;\n')
        elif q == 'labsec': out.append(f'{sec}\n r0: a;\n{oth}\n r1: a;\n{sec}\n r0: b;\n')
        elif q == 'sig': out.append(f'{sec}\n a: b;\n')
        elif q == 'sig2': out.append(f'INPUT\n a: bool;\n{sec}\n b;\n')
        elif q == 'def': out.append(f'DEFINE e := a; e := b;\n{sec}\n e;\n')
        elif q == 'defsig': out.append(f'DEFINE b := a;\n{sec}\n b;\n')
        elif q == 'struct': out.append(f'STRUCT Q: {{k: bool;}};\n{sec}\n a;\n')
        elif q == 'enum': out.append(f'ENUM E: {{Z1: 1}};\n{sec}\n a;\n')
        elif q == 'later': out.insert(1, f'{sec}\n a && e;\n'); out.append(f'DEFINE e := b;\n{sec}\n e;\n')
        elif q == 'late2': out.append(f'{sec}\n a && r1;\n r1: b;\n')
        elif q == 'labdef': out.append(f'{sec}\n r1: b;\nDEFINE r1 := a;\n')
        else: out.append(f'STRUCT N: {{k: bool;}};\nENUM N2: {{Z1: 1}};\nINPUT n1: bool;\nDEFINE n2 := n1 && b;\n{oth}\n n3: a;\n{sec}\n n4: n2;\n'); bad = None
    if G0.bad: bad = f'ill-typed {G0.bad}'
    return ''.join(out), bz, bad
def accepted(text, bz):
    c = Console(); f = write('t.c2po', text)
    if bz: c.run('enable_booleanizer')
    c.run(f'parse_c2po {f}')
    if not c.ok: return None, c
    c.run('type_check')
    return c.ok, c
def fals_C08(seed, rounds):
    rng = random.Random(seed); n = 0; samples = []; unparsed = 0
    for _ in range(rounds):
        text, bz, bad = program(rng); n += 1
        try: ok, c = accepted(text, bz)
        except Exception as e: return dict(bad=f'{type(e).__name__}: {e} while type checking: {text}', n=n, nontrivial=n, samples=samples)
        if ok is None and bad is None: return dict(bad=f'well-typed program does not parse: {c.text[-200:]}: {text}', n=n, nontrivial=n, samples=samples)
        if bool(ok) and bad: return dict(bad=f'accepted although it is ill-typed ({bad}): {text}', n=n, nontrivial=n, samples=samples)
        if not ok and not bad: return dict(bad=f'well-typed program (booleanizer {"on" if bz else "off"}) rejected: {c.text[-200:]}: {text}', n=n, nontrivial=n, samples=samples)
        if ok is None: unparsed += 1
        if len(samples) < 2: samples.append((bad or 'well-typed') + ': ' + text[len(HEAD):][:200])
    return dict(bad=None, n=n, nontrivial=n - unparsed, samples=samples)
if __name__ == '__main__':
    import sys; quiet(); print(fals_C08(int(sys.argv[1]), int(sys.argv[2])))
