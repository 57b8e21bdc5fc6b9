"""Concrete counterpart of the C monitor contracts: random and small exhaustive programs run on the real library, judged by
independent reference semantics.  fals(prop, seed, rounds) -> dict(bad=(text), n=.., nontrivial=.., samples=[..])"""
import random, struct, math, itertools, os, sys
import cmon, fscq
def desc(p, tr): return p.show() + ' trace ' + ' '.join(''.join('01'[x] for x in st) for st in tr)
def shrink(fails, p, tr, tries=120):
    """shorter trace with the same failure"""
    lo = len(tr)
    for k in range(1, lo + 1):
        if k > tries: break
        if fails(p, tr[:k]): return tr[:k]
    return tr
PLAN = {   # ops, mixes, judge flags
 'M01': (['UNTIL', 'RELEASE', 'UNTIL', 'RELEASE', 'NOT', 'AND', 'OR'], ['ft'], dict(order=False, complete=False)),
 'M02': (['SINCE', 'TRIGGER', 'SINCE', 'TRIGGER', 'NOT', 'AND', 'OR'], ['pt'], dict(order=False, complete=False)),
 'M03': (['NOT', 'AND', 'OR', 'EQUIVALENT', 'AND', 'OR', 'EQUIVALENT', 'UNTIL', 'SINCE'], ['mixed'], dict(order=False, complete=False)),
 'M05': (None, ['ft', 'pt', 'mixed'], dict(value=False)),
 'M06': (None, ['ft', 'pt', 'mixed'], dict())}
def progs(prop, rng):
    ops, mixes, _ = PLAN[prop]
    r = rng.random()
    if r < .25 and ops:       # one operator over atoms, small bounds
        p = cmon.Prog(); n = 2
        for k in range(n): p.nodes.append(dict(op='LOAD', a=('A', k), b=('N', 0)))
        op = ops[rng.randrange(2)] if prop != 'M03' else rng.choice(['AND', 'OR', 'EQUIVALENT', 'NOT'])
        lb = rng.choice([0, 0, 0, 1, 2, 3, 5]); nd = dict(op=op, a=('S', 0), b=('S', 1) if op != 'NOT' else ('N', 0))
        if op in cmon.TEMP: nd.update(lb=lb, ub=lb + rng.choice([0, 1, 2, 3, 5]))
        p.nodes.append(nd); p.nodes.append(dict(op='RETURN', a=('S', n), b=('D', 0)))
        L = 40
        for x in p.nodes: x['len'] = L + rng.choice([0, 1])
        return p, n
    n = rng.choice([1, 2, 3, 4])
    big = rng.random() < .02 and prop != 'M06'
    return cmon.gen(rng, ops, n, None, True, rng.choice(mixes), 300 if big else 6), n
def run_tl(prop, seed, rounds, san=False):
    rng = random.Random(seed); exe = cmon.build('run', san)
    kw = PLAN[prop][2]; n = nt = 0; samples = []; slow = 0
    for _ in range(rounds):
        cs = []
        if slow > 6: break
        for _ in range(150):
            p, na = progs(prop, rng); mx = max([x.get('ub', 0) for x in p.nodes])
            steps = rng.choice([1, 4, 10, 20, 40]) if mx < 40 else rng.choice([150, 700])
            cs.append((p, cmon.atoms(rng, steps, na)))
        flags = 1 | (2 if prop in ('M03', 'M06') else 0) | (4 if prop == 'M06' else 0)
        def enc(p, tr): return cmon.encode(p.binary(), [[(0, int(x)) for x in st] for st in tr], len(tr[0]), flags, 0, None if sum(x['len'] for x in p.nodes) < 1500 else [64, 256, 64, 64, 64, sum(x['len'] for x in p.nodes), len(p.nodes), 256])
        def verdict(p, tr, res):
            st, txt = res
            if st == 4: return None
            if st == 2:
                if prop in ('M05', 'M06'): return 'the monitor does not return from a step'
                txt, st = txt[:20000].rpartition('\n')[0], 0
            if st: return f'the monitor crashed (status {st}): {txt[-300:]}'
            parts = txt.split('RESET', 1) if 'RESET' in txt else [txt]
            vs, oth = cmon.parse(parts[0])
            f = [v for v in vs if v[4] == 'F']; c = [v for v in vs if v[4] == 'C']
            if prop in ('M03', 'M06') and [v[:4] for v in f] != [v[:4] for v in c]: return f'output file and callback differ: {f[:5]} {c[:5]}'
            if prop == 'M06':
                bad = [o for o in oth if isinstance(o, tuple) and o[1].split()[0] in ('TS', 'PC', 'ERR', 'LOAD')]
                if bad: return f'after a step: {bad[0]}'
                if len(parts) > 1:
                    hd, _, rest = parts[1].partition('\n')
                    if hd.split() != ['0', '0', '0', '0', '0']: return 'state after reset: ' + hd
                    v2, o2 = cmon.parse(rest)
                    if v2 != vs: 
                        k = next((k for k in range(min(len(v2), len(vs))) if v2[k] != vs[k]), min(len(v2), len(vs)))
                        return f'second run after a reset differs: first {vs[k:k+2]}, then {v2[k:k+2]}'
            return cmon.judge(p, tr, f, len(tr), **kw)
        for (p, tr), res in zip(cs, cmon.batch(exe, [enc(*c) for c in cs])):
            n += 1; nt += res[1].count('\n') > 3; slow += res[0] == 2
            r = verdict(p, tr, res)
            if r:
                def fails(p2, t2): return verdict(p2, t2, cmon.batch(exe, [enc(p2, t2)])[0])
                tr = shrink(fails, p, tr); return dict(bad=f'{fails(p, tr) or r} :: {desc(p, tr)}', n=n, nontrivial=nt, samples=samples)
            if len(samples) < 2: samples.append(desc(p, tr)[:400] + ' => ' + ' '.join(l for l in res[1].split('\n') if ':' in l)[:120])
    return dict(bad=None, n=n, nontrivial=nt, samples=samples)

# ---------------------------------------------------------------- Boolean layer
def i32(x): return ((int(x) + 2**31) % 2**32) - 2**31
def cdiv(a, b): q = abs(a)//abs(b); return q if (a < 0) == (b < 0) else -q
EPS = None
class Skip(Exception): pass
def toint(x):
    if x != x or not (-2**31 - 1 < x < 2**31): raise Skip
    return int(x)
def bzeval(op, a, b):
    e = EPS
    def close(): return (a - b < e) if a > b else (b - a < e)
    def pw(x, y):
        try: return math.pow(x, y)
        except (OverflowError, ValueError): raise Skip
    def fdiv():
        if b == 0: 
            if a == 0 or a != a: return math.nan
            return math.copysign(math.inf, a) * math.copysign(1, b)
        return a / b
    if op in ('IDIV', 'MOD') and (b == 0 or (a == -2**31 and b == -1)): raise Skip
    return {'BWNEG': lambda: ~a, 'BWAND': lambda: a & b, 'BWOR': lambda: a | b, 'BWXOR': lambda: a ^ b,
      'IEQ': lambda: a == b, 'INEQ': lambda: a != b, 'IGT': lambda: a > b, 'IGTE': lambda: a >= b, 'ILT': lambda: a < b, 'ILTE': lambda: a <= b,
      'FEQ': close, 'FNEQ': lambda: not close(), 'FGT': lambda: a > b, 'FLT': lambda: a < b, 'FGTE': lambda: a > b - e, 'FLTE': lambda: a < b + e,
      'INEG': lambda: i32(-a), 'IADD': lambda: i32(a+b), 'ISUB': lambda: i32(a-b), 'IMUL': lambda: i32(a*b), 'IDIV': lambda: cdiv(a, b), 'MOD': lambda: a - b*cdiv(a, b),
      'FNEG': lambda: -a, 'FADD': lambda: a+b, 'FSUB': lambda: a-b, 'FMUL': lambda: a*b, 'FDIV': fdiv,
      'IPOW': lambda: toint(pw(float(a), float(b))), 'FPOW': lambda: pw(a, b), 'ISQRT': lambda: toint(math.sqrt(a)) if a >= 0 else (_ for _ in ()).throw(Skip()),
      'FSQRT': lambda: math.sqrt(a) if a >= 0 else math.nan, 'IABS': lambda: i32(abs(a)), 'FABS': lambda: abs(a)}[op]()
II = 'BWNEG BWAND BWOR BWXOR IEQ INEQ IGT IGTE ILT ILTE INEG IADD ISUB IMUL IDIV MOD IPOW ISQRT IABS'.split()
FFI = 'FEQ FNEQ FGT FLT FGTE FLTE'.split(); FF = 'FNEG FADD FSUB FMUL FDIV FPOW FSQRT FABS'.split()
UN = {'BWNEG', 'INEG', 'FNEG', 'ISQRT', 'FSQRT', 'IABS', 'FABS'}
def opn(o): return 'R2U2_BZ_TS' if o == 'TS' else 'R2U2_BZ_OP_' + o
def rint(rng): return rng.choice([0, 1, -1, 2, 3, 5, 7, -4, 10, 255, 256, 1000, -1000, 65536, 2**31-1, -2**31, rng.randrange(-2**31, 2**31), rng.randrange(-20, 20)])
def rflt(rng): return rng.choice([0.0, 1.0, -1.0, .5, .1, -2.25, 3.7, 1e-6, 1e-5, 1.000001, 0.99999, 1e10, -1e-10, 123.456, rng.uniform(-10, 10), rng.uniform(-1e6, 1e6), float(rng.randrange(-8, 8))])
def bzcase(rng):
    p = cmon.Prog(); ns = rng.choice([1, 2, 3, 4]); kinds = [rng.choice('if') for _ in range(ns)]
    slots = []; prog = []
    def new(k): slots.append(k); return len(slots) - 1
    for k in range(ns):
        if rng.random() < .9: m = new(kinds[k]); prog.append(('ILOAD' if kinds[k] == 'i' else 'FLOAD', k, 0, m))
    for _ in range(rng.choice([0, 1, 2])):
        if rng.random() < .5: m = new('i'); prog.append(('ICONST', rint(rng), 0, m))
        else: m = new('f'); prog.append(('FCONST', rflt(rng), 0, m))
    if rng.random() < .15: m = new('i'); prog.append(('TS', 0, 0, m))
    prevs = []
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        c = [i for i, x in enumerate(prog) if x[0] in ('ICONST', 'FCONST')]
        if c:
            i0 = prog[rng.choice(c)][3]; m = new(slots[i0]); prevs.append((i0, m))
    for _ in range(rng.choice([1, 3, 6])):
        iv = [k for k, s in enumerate(slots) if s == 'i']; fv = [k for k, s in enumerate(slots) if s == 'f']
        op = rng.choice(II + FFI*2 + FF)
        src = iv if op in II else fv
        if not src: continue
        a, b = rng.choice(src), rng.choice(src); m = new('f' if op in FF else 'i')
        prog.append((op, a, 0 if op in UN else b, m))
    natm = 0
    for _ in range(rng.choice([1, 2, 3])):
        iv = [k for k, s in enumerate(slots) if s == 'i']
        if iv: prog.append(('STORE', rng.choice(iv), natm, 0)); natm += 1
    for i0, m in prevs:
        c = [k for k, s in enumerate(slots) if s == slots[m]]; prog.append(('PREV', i0, rng.choice(c), m))
    if rng.random() < .2:     # slots in another order
        pm = list(range(len(slots))); rng.shuffle(pm); f = lambda x: pm[x]
        prog = [(o, a if o in ('ILOAD', 'FLOAD', 'ICONST', 'FCONST', 'TS') else f(a), b if o in ('STORE', 'ILOAD', 'FLOAD', 'ICONST', 'FCONST', 'TS') else f(b), f(m)) for o, a, b, m in prog]
        s2 = [None]*len(slots)
        for k, s in enumerate(slots): s2[pm[k]] = s
        slots = s2
    p.bz = [(opn(o), a, b, m) for o, a, b, m in prog]
    steps = rng.choice([1, 2, 4]); tr = []
    sv = [rng.random() < .15 for _ in range(ns)]
    for _ in range(steps):
        st = []
        for k in range(ns):
            if kinds[k] == 'i': v = rint(rng); st.append((3 if sv[k] else 1, v))
            else:
                v = rflt(rng)
                if sv[k]: st.append((4, float('%.6f' % v)))
                else: st.append((2, v))
        if rng.random() < .3 and tr: st = list(tr[-1])
        tr.append(st)
    return p, prog, slots, tr, natm
def bzref(prog, slots, tr, natm):
    """[(slots, atomics) or None for not determined], per step"""
    V = [None]*len(slots); A = [0]*max(natm, 1); out = []
    for o, a, b, m in prog:
        if o in ('ICONST', 'FCONST'): V[m] = a
    for o, a, b, m in prog:
        if o == 'PREV': V[m] = V[a]
    for t, st in enumerate(tr):
        for o, a, b, m in prog:
            if o in ('ICONST', 'FCONST'): continue
            if o in ('ILOAD', 'FLOAD'): V[m] = st[a][1]
            elif o == 'TS': V[m] = t
            elif o == 'STORE': A[b] = None if V[a] is None else int(V[a] != 0)
            elif o == 'PREV': V[m] = V[b]
            else:
                x, y = V[a], None if o in UN else V[b]
                if x is None or (o not in UN and y is None): V[m] = None; continue
                try: V[m] = bzeval(o, x, y)
                except Skip: V[m] = None
                if isinstance(V[m], bool): V[m] = int(V[m])
        out.append((list(V), list(A)))
    return out
def run_bz(seed, rounds, atomics=False):
    global EPS
    import clayout; EPS = clayout.layout()['eps']
    rng = random.Random(seed); exe = cmon.build('run'); n = nt = 0; samples = []
    for _ in range(rounds):
        cs = [bzcase(rng) for _ in range(150)]
        enc = [cmon.encode(p.binary(), tr, len(tr[0]), 8, max(len(sl), na)) for p, prog, sl, tr, na in cs]
        for (p, prog, sl, tr, na), (st, txt) in zip(cs, cmon.batch(exe, enc)):
            n += 1; bad = None; ref = bzref(prog, sl, tr, na); cur = -1
            if st and any(o in ('IDIV', 'MOD') for o, *_ in prog): continue    # a division by zero traps
            if st: bad = f'the monitor crashed (status {st}) {txt[-200:]}'
            for l in txt.split('\n'):
                w = l.split()
                if not w or bad: continue
                if w[0] == 'S': cur = int(w[1])
                elif w[0] == 'V' and int(w[1]) < len(sl):
                    k = int(w[1]); e = ref[cur][0][k]; raw = int(w[2], 16)
                    if e is None: continue
                    nt += 1
                    if sl[k] == 'i': got = i32(raw & 0xffffffff)
                    else: got = struct.unpack('<d', struct.pack('<Q', raw))[0]
                    if got != e and not (got != got and e != e) and not (isinstance(e, float) and abs(got - e) <= 1e-14*abs(e)): bad = f'step {cur}: slot {k} holds {got!r}, the operator gives {e!r}'
                elif w[0] == 'A' and int(w[1]) < na:
                    e = ref[cur][1][int(w[1])]
                    if e is not None and int(w[2]) != e: bad = f'step {cur}: atomic {w[1]} is {w[2]}, stored value says {e}'
                elif w[0] == 'ERR': bad = f'step {cur}: {l}'
            if bad: return dict(bad=f'{bad} :: {prog} trace {tr}', n=n, nontrivial=nt, samples=samples)
            if len(samples) < 2: samples.append(f'{prog} trace {tr}'[:300])
    return dict(bad=None, n=n, nontrivial=nt, samples=samples)

# ---------------------------------------------------------------- loading
def run_load(seed, rounds):
    import clayout; C = clayout.layout()['c']; META = C['R2U2_TEMPORAL_METADATA_SIZE']
    K = {'D': C['R2U2_FT_OP_DIRECT'], 'A': C['R2U2_FT_OP_ATOMIC'], 'S': C['R2U2_FT_OP_SUBFORMULA'], 'N': C['R2U2_FT_OP_NOT_SET']}
    rng = random.Random(seed); exe = cmon.build('run'); n = nt = 0; samples = []
    for _ in range(rounds):
        cs = []
        for _ in range(100):
            big = rng.random() < .1
            p = cmon.gen(rng, None, rng.choice([1, 2, 4, 30] if big else [1, 2, 4]), None, True, rng.choice(['ft', 'pt', 'mixed']), rng.choice([6, 6, 40, 400]))
            for x in p.nodes:
                if rng.random() < .6: x['len'] = rng.choice([1, 2, 3, 7, 255, 256, 300])
            if rng.random() < .2:
                for x in p.nodes:
                    if x['op'] in cmon.TEMP and rng.random() < .5: x['lb'], x['ub'] = rng.choice([(0, 70000), (65535, 65536), (255, 256), (0, 2**24), (3, 2**31-1)])
            if rng.random() < .5:
                bp, prog, sl, tr, na = bzcase(rng); p.bz = bp.bz; p.prog = prog; p.slots = sl
            else: p.prog, p.slots = [], []
            cs.append(p)
        for p, (st, txt) in zip(cs, cmon.batch(exe, [cmon.encode(p.binary(), [], 0, 16, 0, None if sum(x['len'] for x in p.nodes) < 1500 else [64, 256, 64, 64, 64, sum(x['len'] for x in p.nodes), len(p.nodes), 256]) for p in cs])):
            n += 1; bad = None; q = 0; L = [l.split() for l in txt.split('\n') if l]
            if st: bad = f'loading crashed (status {st}): {txt[-200:]}'
            else:
                bz = [x for x in p.prog if x[0] not in ('ICONST', 'FCONST')]
                exp = [['P', str(len(bz)), str(len(p.nodes))]]
                for i, x in enumerate(p.nodes):
                    tmp = x['op'] in cmon.TEMP; fut = x['op'] in ('UNTIL', 'RELEASE')
                    exp.append(['Q', str(i), str(q), str(x['len']), '0', '0', '0', str(x['lb'] if fut else 0), str(2**32-1)])
                    exp.append(['I', str(i), str(C['R2U2_MLTL_OP_' + x['op']]), str(i), str(K[x['a'][0]]), str(x['a'][1]), str(K[x['b'][0]]), str(x['b'][1])])
                    if tmp: exp.append(['B', str(i), str(x['lb']), str(x['ub']), '0', '0'])
                    q += x['len'] + (META if tmp else 0)
                for i, (o, a, b, m) in enumerate(bz): exp.append(['Z', str(i), str(C[opn(o)]), str(m), str(a & 0xffffffff), str(b)])
                exp.append(['END'])
                if L != exp:
                    k = next((k for k in range(min(len(L), len(exp))) if L[k] != exp[k]), min(len(L), len(exp)))
                    bad = f'after loading: {L[k] if k < len(L) else None}, expected {exp[k] if k < len(exp) else None}'
                nt += len(p.nodes)
            if bad: return dict(bad=f'{bad} :: {p.show()} bz {p.prog}', n=n, nontrivial=nt, samples=samples)
            if len(samples) < 2: samples.append(p.show()[:300])
    r = run_const(seed, rounds)
    return dict(bad=r['bad'], n=n + r['n'], nontrivial=nt, samples=samples)
def run_const(seed, rounds):
    """constants reach their slot bit by bit"""
    rng = random.Random(seed + 1); exe = cmon.build('run'); n = 0
    for _ in range(max(rounds // 4, 1)):
        cs = []
        for _ in range(60):
            p = cmon.Prog(); vals = []
            for m in range(6):
                if rng.random() < .5: v = rint(rng); p.bz.append(('R2U2_BZ_OP_ICONST', v, 0, m))
                else: v = rflt(rng); p.bz.append(('R2U2_BZ_OP_FCONST', v, 0, m))
                vals.append(v)
            p.vals = vals; cs.append(p)
        for p, (st, txt) in zip(cs, cmon.batch(exe, [cmon.encode(p.binary(), [[]], 0, 8, 6) for p in cs])):
            n += 1
            for l in txt.split('\n'):
                w = l.split()
                if w and w[0] == 'V':
                    v = p.vals[int(w[1])]; raw = int(w[2], 16)
                    got = i32(raw & 0xffffffff) if isinstance(v, int) else struct.unpack('<d', struct.pack('<Q', raw))[0]
                    if got != v: return dict(bad=f'constant {v!r} is loaded as {got!r} :: {p.bz}', n=n)
            if st: return dict(bad=f'loading crashed :: {p.bz}', n=n)
    return dict(bad=None, n=n)
def run_reset_bz(seed, rounds):
    """a reset monitor runs the second trace as a fresh one, with the Boolean layer in use; and the order of the layers"""
    global EPS
    import clayout; EPS = clayout.layout()['eps']
    rng = random.Random(seed); exe = cmon.build('run'); n = nt = 0; samples = []
    for _ in range(rounds):
        cs = []
        for _ in range(60):
            p, prog, sl, tr, na = bzcase(rng)
            if any(o in ('IDIV', 'MOD') for o, *_ in prog) or not na: continue
            g = cmon.gen(rng, None, na, rng.choice([1, 3]), False, rng.choice(['ft', 'pt']), 3); p.nodes = g.nodes
            tr = [rng.choice(tr) for _ in range(rng.choice([3, 10]))]
            cs.append((p, prog, sl, tr, na))
        for (p, prog, sl, tr, na), (st, txt) in zip(cs, cmon.batch(exe, [cmon.encode(c[0].binary(), c[3], len(c[3][0]), 1 | 2 | 4, 0) for c in cs])):
            n += 1; bad = None
            if st == 2: bad = 'the monitor does not return from a step'
            elif st: bad = f'the monitor crashed (status {st})'
            else:
                a, _, b = txt.partition('RESET'); vs, oth = cmon.parse(a); v2, _ = cmon.parse(b.partition('\n')[2])
                if vs != v2: bad = f'second run after a reset differs'
                f = [v for v in vs if v[4] == 'F']; nt += len(f)
                ref = bzref(prog, sl, tr, na); at = [[None if x is None else bool(x) for x in r[1]] for r in ref]
                if not bad and not any(x is None for r in at for x in r): bad = cmon.judge(p, at, f, len(tr))
            if bad: return dict(bad=f'{bad} :: {prog} {p.show()} trace {tr}', n=n, nontrivial=nt, samples=samples)
            if len(samples) < 1: samples.append(f'{prog} {p.show()}'[:300])
    return dict(bad=None, n=n, nontrivial=nt, samples=samples)

def fals(args):
    prop, seed, rounds = args
    try:
        if prop in ('M01', 'M02', 'M03', 'M05'): return run_tl(prop, seed, rounds)
        if prop == 'M06':
            r = run_tl('M06', seed, (rounds + 1)//2)
            if r['bad']: return r
            r2 = run_reset_bz(seed, (rounds + 1)//2)
            return dict(bad=r2['bad'], n=r['n']+r2['n'], nontrivial=r['nontrivial']+r2['nontrivial'], samples=r['samples']+r2['samples'])
        if prop == 'M04':
            bad, n, nt = fscq.run(seed, rounds)
            return dict(bad=(bad[0][1] + ' :: ' + '; '.join(bad[0][0])) if bad else None, n=n, nontrivial=nt, samples=['random schedules of writes and reads on 2-4 queues of length 1-8'])
        if prop == 'M07': return run_bz(seed, rounds)
        if prop == 'M08': return run_load(seed, rounds)
    except cmon.ExtractError as e: return dict(bad=f'the C monitor does not build: {e}', n=0, nontrivial=0, samples=[])
if __name__ == '__main__':
    import time
    for p in (sys.argv[1:] or ['M01', 'M02', 'M03', 'M04', 'M05', 'M06', 'M07', 'M08']):
        t = time.time(); r = fals((p, 1, 6)); print(p, r['n'], r['nontrivial'], r['bad'], f'{time.time()-t:.1f}s')
