"""Concrete counterpart of the C2PO contracts: generated specifications go through the real passes (and, end to end, through the
assembler and the real monitor) and are judged against independent reference semantics.  Bounded; never counted as proved.
Formula AST: ('a',name) ('c',bool) ('!',x) ('&&',x,y) ('||',x,y) ('->',x,y) ('<->',x,y) ('xor',x,y) ('==',x,y)
             ('G'|'F'|'H'|'O',lb,ub,x) ('U'|'R'|'S'|'T',lb,ub,x,y) ('cmp',op,int,int); integers ('i',name) ('k',n) ('+'|'-'|'*',x,y)"""
import os, sys, io, random, hashlib, contextlib, tempfile, shutil, pathlib, atexit, logging
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'compiler'))
sys.setrecursionlimit(20000)
BIN = ('&&', '||', '->', '<->', 'xor', '==')
def show(f):
    k = f[0]
    if k in 'ai' or k == 'fi': return f[1]
    if k == 'def': return f[1]
    if k == 'prev': return f'prev({f[1]}, {show(f[2])})'
    if k in ('abs', 'sqrt'): return f'{k}({show(f[1])})'
    if k == 'cnt': return 'count(' + ', '.join(show(x) for x in f[1:]) + ')'
    if k in ('neg', '~'): return ('-' if k == 'neg' else '~') + '(' + show(f[1]) + ')'
    if k == 'fk': return f'{f[1]:.6f}'
    if k == 'k': return str(f[1])
    if k == 'c': return 'true' if f[1] else 'false'
    if k == '!': return '!(' + show(f[1]) + ')'
    if k in BIN or k in ('+', '-', '*', '&', '|', '^', '/', '%'): return '(' + show(f[1]) + ' ' + k + ' ' + show(f[2]) + ')'
    if k in ('cmp', 'fcmp'): return f'({show(f[2])} {f[1]} {show(f[3])})'
    if k in 'GFHO': return f'{k}[{f[1]},{f[2]}]({show(f[3])})'
    return f'(({show(f[3])}) {k}[{f[1]},{f[2]}] ({show(f[4])}))'
def n3(x): return None if x is None else (not x)
def and3(xs):
    u = False
    for x in xs:
        if x is False: return False
        if x is None: u = True
    return None if u else True
def or3(xs): return n3(and3([n3(x) for x in xs]))
CMP = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b}
def i32(x): return ((x + 2**31) % 2**32) - 2**31
def ival(f, tr, n):
    k = f[0]
    if k == 'i': return tr[f[1]][n] if n < len(tr[f[1]]) else None
    if k == 'k': return f[1]
    if k == 'fi': return tr[f[1]][n] if n < len(tr[f[1]]) else None
    if k == 'fk': return f[1]
    if k == 'def': return ival(f[2], tr, n)
    if k == 'tau': return n if n < len(next(iter(tr.values()))) else None
    if k == 'prev': return (f[1] if n == 0 else ival(f[2], tr, n-1)) if n < len(next(iter(tr.values()))) else None
    if k == 'cnt':
        l = [ev(x, tr, n, {}) for x in f[1:]]; return None if None in l else sum(l)
    a = ival(f[1], tr, n); b = ival(f[2], tr, n) if len(f) > 2 else 0
    if a is None or b is None: return None
    if k in ('/', '%') and b == 0: return None
    q = lambda: abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
    if isinstance(a, float) or isinstance(b, float): return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, 'neg': lambda: -a, 'abs': lambda: abs(a), 'sqrt': lambda: abs(a) ** .5}[k]()
    return i32({'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b, '/': q, '%': lambda: a - b * q(), 'neg': lambda: -a, 'abs': lambda: abs(a), '~': lambda: ~a}[k]())
def ev(f, tr, n, m):
    """three-valued value at time n on the finite trace tr; m: memo"""
    key = (id(f), n)
    if key in m: return m[key]
    k = f[0]; e = lambda x, i=n: ev(x, tr, i, m)
    if k == 'a': r = tr[f[1]][n] if n < len(tr[f[1]]) else None
    elif k == 'c': r = f[1]
    elif k == '!': r = n3(e(f[1]))
    elif k == '&&': r = and3([e(f[1]), e(f[2])])
    elif k == '||': r = or3([e(f[1]), e(f[2])])
    elif k == '->': r = or3([n3(e(f[1])), e(f[2])])
    elif k in ('<->', 'xor', '=='):
        a, b = e(f[1]), e(f[2]); r = None if a is None or b is None else (a == b) == (k != 'xor')
    elif k == 'def': r = e(f[2])
    elif k in ('cmp', 'fcmp'):
        a, b = ival(f[2], tr, n), ival(f[3], tr, n); r = None if a is None or b is None else CMP[f[1]](a, b)
    else:
        lb, ub = f[1], f[2]
        if k in 'GF': r = (and3 if k == 'G' else or3)([e(f[3], i) for i in range(n+lb, n+ub+1)])
        elif k in 'HO': r = (and3 if k == 'H' else or3)([e(f[3], i) for i in range(max(0, n-ub), n-lb+1)])
        else:
            r = k in 'RT'
            for i in (range(n+ub, n+lb-1, -1) if k in 'UR' else range(max(0, n-ub), n-lb+1)):
                a, b = e(f[3], i), e(f[4], i)
                r = or3([b, and3([a, r])]) if k in 'US' else and3([b, or3([a, r])])
    m[key] = r
    return r
def names(f):
    if f[0] in ('a', 'i', 'fi'): return {(f[1], f[0][0])}
    r = set()
    for x in f[1:]:
        if isinstance(x, tuple): r |= names(x)
    return r
def hor(f):
    """how many samples after (before) n the value at n can depend on"""
    k = f[0]; h = max([hor(x) for x in f[1:] if isinstance(x, tuple)] + [0])
    return h + (f[2] if k in 'GFUR' else 0)
def wpd(f):
    """reference delay: after step n the verdict for n - wpd is known"""
    k = f[0]
    ds = [wpd(x) for x in f[1:] if isinstance(x, tuple)]
    d = max(ds + [0]) if k not in ('c', 'k') else 0
    if k in ('G', 'F', 'U', 'R'): return d + f[2]
    return d
def gen(rng, depth, past=False, xor=True, eq=False, atoms='abc', consts=.08, mixed=False, ints=False, big=False, pool=None):
    if pool and rng.random() < .15: return rng.choice(pool)
    if depth == 0 or rng.random() < .1:
        if rng.random() < consts: return ('c', rng.random() < .5)
        if ints and rng.random() < .4: return ('cmp', rng.choice(list(CMP)), igen(rng, 1), igen(rng, rng.choice([0, 0, 1])))
        if eq and rng.random() < .2: return ('==', ('a', rng.choice(atoms)), ('a', rng.choice(atoms)))
        return ('a', rng.choice(atoms))
    ks = ['!', '!', '&&', '&&', '||', '||', '->', '<->'] + (['xor'] if xor else [])
    ks += (['H', 'O', 'S', 'T'] * 2 if past else ['G', 'F', 'U', 'R'] * 2)
    if mixed: ks += ['G', 'F', 'U', 'R', 'H', 'O', 'S', 'T']
    k = rng.choice(ks)
    g = lambda: gen(rng, depth - 1, past, xor, eq, atoms, consts, mixed, ints, big, pool)
    if k == '!': r = (k, g())
    elif k in BIN: r = (k, g(), g())
    else:
        lb = rng.choice([0, 0, 1, 2, 3] + ([17] if big else [])); ub = lb + rng.choice([0, 0, 1, 2, 3, 5] + ([29] if big else []))
        r = (k, lb, ub, g()) if k in 'GFHO' else (k, lb, ub, g(), g())
    if pool is not None: pool.append(r)
    return r
def igen(rng, depth):
    if depth == 0 or rng.random() < .3: return ('i', rng.choice('uv')) if rng.random() < .7 else ('k', rng.choice([0, 1, 2, 3, 5, 100]))
    return (rng.choice('+-*'), igen(rng, depth-1), igen(rng, depth-1))
def size(f): return 1 + sum(size(x) for x in f[1:] if isinstance(x, tuple))
# ------------------------------------------------------------------ the compiler, in process
_dir = None
def scratch():
    global _dir
    if _dir is None or _dir[0] != os.getpid():
        _dir = (os.getpid(), tempfile.mkdtemp(prefix='vpy')); d = _dir
        import multiprocessing.util as mu
        mu.Finalize(None, shutil.rmtree, args=(d[1], True), exitpriority=5)
        atexit.register(lambda: os.getpid() == d[0] and shutil.rmtree(d[1], ignore_errors=True))
    return _dir[1]
class Console:
    def __init__(self):
        import c2po.main as M
        self.c = M.CommandConsole(); self.out = io.StringIO()
    def run(self, *cmds):
        with contextlib.redirect_stdout(self.out), contextlib.redirect_stderr(self.out):
            for l in cmds: self.c.runsource(l)
        return self
    @property
    def program(self): return self.c.program
    @property
    def text(self): return self.out.getvalue()
    @property
    def ok(self): return not self.c.return_code.is_error()
def source(specs, sigs=None, past=False, pt=(), pre=''):
    sigs = sigs or sorted(set().union(*[names(s) for s in list(specs) + list(pt)], {('a', 'a')}))
    b, i, fl = [[n for n, k in sigs if k == q] for q in 'aif']
    s = 'INPUT ' + ''.join(','.join(l) + f': {t}; ' for l, t in ((b, 'bool'), (i, 'int'), (fl, 'float')) if l) + '\n' + pre
    if past: pt, specs = list(specs), []
    if specs: s += 'FTSPEC\n' + '\n'.join(x if isinstance(x, str) else show(x) + ';' for x in specs) + '\n'
    if pt: s += 'PTSPEC\n' + '\n'.join(x if isinstance(x, str) else show(x) + ';' for x in pt) + '\n'
    return s
def write(name, text):
    p = f'{scratch()}/{name}'; open(p, 'w').write(text); return p
# ------------------------------------------------------------------ meaning of a compiled tree (on an endless trace)
def stream(seed, p):
    def s(name, srt, t):
        h = int(hashlib.md5(f'{seed} {name} {t}'.encode()).hexdigest(), 16)
        return (h % 1000) < p * 1000 if srt == 'B' else h % 5
    return s
def tree_ev(e, t, st, m):
    """value of a c2po expression (real tree) at time t of the stream st"""
    import c2po.cpt as cpt
    K = cpt.OperatorKind; key = (id(e), t)
    if key in m: return m[key]
    f = lambda x, i=t: tree_ev(x, i, st, m)
    if isinstance(e, cpt.Constant): r = e.value
    elif isinstance(e, (cpt.Signal, cpt.Variable)): r = st(e.symbol, 'B' if 'bool' in str(e.type).lower() else 'I', t)
    elif isinstance(e, cpt.Atomic): r = f(e.children[0])
    elif isinstance(e, cpt.Formula): r = f(e.get_expr())
    elif isinstance(e, cpt.TemporalOperator):
        lb, ub, o, c = e.interval.lb, e.interval.ub, e.operator, e.children
        if o in (K.GLOBAL, K.FUTURE): r = (all if o is K.GLOBAL else any)([f(c[0], i) for i in range(t+lb, t+ub+1)])
        elif o in (K.HISTORICAL, K.ONCE): r = (all if o is K.HISTORICAL else any)([f(c[0], i) for i in range(max(0, t-ub), t-lb+1)])
        else:
            r = o in (K.RELEASE, K.TRIGGER)
            for i in (range(t+ub, t+lb-1, -1) if o in (K.UNTIL, K.RELEASE) else range(max(0, t-ub), t-lb+1)):
                a, b = f(c[0], i), f(c[1], i); r = (b or (a and r)) if o in (K.UNTIL, K.SINCE) else (b and (a or r))
    elif isinstance(e, cpt.Operator):
        o, v = e.operator, [f(c) for c in e.children]
        if o is K.LOGICAL_NEGATE: r = not v[0]
        elif o is K.LOGICAL_AND: r = all(v)
        elif o is K.LOGICAL_OR: r = any(v)
        elif o is K.LOGICAL_IMPLIES: r = (not v[0]) or v[1]
        elif o in (K.LOGICAL_EQUIV, K.EQUAL): r = v[0] == v[1]
        elif o is K.LOGICAL_XOR:
            r = v[0]
            for x in v[1:]: r = r != x
        elif o is K.NOT_EQUAL: r = v[0] != v[1]
        elif o in (K.LESS_THAN, K.GREATER_THAN, K.LESS_THAN_OR_EQUAL, K.GREATER_THAN_OR_EQUAL): r = CMP[o.value](*v)
        elif o is K.ARITHMETIC_ADD: r = sum(v)
        elif o is K.ARITHMETIC_MULTIPLY:
            r = 1
            for x in v: r *= x
        elif o is K.ARITHMETIC_SUBTRACT: r = v[0] - v[1] if len(v) == 2 else -v[0]
        else: raise NotImplementedError(o)
    else: raise NotImplementedError(type(e).__name__)
    m[key] = r
    return r
def lazy(st, ints=()):
    class L:
        def __init__(s, n): s.n = n
        def __len__(s): return 10**9
        def __getitem__(s, i): return st(s.n, 'I' if s.n in ints else 'B', i)
    return L
def differ(f, e, rng, times=5, seeds=5):
    """a trace and a time where the AST f and the c2po tree e differ"""
    nm = names(f)
    for k in range(seeds):
        p = [.5, .8, .2, .95, .05, .6, .4][k % 7]; st = stream(rng.random(), p)
        L = lazy(st); tr = {n: L(n) if q == 'a' else None for n, q in nm}
        Li = lazy(st, [n for n, q in nm if q == 'i'])
        for n, q in nm:
            if q == 'i': tr[n] = Li(n)
        m, m2 = {}, {}
        for t in range(times):
            a, b = ev(f, tr, t, m), tree_ev(e, t, st, m2)
            if bool(a) != bool(b):
                H = t + hor(f) + 2
                return f'at time {t}: the formula is {a}, the result {bool(b)}, on the trace ' + '; '.join(f'{n}=' + (''.join(str(int(st(n, "B", i))) for i in range(H)) if q == 'a' else str([st(n, 'I', i) for i in range(H)])) for n, q in sorted(nm))
    return None
def shrinks(f):
    """smaller formulas"""
    for i, x in enumerate(f):
        if isinstance(x, tuple):
            if f[0] not in ('cmp', '+', '-', '*', '=='): yield x
            for y in shrinks(x):
                yield f[:i] + (y,) + f[i+1:]
    if f[0] in 'GFHOURST' and len(f) > 2:
        if f[1] > 0: yield (f[0], f[1]-1, f[2]-1) + f[3:]; yield (f[0], 0, f[2]-f[1]) + f[3:]
        if f[2] > f[1]: yield (f[0], f[1], f[2]-1) + f[3:]
def reduce_specs(specs, fails, tries=250):
    """fails(specs) -> text or None"""
    cur = fails(specs); n = 0; go = True
    while go and n < tries:
        go = False
        cands = [[s for j, s in enumerate(specs) if j != i] for i in range(len(specs))] if len(specs) > 1 else []
        cands += [specs[:i] + [g] + specs[i+1:] for i, f in enumerate(specs) if isinstance(f, tuple) for g in shrinks(f)]
        for c in cands:
            n += 1
            if n > tries: break
            r = fails(c)
            if r: specs, cur, go = c, r, True; break
    return specs, cur
# ------------------------------------------------------------------ C01, C02: passes
CORE = '! && || <-> U R S T'.split()
def passes_case(specs, past, passes, rng, pre=()):
    """text of a failure or None"""
    f = write('s.c2po', source(specs, past=past)); c = Console()
    c.run(f'parse_c2po {f}', 'type_check', 'desugar', *pre)
    if not c.ok: return f'not accepted: {c.text[-300:]}'
    before = c.program.get_specs()
    try: c.run(*passes)
    except Exception as e: return f'{" ".join(passes)} crashes on {"; ".join(show(s) for s in specs)}: {type(e).__name__}: {e}'
    if not c.ok: return f'{" ".join(passes)} fails: {c.text[-200:]}'
    import c2po.cpt as cpt
    got = [s for s in c.program.get_specs()]
    if len(got) != len(specs): return f'{len(specs)} specifications become {len(got)}'
    for i, (s, e) in enumerate(zip(specs, got)):
        if not isinstance(e, cpt.Formula) or e.formula_number != i: return f'specification {i} becomes {e} number {getattr(e, "formula_number", None)}'
        d = differ(s, e, rng)
        if d: return f'{" ".join(list(pre) + list(passes))} turns {show(s)} into {cpt.to_infix_str(e.get_expr())}: {d}'
        if 'remove_extended_operators' in passes and 'multi_operators_to_binary' in passes and passes[-1] in ('remove_extended_operators', 'multi_operators_to_binary'):
            for x in cpt.postorder(e, c.c.context):
                if isinstance(x, cpt.Operator) and (cpt.is_logical_operator(x) or cpt.is_temporal_operator(x)) and (x.operator.value not in CORE or len(x.children) > 2):
                    return f'{" ".join(passes)} leaves {cpt.to_infix_str(x)} in {show(s)}'
    return None
def fals_passes(prop, seed, rounds):
    rng = random.Random(seed); n = nt = 0; samples = []
    for _ in range(rounds):
        past = rng.random() < .3; pool = []
        if prop == 'C01': passes = ['optimize_rewrites']; pre = rng.choice([[], [], ['optimize_cse'], ['multi_operators_to_binary'], ['flatten_multi_operators'], ['optimize_rewrites']]); xor = True
        else:
            ps = ['to_nnf', 'to_bnf', 'remove_extended_operators', 'multi_operators_to_binary', 'flatten_multi_operators', 'sort_operands_by_pd', 'remove_release_operators']
            passes = rng.choice([[p] for p in ps] + [['multi_operators_to_binary', 'remove_extended_operators'], ['remove_extended_operators', 'multi_operators_to_binary'], ['remove_extended_operators', 'to_nnf'], ['to_nnf', 'flatten_multi_operators', 'sort_operands_by_pd']])
            pre = rng.choice([[], ['optimize_cse'], ['flatten_multi_operators']]); xor = 'to_nnf' not in passes
        specs = [gen(rng, rng.choice([1, 2, 2, 3, 3, 4]), past, xor, True, 'abc', .15, pool=pool) for _ in range(rng.choice([1, 1, 2]))]
        if any(size(s) > 60 or hor(s) > 40 for s in specs): continue
        key = rng.random()
        fails = lambda sp: passes_case(sp, past, passes, random.Random(key), pre)
        n += 1; r = fails(specs); nt += 1
        if r:
            specs, r = reduce_specs(specs, fails)
            return dict(bad=r, n=n, nontrivial=nt, samples=samples)
        if len(samples) < 2: samples.append(' '.join(passes) + ': ' + '; '.join(show(s) for s in specs)[:300])
    return dict(bad=None, n=n, nontrivial=nt, samples=samples)
# ------------------------------------------------------------------ C03
def tweak(rng, f):
    """a formula that differs in one place"""
    k = f[0]
    if k == 'a': return ('a', rng.choice('abc'))
    if k == 'c': return ('c', not f[1])
    if k == 'cmp': return ('cmp', rng.choice(list(CMP)), f[2], f[3])
    sub = [i for i, x in enumerate(f) if isinstance(x, tuple)]
    if rng.random() < .6 and k != '==': i = rng.choice(sub); return f[:i] + (tweak(rng, f[i]),) + f[i+1:]
    if k in 'GFHOURST':
        lb, ub = f[1], f[2]; lb, ub = rng.choice([(lb, ub+1), (lb+1, ub+1), (max(lb-1, 0), ub), (lb + 10, ub + 10)])
        kk = rng.choice({'G': 'GF', 'F': 'GF', 'H': 'HO', 'O': 'HO', 'U': 'UR', 'R': 'UR', 'S': 'ST', 'T': 'ST'}[k]); return (kk, lb, ub) + f[3:]
    if k in BIN and k != '==': return rng.choice([(k, f[2], f[1]), (rng.choice(['&&', '||', '->', '<->', 'xor']), f[1], f[2])])
    return f
def cse_case(ft, pt, labels, rng, passes=('optimize_cse',), bz=False):
    import c2po.cpt as cpt
    txt = lambda l, fs: [(l[i] + ': ' if l[i] else '') + show(f) + ';' for i, f in enumerate(fs)]
    la, lb = labels[:len(ft)], labels[len(ft):]
    sigs = sorted(set().union(*[names(x) for x in ft + pt], {('a', 'a')}))
    f = write('s.c2po', source(txt(la, ft), sigs, pt=txt(lb, pt))); c = Console()
    if bz: c.run('enable_booleanizer')
    c.run(f'parse_c2po {f}', 'type_check', 'desugar')
    if not c.ok: return f'not accepted: {c.text[-300:]}'
    before = [(s.symbol, s.formula_number) for s in c.program.get_specs()]
    try: c.run(*passes)
    except Exception as e: return f'{" ".join(passes)} crashes: {type(e).__name__}: {e}'
    what = lambda: ' '.join(passes) + ' on FTSPEC ' + ' '.join(txt(la, ft)) + ' PTSPEC ' + ' '.join(txt(lb, pt))
    after = [(s.symbol, s.formula_number) for s in c.program.get_specs()]
    if before != after: return f'{what()}: names and numbers {before} become {after}'
    for i, (s, e) in enumerate(zip(ft + pt, c.program.get_specs())):
        d = differ(s, e, rng)
        if d: return f'{what()}: specification {after[i]} becomes {cpt.to_infix_str(e.get_expr())}: {d}'
    sets = [set(id(x) for x in cpt.postorder(q, c.c.context)) for q in (c.program.ft_spec_set, c.program.pt_spec_set)]
    if sets[0] & sets[1]: return f'{what()}: a node is shared between the future-time and the past-time specifications'
    for x in c.program.postorder(c.c.context):
        for k in x.children:
            if x not in k.parents and not isinstance(x, cpt.SpecificationSet): return f'{what()}: operand {cpt.to_infix_str(k)} of {cpt.to_infix_str(x)} does not list it as a parent'
    return None
def fals_C03(seed, rounds):
    rng = random.Random(seed); n = nt = 0; samples = []
    for _ in range(rounds):
        bz = rng.random() < .3; sets = []
        for past in (False, True):
            k = rng.choice([0, 1, 1, 2, 3]); pool = []; fs = []
            for _ in range(k):
                f = gen(rng, rng.choice([1, 2, 2, 3]), past, True, True, 'abc', .1, ints=bz, pool=pool)
                fs.append(tweak(rng, rng.choice(fs)) if fs and rng.random() < .5 else f)
            sets.append(fs)
        if not sets[0] + sets[1] or any(size(s) > 60 or hor(s) > 60 for s in sets[0] + sets[1]): continue
        if rng.random() < .2 and sets[0]: sets[1] = [f for f in sets[0] if not any(k in str(f) for k in ("'G'", "'F'", "'U'", "'R'"))] or sets[1]
        labels = [rng.choice(['', f's{i}']) for i in range(len(sets[0] + sets[1]))]; key = rng.random()
        def fails(sp):
            ft, pt = [x for x in sp if x[0] == 'ft'], [x for x in sp if x[0] == 'pt']
            return cse_case([x[1] for x in ft], [x[1] for x in pt], [x[2] for x in ft + pt], random.Random(key), bz=bz)
        r = cse_case(sets[0], sets[1], labels, random.Random(key), bz=bz); n += 1; nt += 1
        if r: return dict(bad=r, n=n, nontrivial=nt, samples=samples)
        if len(samples) < 2: samples.append('; '.join(show(s) for s in sets[0] + sets[1])[:300])
    return dict(bad=None, n=n, nontrivial=nt, samples=samples)
# ------------------------------------------------------------------ end to end: compiler, assembler, C monitor
DEFAULT = ('optimize_rewrites', 'remove_extended_operators', 'optimize_cse', 'multi_operators_to_binary', 'remove_extended_operators')
def assemble(text, names, bz=False, passes=DEFAULT, asm=''):
    """(binary or None, console)"""
    c = Console(); f = write('s.c2po', text); m = write('s.map', ''.join(f'{n}:{i}\n' for i, n in enumerate(names))); b = f'{scratch()}/s.bin'
    if os.path.exists(b): os.remove(b)
    if bz: c.run('enable_booleanizer')
    c.run(f'parse_c2po {f}', f'parse_map {m}', 'type_check', 'desugar', *passes, f'assemble {asm} {b}')
    return (open(b, 'rb').read() if os.path.exists(b) else None), c
def constant(c):
    """whether the program has a specification that is a constant, which the assembler refuses"""
    import c2po.cpt as cpt
    return c.c.program is not None and any(isinstance(f, cpt.Formula) and isinstance(f.get_expr(), cpt.Constant) for f in c.program.get_specs())
def monitor(cases, names):
    """runs [(binary, trace {name: [values]})] on the monitor built from /repo: [(status, [(step, formula, time, value)])]"""
    import cmon
    exe = cmon.build('run'); enc = []
    for b, tr in cases:
        n = len(next(iter(tr.values()))) if tr else 0
        enc.append(cmon.encode(b, [[(0, int(tr[x][i])) if isinstance(tr[x][i], bool) else (2, tr[x][i]) if isinstance(tr[x][i], float) else (1, tr[x][i]) for x in names] for i in range(n)], len(names), 1))
    return [(st, [v[:4] for v in cmon.parse(txt)[0]], txt) for st, txt in cmon.batch(exe, enc)]
def judge(specs, tr, st, vs, txt=''):
    """verdicts of a run against the semantics of the specifications (None: a specification the reference does not cover)"""
    if st: return f'the monitor ends with status {st} {txt[-120:]}'
    n = len(next(iter(tr.values()))); last = [-1]*len(specs); m = {}; at = [[] for _ in specs]
    for step, f, t, v in vs:
        if f >= len(specs): return f'verdict for unknown formula {f}'
        if specs[f] is None: continue
        if t <= last[f]: return f'formula {f}: time {t} reported after time {last[f]}'
        for k in range(last[f]+1, min(t, last[f]+600)+1):
            r = ev(specs[f], tr, k, m)
            if r is None: return f'formula {f}: verdict {v} for time {k} at step {step}, before it is decided'
            if r is not v: return f'formula {f}: verdict {v} for time {k} (reported as time {t} at step {step}), the semantics says {r}'
        last[f] = t; at[f].append((step, t))
    for f, s in enumerate(specs):
        if s is None: continue
        d = wpd(s); k, known = 0, -1
        for step in range(n):
            while k < len(at[f]) and at[f][k][0] <= step: known = at[f][k][1]; k += 1
            if known < step - d: return f'formula {f}: after step {step} the verdict for time {step-d} is not out (delay {d})'
    return None
def trace(rng, names, n):
    tr = {}
    for x, k in names:
        if k == 'f': tr[x] = [rng.choice([0.0, .5, 1.0, 1.5, 2.0, -1.5, 1e6]) for _ in range(n)]; continue
        if k == 'i': tr[x] = [rng.choice([0, 1, 2, 3, 5, -1, 100, 2**31-1, -2**31] if rng.random() < .3 else [0, 1, 2, 3]) for _ in range(n)]; continue
        m = rng.choice(['iid', 'iid', 'run', 'alt', 'rare'])
        q = rng.choice([.05, .1, .2, .5, .8, .9, .95]); v = rng.random() < .5; l = []
        for i in range(n):
            if m == 'iid': v = rng.random() < q
            elif m == 'run': v = v ^ (rng.random() < .15)
            elif m == 'alt': v = not v
            else: v = rng.random() < (.04 if q < .5 else .96)
            l.append(bool(v))
        tr[x] = l
    return tr
def shows(tr): return '; '.join(f'{n}=' + (''.join(str(int(x)) for x in l) if isinstance(l[0], bool) else str(l)) for n, l in sorted(tr.items()))
def late(rng, past):
    """operands of different delays, some of which write several verdicts in one step"""
    A = lambda: ('a', rng.choice('abc'))
    iv = lambda m: (lambda l: (l, l + rng.choice([0, 1, 2, 3, rng.randrange(m+1)])))(rng.choice([0, 0, 1, 2, rng.randrange(m//2+1)]))
    un = lambda x, m=9: (rng.choice('HO' if past else 'GF'),) + iv(m) + (x,)
    bi = lambda x, y, m=20: (rng.choice('ST' if past else 'UR'),) + iv(m) + (x, y)
    lo = lambda x, y: (rng.choice(['&&', '||', '<->', '->', 'xor']), x, y)
    x = A()
    for _ in range(rng.choice([1, 1, 2, 2, 3])): x = rng.choice([un, un, lambda z: bi(z, A(), 9), lambda z: bi(A(), z, 9), lambda z: ('!', z), lambda z: lo(z, un(A()))])(x)
    y = rng.choice([A, A, lambda: un(A()), lambda: x, lambda: un(x)])()
    f = rng.choice([bi, bi, lo])(*rng.choice([(x, y), (y, x)]))
    if rng.random() < .3: f = rng.choice([un, lambda z: lo(z, A()), lambda z: bi(z, x)])(f)
    return f
def e2e_case(specs, past, tr, nm, asm='', passes=DEFAULT, bz=False):
    names_ = [n for n, _ in nm]
    b, c = assemble(source(specs, nm, past), names_, bz, passes, asm)
    if b is None: return f'not compiled: {c.text[-300:]}'
    st, vs, txt = monitor([(b, tr)], names_)[0]
    r = judge(specs, tr, st, vs, txt)
    return f'{"; ".join(show(s) for s in specs)} ({"past" if past else "future"} time, passes {" ".join(passes)}{" assemble " + asm if asm else ""}): {r}; trace {shows(tr)}' if r else None
def e2e_batch(work, bz=False):
    """work: [(specs, past, [traces], asm, passes)], all over the same signals; first failure or None"""
    cases, back = [], []
    for specs, past, trs, asm, passes, nm in work:
        b, c = assemble(source(specs, nm, past), [n for n, _ in nm], bz, passes, asm)
        if b is None and constant(c): continue          # refused, says the compiler
        if b is None: return (specs, past, trs[0], asm, passes, nm, f'{"; ".join(show(s) for s in specs)} is not compiled: {c.text[-300:]}')
        for tr in trs: cases.append((b, tr)); back.append((specs, past, tr, asm, passes, nm))
    ns = [n for n, _ in work[0][5]]
    for w, (st, vs, txt) in zip(back, monitor(cases, ns)):
        r = judge(w[0], w[2], st, vs, txt)
        if r: return w + (r,)
    return None
def e2e_min(w, bz=False):
    """a smaller failing case"""
    specs, past, tr, asm, passes, nm, r = w
    def f(sp):
        x = e2e_case(sp, past, tr, nm, asm, passes, bz)
        return None if x and x.startswith('not compiled') else x
    cur = f(specs)
    if not cur: return f'{"; ".join(show(s) for s in specs)}: {r}; trace {shows(tr)}'
    try: return reduce_specs(specs, f, 120)[1]
    except Exception: return cur
def fals_C04(seed, rounds):
    rng = random.Random(seed); n = nt = 0; samples = []; nm = [(x, 'a') for x in 'abc']
    for _ in range(max(rounds // 12, 1)):
        work = []
        for _ in range(12):
            past = rng.random() < .35; pool = []
            for _ in range(20):
                specs = [late(rng, past) if rng.random() < .6 else gen(rng, rng.choice([2, 3, 3]), past, True, False, 'abc', .08, pool=pool) for _ in range(rng.choice([1, 1, 1, 2]))]
                if all(size(s) < 40 and hor(s) < 60 for s in specs): break
            else: continue
            passes = rng.choice([DEFAULT, DEFAULT, DEFAULT[3:], ('optimize_cse',) + DEFAULT[3:]])
            asm = '' if rng.random() < .85 else f'--scq-constant {rng.choice([1, 3, 20])}'
            L = rng.choice([12, 30, 50, 80])
            work.append((specs, past, [trace(rng, nm, L) for _ in range(rng.choice([3, 6, 10]))], asm, passes, nm))
        n += sum(len(w[2]) for w in work); nt = n
        w = e2e_batch(work)
        if w: return dict(bad=e2e_min(w), n=n, nontrivial=nt, samples=samples)
        if len(samples) < 2 and work: samples.append('; '.join(show(s) for s in work[0][0])[:300])
    return dict(bad=None, n=n, nontrivial=nt, samples=samples)
def wild(rng, depth, past, bz, defs):
    """a formula over Boolean, integer and floating-point atoms and definitions"""
    def it(d, small=False):
        if d == 0 or rng.random() < .25: return rng.choice([('i', 'u'), ('i', 'u'), ('i', 'v'), ('k', rng.choice([0, 1, 2, 3, -1, -2, -100, 7, 2**31-1, -2**31+1]))])
        k = rng.choice(['+', '-', '*', '&', '|', '^', 'neg', 'abs', '~', '%', '/', 'prev'])
        if k in ('neg', 'abs', '~'): return (k, it(d-1))
        if k in '%/' and len(k) == 1: return (k, it(d-1), ('k', rng.choice([2, 3, 5, -3])))
        if k == 'prev': return ('prev', rng.choice([0, 1, 7]), ('i', rng.choice('uv')))
        return (k, it(d-1), it(d-1))
    def fl(d):
        if d == 0 or rng.random() < .4: return rng.choice([('fi', 'x'), ('fi', 'x'), ('fk', rng.choice([0.0, .5, 1.0, 1.5, 2.0, 0.25]))])
        k = rng.choice(['+', '-', '*', 'abs', 'neg']); return (k, fl(d-1)) if k in ('abs', 'neg') else (k, fl(d-1), fl(d-1))
    if depth == 0 or rng.random() < .15:
        r = rng.random()
        if defs and r < .3: return rng.choice(defs)
        if not bz or r < .55: return ('a', rng.choice('abc'))
        if r < .6: return ('==', ('a', rng.choice('abc')), ('a', rng.choice('abc')))
        if r < .85: return ('cmp', rng.choice(list(CMP)), it(rng.choice([0, 1, 2])), it(rng.choice([0, 0, 1])))
        return ('fcmp', rng.choice(list(CMP)), fl(rng.choice([0, 1])), fl(rng.choice([0, 1])))
    g = lambda: wild(rng, depth-1, past, bz, defs)
    k = rng.choice(['!', '&&', '||', '->', '<->'] + ['H', 'O', 'S', 'T'] * past + ['G', 'F', 'U', 'R'] * (not past))
    if k == '!': return (k, g())
    if k in BIN: return (k, g(), g())
    lb = rng.choice([0, 0, 1, 2, 5]); ub = lb + rng.choice([0, 1, 2, 4])
    return (k, lb, ub, g()) if k in 'GFHO' else (k, lb, ub, g(), g())
def bare(f):
    if f[0] in ('cmp', 'fcmp') and not names(f): return True
    return any(bare(x) for x in f[1:] if isinstance(x, tuple))
ALLSIG = [('a', 'a'), ('b', 'a'), ('c', 'a'), ('u', 'i'), ('v', 'i'), ('x', 'f')]
def mixed_case(cases):
    """cases: [(defs, ft, pt, bz, passes, [traces])]: first failure"""
    enc, back = [], []
    for c in cases:
        defs, ft, pt, bz, passes, trs = c
        nm = ALLSIG if bz else ALLSIG[:3]
        pre = 'DEFINE ' + ' '.join(f'{d[1]} := {show(d[2])};' for d in defs) + '\n' if defs else ''
        src = source(ft, nm, False, pt, pre)
        try: b, con = assemble(src, [n for n, _ in nm], bz, passes)
        except Exception as e: return c, f'the compiler crashes: {type(e).__name__}: {e}', src, None
        if b is None and constant(con): continue
        if b is None: return c, 'not compiled', src, None
        for tr in trs: enc.append((b, {n: tr[n] for n, _ in nm})); back.append((c, src))
    for bz in (False, True):
        sel = [(e, w) for e, w in zip(enc, back) if w[0][3] == bz]
        if not sel: continue
        for (e, w), (st, vs, txt) in zip(sel, monitor([e for e, _ in sel], [n for n, _ in (ALLSIG if bz else ALLSIG[:3])])):
            r = judge(w[0][1] + w[0][2], e[1], st, vs, txt)
            if r: return w[0], r, w[1], e[1]
    return None
def wmin(c, tr):
    defs, ft, pt, bz, passes, trs = c; tag = [('FT', f) for f in ft] + [('PT', f) for f in pt]
    def run(l):
        return mixed_case([(defs, [f for k, f in l if k == 'FT'], [f for k, f in l if k == 'PT'], bz, passes, [tr] if tr else trs)])
    go, n = True, 0; best = run(tag)
    if not best: return None
    while go and n < 80:
        go = False
        for l in [tag[:i] + tag[i+1:] for i in range(len(tag)) if len(tag) > 1] + [tag[:i] + [(k, g)] + tag[i+1:] for i, (k, f) in enumerate(tag) for g in shrinks(f)]:
            n += 1
            if n > 80: break
            r = run(l)
            if r and r[1] != 'not compiled': tag, best, go = l, r, True; break
    return best
def fals_C06(seed, rounds):
    rng = random.Random(seed); n = 0; samples = []
    for _ in range(max(rounds // 8, 1)):
        work = []
        for _ in range(8):
            bz = rng.random() < .7; defs = []
            for i in range(rng.choice([0, 0, 1, 2])):
                f = wild(rng, rng.choice([0, 1]), False, bz, defs[:])
                if not any(k in str(f) for k in ("'G'", "'F'", "'U'", "'R'")) and f[0] != 'def': defs.append(('def', f'd{i}', f))
            side = rng.choice(['f', 'p', 'fp', 'fp'])
            ft = [wild(rng, rng.choice([0, 1, 2, 2, 3]), False, bz, defs) for _ in range(rng.choice([1, 1, 2]))] if 'f' in side else []
            pt = [wild(rng, rng.choice([0, 1, 2, 2, 3]), True, bz, defs) for _ in range(rng.choice([1, 1, 2]))] if 'p' in side else []
            if any(size(s) > 50 or hor(s) > 50 or bare(s) for s in ft + pt + [d[2] for d in defs]): continue
            passes = rng.choice([DEFAULT, DEFAULT, DEFAULT[2:], DEFAULT[3:], ('remove_extended_operators', 'multi_operators_to_binary', 'remove_extended_operators')])
            work.append((defs, ft, pt, bz, passes, [trace(rng, ALLSIG, rng.choice([6, 12, 20])) for _ in range(3)]))
        n += sum(len(w[5]) for w in work)
        r = mixed_case(work)
        if r:
            r = wmin(r[0], r[3]) or r
            return dict(bad=f'{r[2]} (passes {" ".join(r[0][4])}): {r[1]}' + (f'; trace {shows(r[3])}' if r[3] else ''), n=n, nontrivial=n, samples=samples)
        if len(samples) < 2 and work: samples.append('; '.join(show(s) for s in work[0][1] + work[0][2])[:300])
    import fbnd
    bad, k = fbnd.named_cases(rng, max(rounds // 6, 10)); n += k
    return dict(bad=bad, n=n, nontrivial=n, samples=samples)
def quiet():
    import c2po.log as log
    log.set_quiet() if hasattr(log, 'set_quiet') else None
def fals(args):
    prop, seed, rounds = args
    quiet()
    if prop in ('C01', 'C02'): return fals_passes(prop, seed, rounds)
    if 'fals_' + prop in globals(): return globals()['fals_' + prop](seed, rounds)
    import importlib
    return getattr(importlib.import_module(MODULE[prop]), 'fals_' + prop)(seed, rounds)
MODULE = {'C05': 'fdes', 'C07': 'fsat', 'C08': 'ftyp', 'C09': 'fbnd', 'C10': 'fpush', 'C11': 'fprint', 'C12': 'fmap'}
if __name__ == '__main__':
    import time
    t = time.time(); r = fals((sys.argv[1], int(sys.argv[2]), int(sys.argv[3]))); print(r, time.time()-t)
