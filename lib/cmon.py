"""Builds the C monitor library of /repo with the harness (scratch directory) and runs batches of cases on it."""
import os, subprocess, tempfile, struct, pathlib, atexit, shutil, random, threading
from llir import CSRC, ExtractError
import clayout
_dir = None
def scratch():
    global _dir
    if _dir is None:
        _dir = tempfile.mkdtemp(prefix='vmon'); pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_dir, ignore_errors=True))
    return _dir
def libsources():
    return [str(f) for f in sorted(CSRC.rglob('*.c')) if 'cli' not in f.parts]
def build(harness, san=False, defs=()):
    exe = f'{scratch()}/{harness}{"_san" if san else ""}{abs(hash(tuple(defs)))}'
    if os.path.exists(exe): return exe
    fl = ['-fsanitize=address,undefined', '-fno-sanitize=shift,signed-integer-overflow', '-fno-sanitize-recover=all', '-g1'] if san else []
    r = subprocess.run(['gcc', '-std=gnu99', '-O1', '-w', *fl, *['-D'+d for d in defs], '-I', str(CSRC), '-I', str(pathlib.Path(__file__).parent.parent/'harness'),
                        '-o', exe, str(pathlib.Path(__file__).parent.parent/'harness'/(harness+'.c')), *libsources(), '-lm'], capture_output=True, text=True)
    if r.returncode: raise ExtractError('harness does not build: ' + r.stderr[-1500:])
    return exe

# ---------------------------------------------------------------- programs
OPS = {'LOAD': 1, 'NOT': 1, 'AND': 2, 'OR': 2, 'EQUIVALENT': 2, 'UNTIL': 2, 'RELEASE': 2, 'SINCE': 2, 'TRIGGER': 2, 'RETURN': 2}
TEMP = ('UNTIL', 'RELEASE', 'SINCE', 'TRIGGER')
class Prog:
    """nodes: list of dict(op, a=(kind,val), b=(kind,val), lb, ub, len); kinds: D direct, A atomic, S subformula, N none"""
    def __init__(self): self.nodes = []; self.bz = []
    def binary(self):
        C = clayout.layout()['c']
        K = {'D': C['R2U2_FT_OP_DIRECT'], 'A': C['R2U2_FT_OP_ATOMIC'], 'S': C['R2U2_FT_OP_SUBFORMULA'], 'N': C['R2U2_FT_OP_NOT_SET']}
        CG, TL, BZ = C['R2U2_ENG_CG'], C['R2U2_ENG_TL'], C['R2U2_ENG_BZ']
        tl = lambda v1, v2, m, t1, t2, op: struct.pack('<IIIBBB', v1 & 0xffffffff, v2 & 0xffffffff, m, t1, t2, op)
        out = b''
        def rec(b):
            return bytes([len(b)+1]) + b
        for op, p1, p2, m in self.bz:
            if isinstance(p1, float): f = struct.pack('<d', p1)
            else: f = struct.pack('<i', ((p1 + 2**31) % 2**32) - 2**31) + b'\0\0\0\0'
            out += rec(bytes([BZ]) + f + struct.pack('<IIB', p2, m, C[op]))
        for i, n in enumerate(self.nodes):
            out += rec(bytes([TL]) + tl(n['a'][1], n['b'][1], i, K[n['a'][0]], K[n['b'][0]], C['R2U2_MLTL_OP_' + n['op']]))
        for i, n in enumerate(self.nodes):
            out += rec(bytes([CG, TL]) + tl(n['len'], 0, i, K['A'], K['A'] if n['op'] in TEMP else K['N'], C['R2U2_MLTL_OP_CONFIGURE']))
        for i, n in enumerate(self.nodes):
            if n['op'] in TEMP:
                out += rec(bytes([CG, TL]) + tl(n['lb'], n['ub'], i, K['S'], K['S'], C['R2U2_MLTL_OP_CONFIGURE']))
        hdr = b'C2PO\0'
        return bytes([len(hdr)+1]) + hdr + out + b'\0' + b'\0'
    def show(self):
        r = []
        for i, n in enumerate(self.nodes):
            f = lambda o: {'D': 'const %d', 'A': 'a%d', 'S': 'n%d', 'N': ''}[o[0]] % ((o[1],) if o[0] != 'N' else ())
            b = f"[{n['lb']},{n['ub']}]" if n['op'] in TEMP else ''
            r.append(f"n{i}={n['op']}{b}({f(n['a'])},{f(n['b'])})|{n['len']}|")
        return ' '.join(r)
def encode(spec, trace, nsig, flags, dump=0, arenas=None):
    """trace: list of steps; each a list of nsig (tag, value)"""
    body = b''.join(bytes([t]) + (struct.pack('<d', v) if t in (2, 4) else struct.pack('<i', v) + b'\0'*4) for st in trace for t, v in st)
    ar = struct.pack('<8I', *arenas) if arenas else b''
    if arenas: flags |= 32
    return struct.pack('<6I', 0, len(spec), len(trace), nsig, flags, dump) + ar + spec + body
def batch(exe, cases, timeout=600):
    """runs encoded cases; returns [(status, text)]"""
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99', UBSAN_OPTIONS='print_stacktrace=0:exitcode=98')
    p = subprocess.run([exe], input=b''.join(cases), capture_output=True, timeout=timeout, env=env)
    out, res, k = p.stdout, [], 0
    while k + 8 <= len(out):
        st, n = struct.unpack_from('<2I', out, k); k += 8
        res.append((st, out[k:k+n].decode('latin1'))); k += n
    if len(res) != len(cases): raise RuntimeError(f'harness returned {len(res)} of {len(cases)} cases')
    return res

# ---------------------------------------------------------------- reference semantics (three-valued)
def n3(x): return None if x is None else (not x)
def and3(a, b):
    if a is False or b is False: return False
    if a is None or b is None: return None
    return True
def or3(a, b): return n3(and3(n3(a), n3(b)))
class Ref:
    def __init__(self, prog, atoms):
        self.p, self.at, self.m = prog, atoms, {}
    def opd(self, o, n):
        if o[0] == 'D': return bool(o[1])
        if o[0] == 'A': return self.at[n][o[1]] if n < len(self.at) else None
        return self.ev(o[1], n)
    def ev(self, i, n):
        k = (i, n)
        if k in self.m: return self.m[k]
        N = self.p.nodes[i]; op, a, b = N['op'], N['a'], N['b']
        lb, ub = N.get('lb', 0), N.get('ub', 0)
        if op in ('LOAD', 'RETURN'): r = self.opd(a, n)
        elif op == 'NOT': r = n3(self.opd(a, n))
        elif op == 'AND': r = and3(self.opd(a, n), self.opd(b, n))
        elif op == 'OR': r = or3(self.opd(a, n), self.opd(b, n))
        elif op == 'EQUIVALENT':
            x, y = self.opd(a, n), self.opd(b, n); r = None if x is None or y is None else x == y
        else:
            neg = op in ('RELEASE', 'TRIGGER'); q = n3 if neg else (lambda x: x)
            r = False
            rng = range(n+ub, n+lb-1, -1) if op in ('UNTIL', 'RELEASE') else range(max(0, n-ub), n-lb+1)
            for j in rng: r = or3(q(self.opd(b, j)), and3(q(self.opd(a, j)), r))
            r = q(r)
        self.m[k] = r
        return r
def delays(p):
    """worst-case delay of every node: its verdict for n is out after the step n+d"""
    d = []
    for n in p.nodes:
        dd = [0 if o[0] in 'DA' else d[o[1]] for o in (n['a'], n['b'])[:OPS[n['op']]] if o[0] != 'N' and not (n['op'] == 'RETURN' and o is n['b'])]
        m = max(dd)
        if n['op'] in ('UNTIL', 'RELEASE'): m += n['ub']
        if n['op'] in ('SINCE', 'TRIGGER'): m -= n['lb']
        d.append(m)
    return d
def gen(rng, ops=None, natoms=3, size=None, consts=True, mix=None, maxub=6):
    """random program over natoms atoms; temporal operators either all future or all past (or mixed)"""
    p = Prog(); size = size or rng.choice([1, 2, 3, 4, 6])
    for k in range(natoms): p.nodes.append(dict(op='LOAD', a=('A', k), b=('N', 0)))
    mode = mix or rng.choice(['ft', 'pt'])
    tm = ['UNTIL', 'RELEASE'] if mode == 'ft' else ['SINCE', 'TRIGGER'] if mode == 'pt' else list(TEMP)
    for _ in range(size):
        op = rng.choice(ops or (['NOT', 'AND', 'OR', 'EQUIVALENT'] + tm * 3))
        def opd(recent):
            if consts and rng.random() < .08: return ('D', rng.choice([0, 1]))
            k = len(p.nodes)
            return ('S', k-1 if recent and rng.random() < .6 else rng.randrange(k))
        n = dict(op=op, a=opd(True), b=('N', 0) if op == 'NOT' else opd(rng.random() < .5))
        if op in TEMP:
            n['lb'] = rng.choice([0, 0, 1, 2, 3, rng.randrange(maxub+1)]); n['ub'] = n['lb'] + rng.choice([0, 1, 2, 3, rng.randrange(maxub+1)])
        p.nodes.append(n)
    tops = {len(p.nodes)-1} | {rng.randrange(natoms, len(p.nodes)) for _ in range(rng.choice([0, 0, 1, 2]))}
    fn = list(range(len(tops))); rng.shuffle(fn)
    for k, t in zip(fn, sorted(tops)): p.nodes.append(dict(op='RETURN', a=('S', t), b=('D', k)))
    # a direct operand with only constants would know the future of a past operator: sizes are taken generously
    d = delays(p); L = max(max(d), 0) + sum(n.get('ub', 0) for n in p.nodes) + 3
    for n in p.nodes: n['len'] = L + rng.choice([0, 0, 1, 2])
    return p
def atoms(rng, steps, n):
    m = rng.choice(['iid', 'run', 'edge'])
    q = rng.choice([.1, .3, .5, .7, .9]); cur = [rng.random() < .5 for _ in range(n)]; out = []
    for _ in range(steps):
        for k in range(n):
            if m == 'iid': cur[k] = rng.random() < q
            elif rng.random() < (.15 if m == 'run' else .4): cur[k] = not cur[k]
        out.append(list(cur))
    return out
def parse(txt):
    """[(step, formula, time, value, kind)] and other lines"""
    step, vs, oth = -1, [], []
    for l in txt.split('\n'):
        if not l: continue
        w = l.split()
        if w[0] == 'S': step = int(w[1]); continue
        if w[0] == 'END': oth.append(l); continue
        kind = 'F'
        if w[0] == 'C': kind = 'C'; l2 = w[1]
        elif w[0] in ('RESET', 'ERR', 'TS', 'PC', 'V', 'A', 'P', 'Q', 'I', 'B', 'Z', 'LOAD', 'CRESET'): oth.append((step, l)); continue
        else: l2 = l
        try:
            f, r = l2.split(':'); t, v = r.split(',')
            vs.append((step, int(f), int(t), {'T': True, 'F': False}[v], kind))
        except (ValueError, KeyError): oth.append((step, l))
    return vs, oth
def judge(p, at, vs, steps, order=True, complete=True, value=True):
    ref = Ref(p, at); d = delays(p)
    rets = {n['b'][1]: i for i, n in enumerate(p.nodes) if n['op'] == 'RETURN'}
    last = {k: -1 for k in rets}; done = {k: [] for k in rets}
    for st, f, t, v, kind in vs:
        if f not in rets: return f'verdict for unknown formula {f}'
        if t <= last[f]:
            if order: return f'formula {f}: time {t} reported after {last[f]} (step {st})'
            continue
        if value:
            for n in range(last[f]+1, min(t, last[f]+400)+1):
                r = ref.ev(rets[f], n)
                if r is None: return f'formula {f}: verdict for time {n} at step {st} before it is decided'
                if r is not v: return f'formula {f}: verdict {v} for time {n} (reported {t} at step {st}), semantics says {r}'
                # decided by the samples seen so far, not by later ones
        last[f] = t; done[f].append((st, t))
    if complete:
        for f, i in rets.items():
            k = 0; known = -1; D = d[i]
            for st in range(steps):
                while k < len(done[f]) and done[f][k][0] <= st: known = done[f][k][1]; k += 1
                if known < st - D: return f'formula {f}: after step {st} time {st-D} is still unreported (delay {D}, last {known})'
    return None
