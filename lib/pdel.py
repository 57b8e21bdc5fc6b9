"""C04, compiler side: propagation delays and queue sizes, by symbolic execution of cpt.update_propagation_delays,
scq.is_bursty and scq.compute_scq_sizes, and the lemmas that join them to the obligations of cdel.py.
  K(n)      last time node n is known for, in step H:  H - wpd(n) <= K(n) <= H - bpd(n)
  delays    update_propagation_delays keeps both bounds, from those of the operands (bound of a verdict's time: cdel.bound)
  bursty    is_bursty says no only of chains of nodes with one operand that is not a constant
  sizes     compute_scq_sizes gives each node at least the slots the schedule lemmas ask for, from delays updated beforehand"""
import time, itertools, sys
from z3 import *
import psym as P, cdel
from psym import cpt, K, RAW, LOC
from c2po import scq, command, types as T
OPN = {K.LOGICAL_NEGATE: 'NOT', K.LOGICAL_AND: 'AND', K.LOGICAL_OR: 'OR', K.LOGICAL_EQUIV: 'EQUIVALENT', K.UNTIL: 'UNTIL', K.RELEASE: 'RELEASE', K.SINCE: 'SINCE', K.TRIGGER: 'TRIGGER'}
FT = [('!',), ('&&', 2, 'B'), ('||', 2, 'B'), ('<->',), ('U',), ('R',)]
PTK = FT[:4] + [('S',), ('T',)]
isconst = lambda h: P.split(h, lambda cls, op: cls is cpt.Constant)
def prove(name, pc, goal):
    s = Solver(); s.set('timeout', 20000)
    t = time.time(); s.add(*pc); s.add(Not(goal)); r = s.check()
    return (name, 'proved' if r == unsat else 'refuted' if r == sat else 'unknown', time.time()-t, str(s.model())[:300] if r == sat else None)
def ranged(n, past):
    """delays of a node whose delays are up to date"""
    d = RAW(n, '__dict__'); b, w = P.term(d['bpd']), P.term(d['wpd'])
    P.R.assume(And(b <= w, w <= 0) if past else And(0 <= b, b <= w))
def ctrl(fn): return f'{fn.__module__}.{fn.__name__}'
# ------------------------------------------------------------------ delays
def deljob(kind, past):
    un = P.patch_all(cpt, scq); res = []; n = 0; t0 = time.time()
    tag = f"update_propagation_delays {' '.join(map(str, kind))} {'past' if past else 'future'}"
    try:
        def body(R):
            x = P.hole('B', 'x'); P.make(x, kind); kids = []
            d = RAW(x, '__dict__'); d['bpd'], d['wpd'] = P.SymInt(Int('stale_b')), P.SymInt(Int('stale_w'))
            for c in list(d['children']):
                k = isconst(c) if kind[0] not in ('atomic',) else False; e = RAW(c, '__dict__')
                if k: e['bpd'] = e['wpd'] = 0
                else: ranged(c, past)
                kids.append((c, k))
            if isinstance(x, cpt.Operator) and x.engine is T.R2U2Engine.BOOLEANIZER: pass
            cpt.update_propagation_delays(x)
            return x, kids
        for R, out in P.explore(body, 4000, 100):
            n += 1
            if isinstance(out, Exception): res.append((f'{tag}: completes', 'refuted', 0.0, f'{type(out).__name__}: {out}')); continue
            x, kids = out; pc = list(R.pc); b, w = P.term(x.bpd), P.term(x.wpd)
            op = OPN.get(getattr(x, 'operator', None)) if x.engine is T.R2U2Engine.TEMPORAL_LOGIC else None
            if op is None:
                res.append(prove(f'{tag}: a leaf is known at once, and no later', pc, And(b == 0, w == 0))); continue
            H = Int('H'); lb, ub = (P.term(x.interval.lb), P.term(x.interval.ub)) if x.operator in (K.UNTIL, K.RELEASE, K.SINCE, K.TRIGGER) else (IntVal(0), IntVal(0))
            ks, ty = [], []; pc += [H >= 0]
            for i, (c, k) in enumerate(kids):
                Ki = Int(f'K{i}'); cb, cw = P.term(RAW(c, '__dict__')['bpd']), P.term(RAW(c, '__dict__')['wpd'])
                pc.append(Ki == (H + ub if op in ('SINCE', 'TRIGGER') else H) if k else And(H - cw <= Ki, Ki <= H - cb)); ks.append(Ki); ty.append('DIRECT' if k else 'SUBFORMULA')
            if len(ks) == 1: ks, ty = ks*2, ty*2
            nm = f"{tag} ({','.join(ty)}): "
            res.append(prove(nm + 'best case bounds every verdict time', pc, cdel.bound(op, ty[0], ty[1], ks[0], ks[1], lb, ub, H) <= H - b))
            res.append(prove(nm + 'best case before worst case', pc, b <= w))
            if past: res.append(prove(nm + 'a past-time node waits for nothing', pc, w <= 0))
            else:
                res.append(prove(nm + 'worst case bounds the wait', pc, If(ks[0] < ks[1], ks[0], ks[1]) - (ub if op in ('UNTIL', 'RELEASE') else 0) >= H - w))
                res.append(prove(nm + 'a future-time node knows no later time', pc, b >= 0))
    finally: un()
    return dict(tag=tag, res=res, paths=n, covers={}, wall=time.time()-t0, err=None, fns={ctrl(cpt.update_propagation_delays): n})
# ------------------------------------------------------------------ bursty
class Cut(Exception): pass
def burstyjob(kind):
    un = P.patch_all(cpt, scq); res = []; n = 0; t0 = time.time(); tag = f"is_bursty {' '.join(map(str, kind))}"
    real = scq.is_bursty
    try:
        def body(R):
            x = P.hole('B', 'x'); P.make(x, kind); cons = {}
            R.cut = None; R.rec = []
            def rec(e):
                if e is x: return real(e)
                R.rec.append(e); return P.SymBool(Bool('bursty_' + RAW(e, '__dict__')['name']))
            un2 = P.patch(scq, is_bursty=rec)
            old = P.force
            def force(h, only=None):
                if type(h) is P.Hole and h in RAW(x, '__dict__')['children']: R.cut = h; raise Cut
                return old(h, only)
            P.force = force
            try: out = bool(real(x))
            except Cut: out = 'next'
            finally: P.force = old; un2()
            kids = [(c, isconst(c)) for c in list.__iter__(RAW(x, '__dict__')['children'])]
            return x, kids, out
        for R, out in P.explore(body, 4000, 100):
            n += 1
            if isinstance(out, Exception): res.append((f'{tag}: completes', 'refuted', 0.0, f'{type(out).__name__}: {out}')); continue
            x, kids, r = out; open_ = [c for c, k in kids if not k]; tl = x.engine is T.R2U2Engine.TEMPORAL_LOGIC
            nm = f"{tag} ({','.join('constant' if k else 'any' for _, k in kids)}): "
            if r is True: ok = True
            elif r is False: ok = not tl or not open_ or (len(open_) == 1 and R.valid(Not(Bool('bursty_' + RAW(open_[0], '__dict__')['name']))) and open_[0] in R.rec)
            else: ok = len(open_) == 1 and R.cut is open_[0]
            res.append((nm + 'says no only of a chain of nodes with one open operand', 'proved' if ok else 'refuted', 0.0, None if ok else f'answer {r}'))
    finally: un()
    return dict(tag=tag, res=res, paths=n, covers={}, wall=time.time()-t0, err=None, fns={ctrl(scq.is_bursty): n})
# ------------------------------------------------------------------ sizes
def parents_of(cfg, x, s1, s2):
    iv = lambda: (P.SymInt(Int(P.R.fresh('plb'))), P.SymInt(Int(P.R.fresh('pub'))))
    O = cpt.Operator; TO = cpt.TemporalOperator
    def t(f, a, b):
        l, u = iv(); P.R.assume(And(0 <= l.t, l.t <= u.t)); return f(LOC, l, u, a, b)
    m = {'formula': lambda: cpt.Formula(LOC, 'phi', 7, x), 'not': lambda: O.LogicalNegate(LOC, x), 'x&x': lambda: O.LogicalAnd(LOC, [x, x]),
         'xUs': lambda: t(TO.Until, x, s1), 's<->x': lambda: O.LogicalIff(LOC, s1, x), 's2Rx': lambda: t(TO.Release, s2, x), 'x&s': lambda: O.LogicalAnd(LOC, [x, s1]), 'xUx': lambda: t(TO.Until, x, x),
         'xSx': lambda: t(TO.Since, x, x), 'xTx': lambda: t(TO.Trigger, x, x), 'xSs': lambda: t(TO.Since, x, s1), 'sTx': lambda: t(TO.Trigger, s1, x), 's2Sx': lambda: t(TO.Since, s2, x)}
    return [m[c]() for c in cfg]
CFG = {False: [('formula',), ('not',), ('x&x',), ('xUx', 'formula'), ('xUs',), ('s<->x', 'formula'), ('x&s', 's2Rx'), ('xUx', 'x&s'), ('not', 'xUs')],
       True: [('formula',), ('not',), ('x&x',), ('xSx',), ('xTx', 'not'), ('xSs',), ('sTx', 'formula'), ('x&s', 's2Sx'), ('xSx', 'x&s')]}
SIB = [('const', True), ('signal',), ('!',), ('<->',)]
class Prog(P.Program):
    def postorder(self, ctx=None): return iter(P.R.walk)
    postorder_with_definitions = postorder
    ft_spec_set = pt_spec_set = property(lambda s: _fail('one of the specification sets alone'), lambda s, v: None)
def _fail(m): raise P.Reach(m)
def sizejob(kind, cfg, past):
    un = P.patch_all(cpt, scq); res = []; n = 0; t0 = time.time()
    tag = f"compute_scq_sizes {' '.join(map(str, kind))} under {','.join(cfg)}"
    specs = object()
    def walk(start, ctx=None):
        s = start
        if s is not P.R.specs and not (isinstance(s, list) and s == P.R.specs): raise P.Reach('traversal of something else than all specifications')
        return iter(P.R.walk)
    def upd(e):
        d = RAW(e, '__dict__')
        if e in P.R.fresh_: d['bpd'], d['wpd'] = P.R.fresh_[e]
        else: d['bpd'] = d['wpd'] = 0
    bur = lambda e: P.SymBool(P.R.bursty)
    un2 = P.patch(cpt, postorder=walk, update_propagation_delays=upd); un3 = P.patch(scq, is_bursty=bur) if hasattr(scq, 'is_bursty') else lambda: None
    try:
        def body(R):
            mapped = kind[-1] == 'mapped'; k = kind[:-1] if kind[-1] in ('mapped', 'unmapped') else kind
            R.bursty = Bool('bursty'); R.fresh_ = {}; TLk = [k2 for k2 in SIB if not (past and k2 in (('U',), ('R',)))]
            e0 = P.hole('B', 'e0'); P.make(e0, ('!',)); x = P.hole('B', 'x'); P.make(x, k) if k != ('formula',) else None
            s1, s2 = P.hole('B', 's1'), P.hole('B', 's2')
            for s in (s1, s2): RAW(s, '__dict__')['allow'] = list(TLk)
            if k == ('formula',): foc = cpt.Formula(LOC, 'phi', 7, x); ps = []
            else: foc = x; ps = parents_of(cfg, x, s1, s2)
            used = [s for s in (s1, s2) if any(s in list.__iter__(p.children) for p in ps)]
            for s in [e0, x] + used:
                const = s in used and isconst(s)
                if s in used: P.force(s)
                b, w = Int(R.fresh('b')), Int(R.fresh('w')); R.assume(And(b <= w, w <= 0) if past else And(0 <= b, b <= w))
                R.fresh_[s] = (0, 0) if const or isinstance(s, cpt.Signal) or mapped and s is x else (P.SymInt(b), P.SymInt(w))
                d = RAW(s, '__dict__'); d['bpd'], d['wpd'] = P.SymInt(Int(R.fresh('stale'))), P.SymInt(Int(R.fresh('stale')))
            R.walk = [e0] + used[:1] + [x] + used[1:] + ([foc] if k == ('formula',) else []) + [p for p in ps if isinstance(p, cpt.Formula)]
            if len(used) == 1 and cfg in (('s<->x', 'formula'), ('x&s', 's2Rx')): R.walk = [e0, x] + used + R.walk[3:]
            R.specs = [cpt.Formula(LOC, 'spec', 1, e0)]
            ctx = cpt.Context(); ctx.atomic_id_map = {x: 0} if mapped else {}
            c = Int('scq_constant'); R.assume(c >= 0)
            prog = Prog(x, R.specs)
            rc = scq.compute_scq_sizes(prog, ctx, {'scq_constant': P.SymInt(c)})
            sibs = [(s, isconst(s)) for s in used]
            return foc, ps, sibs, rc, mapped, prog, ctx
        for R, out in P.explore(body, 20000, 200):
            n += 1
            if isinstance(out, Exception): res.append((f'{tag}: completes', 'refuted', 0.0, f'{type(out).__name__}: {out}')); continue
            x, ps, sibs, rc, mapped, prog, ctx = out
            if rc is not command.ReturnCode.SUCCESS: res.append((f'{tag}: succeeds', 'refuted', 0.0, str(rc))); continue
            if x.engine is not T.R2U2Engine.TEMPORAL_LOGIC and not mapped and not isinstance(x, cpt.Formula):
                continue
            size = P.term(x.scq_size); pc = list(R.pc)
            nm = f"{tag} ({','.join('constant' if k else 'any' for _, k in sibs)}): "
            try: d = P.term(x.scq[1]) - P.term(x.scq[0])
            except Exception: d = None
            res.append(prove(nm + 'the queue the assembler lays out has the size', pc, d == size) if d is not None else (nm + 'queue position', 'refuted', 0.0, str(x.scq)))
            res.append(prove(nm + 'at least one slot', pc, size >= 1))
            res.append(prove(nm + 'scq-constant enlarges every queue', pc, size >= 1 + Int('scq_constant')))
            if isinstance(x, cpt.Formula): continue
            b, w = [P.term(v) for v in R.fresh_[x]]
            open_ = [s for s, k in sibs if not k]
            if past:
                if sibs or any(cpt.is_past_time_operator(p) for p in ps): res.append(prove(nm + 'past time: everything written before the first read', pc, size >= 1 - b))
            else:
                for s in open_: res.append(prove(nm + f'verdicts that wait for operand {RAW(s, "__dict__")["name"]}', pc, size >= P.term(R.fresh_[s][1]) - b + 1))
                if open_: res.append(prove(nm + 'late verdicts of the node itself, written in one step', pc, Implies(R.bursty, size >= w - b + 1)))
    finally: un3(); un2(); un()
    return dict(tag=tag, res=res, paths=n, covers={}, wall=time.time()-t0, err=None, fns={ctrl(scq.compute_scq_sizes): n}, skip=None if res else 'no queue is needed')
# ------------------------------------------------------------------ schedule lemmas
def lemmajob():
    t0 = time.time(); H, N, Kx, Ks, w, b, ws, t, sz, cnt = Ints('H N Kx Ks wpd bpd ws t size count'); res = []
    L = lambda n, pc, g: res.append(prove('schedule: ' + n, pc, g))
    base = [H >= 1, b <= w, Kx >= H-1-w, Ks >= H-1-ws]
    inq = And(t >= N, t <= H - b)                                  # time stamps a node's queue can hold unread in step H (cdel produce)
    tot = If(H - b >= N, H - b - N + 1, 0)                         # at most that many verdicts: time stamps strictly increase
    fix = lambda k: N >= k + 1                                     # the parent went on past every time all its operands were known for (cdel consume)
    L('future: the parent waits for a sibling', base + [0 <= b, fix(Ks), sz >= ws - b + 1, sz >= 1], tot <= sz)
    L('future: the parent waits for the node itself, which is bursty', base + [0 <= b, fix(Kx), sz >= w - b + 1, sz >= 1], tot <= sz)
    L('future: the parent waits for the node itself, which writes once a step (cdel single)', base + [0 <= b, N == Kx + 1, cnt <= 1, sz >= 1], cnt <= sz)
    L('future: no sibling, each verdict is consumed before the next (cdel reads, single)', [cnt <= 1, sz >= 1], cnt <= sz)
    L('past: from the second step on the parent is up to date', [H >= 1, w <= 0, b <= w, N >= H, sz >= 1 - b, sz >= 1], tot <= sz)
    L('past: first step, nothing is read before the second pass', [H == 0, N == 0, w <= 0, b <= w, sz >= 1 - b, sz >= 1], tot <= sz)
    wi, i, j = Ints('w i j')
    L('ring: as many entries as slots never share a slot', [sz >= 1, cnt <= sz, wi >= cnt, 0 <= i, i < j, j < cnt], (wi - 1 - i) - (wi - 1 - j) < sz)
    # one pass: two readers with different positions
    return dict(tag='schedule lemmas', res=res, paths=1, covers={}, wall=time.time()-t0, err=None, fns={})
def job(a):
    try: return dict(d=deljob, b=burstyjob, s=sizejob, l=lemmajob)[a[0]](*a[1:])
    except (P.Reach, P.Timeout) as e: return dict(tag=str(a), res=[], paths=0, covers={}, wall=0, err=str(e), fns={})
def jobs(prop='C04', tier='quick'):
    js = [('d', k, p) for p in (False, True) for k in (PTK if p else FT) + [('signal',), ('const', True), ('atomic', 'B'), ('==', 'I')]]
    js += [('b', k) for k in FT + PTK[4:] + [('signal',), ('const', True), ('atomic', 'B'), ('==', 'I')]]
    leaf = [('signal', 'mapped'), ('==', 'I', 'mapped')]
    js += [('s', k, c, p) for p in (False, True) for k in (PTK if p else FT) + leaf for c in CFG[p]] + [('s', ('formula',), (), p) for p in (False, True)]
    return [('pdel', j) for j in js + [('l',)]]
if __name__ == '__main__':
    import multiprocessing as mp
    js = [j for _, j in jobs() if len(sys.argv) < 2 or j[0] in sys.argv[1]]
    tot = 0
    with mp.Pool(8) as pool:
        for r in pool.imap_unordered(job, js):
            bad = [x for x in r['res'] if x[1] != 'proved']; tot += len(r['res'])
            if bad or r['err'] or not r['res']: print(r['tag'], 'paths', r['paths'], 'obl', len(r['res']), 'bad', len(bad), f"{r['wall']:.1f}s", r['err'] or '')
            for x in bad[:4]: print('   ', x[0], x[1], (x[3] or '').replace('\n', ' ')[:300])
    print(tot)
