"""C04, monitor side: what the queue-size argument needs from each temporal-layer instruction (all proved on the LLVM IR of
mltl.c, under the representation invariant that M01-M03 prove):
  produce   a verdict's time stamp is at most the bound that update_propagation_delays turns into the best-case delay
  once      at most one verdict is written per execution
  reads     every execution reads every queue operand, at the node's position before the execution (start of a past node excepted)
  consume   an execution with every operand known at the node's position moves the position, and flags it
  single    a node with one queue operand that has at most one unread verdict consumes all of it when it writes, and nothing more
            is written in this step by the constant operand alone"""
import z3, time, sys, multiprocessing as mp
import llir, cops, irsym
from cops import OpVC, T31, discharge, L, R, H0, H1, c
from irsym import Unsupported

def bound(op, t0, t1, h0, h1, lb, ub, ts):
    """last time a verdict of an instruction can carry, from the last times its operands are known for (pdel.py turns it into the
    best-case delay)"""
    mx = lambda x, y: z3.If(x > y, x, y)
    if op in ('LOAD', 'NOT', 'RETURN'): return h0
    if op in ('AND', 'OR', 'EQUIVALENT'): return mx(h0, h1)
    if op in ('UNTIL', 'RELEASE'): return mx(h0, h1) - lb
    st = ts + lb - 1
    if t1 == 'DIRECT': return mx(st, ts + 2*ub)
    if t0 == 'DIRECT': return mx(st, h1 + ub)
    return mx(st, mx(h0, h1) + lb)

class DelVC(OpVC):
    def setup(self):
        super().setup()
        p = self.p0; p.ghost['reads'] = (); p.ghost['rp'] = ()
        if self.past: p.pc += [f for _, f in self.known(self.N0, self.O0, self.E0, self.eb0)]
    def known(self, N, O, E, eb):
        return [('the edge is a known time', z3.Implies(eb, E <= self.H1())), ('what is held is known', z3.Implies(N < O - self.lb, self.H0() >= O - self.lb - 1))]
    def prove(self, name, path, goal): pass
    def ob(self, name, path, goal): self.obl.append((name, list(path.pc), goal))
    def scq_read(self, ex, path, args):
        num = args[4]; N = ex.rd(path, self.kN, args[2], None)
        for q, r in super().scq_read(ex, path, args):
            q.ghost['reads'] = q.ghost['reads'] + ((num, N),)
            yield q, r
    def verdict(self, ex, path, v, what):
        super().verdict(ex, path, v, what)
        t, tr = ex.verdof(path, v)
        path.ghost['t'] = t
    def bound(self): return bound(self.opname, self.t0, self.t1, self.H0(), self.H1(), self.lb, self.ub, self.ts)
    def post(self, ex, p, ret):
        C = self.lay['c']
        if self.opname == 'RETURN': did = p.ghost['rep'] + p.ghost.get('cb', 0)
        else: did = p.ghost['pushed']
        N = ex.rd(p, self.kN, self.m, None)
        Nin = z3.If(self.N0 < self.lb, self.lb, self.N0) if self.opname in ('UNTIL', 'RELEASE') else self.N0
        if self.opname != 'RETURN':
            self.ob('once: at most one verdict per execution', p, z3.BoolVal(did <= 1))
            if did: self.ob('produce: time stamp within the best-case delay', p, p.ghost['t'] <= self.bound())
        if self.past:
            E_, eb = ex.verdof(p, ex.rd(p, self.kQ, self.tix('edge'), None))
            for nm, f in self.known(N, p.ghost['O'], E_, eb): self.ob('invariant: ' + nm, p, f)
        subs = [i for i, t in ((0, self.t0), (1, self.t1)) if t == 'SUBFORMULA']
        start = z3.And(z3.Not(self.prod0), self.P0 < self.lb) if self.past else z3.BoolVal(False)
        out = z3.Or(z3.Not(self.nofile), z3.Not(self.nofunc)) if self.opname == 'RETURN' else z3.BoolVal(True)
        for i in subs:
            hit = [z3.And((n if z3.is_bool(n) else n != 0) if i else z3.Not(n if z3.is_bool(n) else n != 0), at == Nin) for n, at in [(ex.B(x[0]), x[1]) for x in p.ghost['reads']]]
            self.ob(f'reads: operand {i} is read at the node\'s position', p, z3.Or([start] + hit))
        if self.t0 != 'ATOMIC':
            known = [self.H0() >= Nin] + ([] if self.unary else [self.H1() >= Nin])
            adv = N > Nin
            self.ob('consume: advances when every operand is known at its position', p, z3.Implies(z3.And(known + [out]), z3.Or(adv, z3.And(start, z3.BoolVal(bool(did))))))
            pv = p.mem.get(self.kprog, [(None, p.base[self.kprog])])[-1][1]
            if self.prog == 'RELOOP_NO_PROGRESS' and self.opname != 'RETURN' and not self.past:
                self.ob('consume: an advance is flagged as progress', p, z3.Implies(N > Nin, pv == C['R2U2_MONITOR_PROGRESS_RELOOP_WITH_PROGRESS']))
        else:
            self.ob('once: the atomic is loaded in the first pass only', p, z3.BoolVal(did == (1 if self.prog == 'FIRST_LOOP' else 0)))
        # one unread verdict: one execution consumes it
        if subs and not self.past:
            flat = []
            for i in subs: flat += [(H0, H1)[i] <= self.ts, (H0, H1)[i] >= Nin]
            if len(subs) == 2: flat += [self.v0 == self.v1, H0 == H1, z3.ForAll([c], L(c) == R(c))]
            p2 = p.clone(); p2.pc += flat + [t == (H0 if 0 in subs else H1) for t in self.readtimes(p)]
            self.ob('single: an execution consumes the only unread verdict', p2, z3.Implies(out, N > (H0 if 0 in subs else H1)))
        # one queue operand: what it writes
        if len(subs) == 1 and not self.past and self.opname != 'RETURN' and did:
            h, s = (H0, L) if subs[0] == 0 else (H1, R)
            one = [h <= self.ts, z3.Exists([c], z3.And(c == 0, z3.BoolVal(True)))][:1]
            flat = z3.ForAll([c], z3.Implies(z3.And(c >= Nin, c <= h), s(c) == s(Nin)))
            const = {'AND': self.cv() == 0, 'OR': self.cv() != 0, 'UNTIL': self.cv() == 0 if subs[0] == 0 else None, 'RELEASE': self.cv() != 0 if subs[0] == 0 else None}.get(self.opname)
            const = z3.BoolVal(False) if const is None else const               # the node is constant: its verdicts merge
            p2 = p.clone(); p2.pc += one + [flat, h >= Nin]
            # 'flat' and merging make the unread data one verdict: a read returns all of it
            for n, at in p.ghost['reads']: pass
            for t in self.readtimes(p): p2.pc.append(t == h)
            self.ob('single: a write consumes the whole verdict', p2, z3.Or(const, N > h))
            p3 = p.clone(); p3.pc += one + [h < Nin]
            self.ob('single: a write without new data is the last of the step', p3, z3.Or(const, N > self.ts))
            p4 = p.clone(); p4.pc += one
            alone = self.alone()
            self.ob('single: after a write the constant alone does not write again', p4, z3.Or(const, N > self.ts, z3.Not(alone)))
        self.covers[did] = self.covers.get(did, 0) + 1
    def readtimes(self, p):
        seen, out = set(), []
        def walk(e):
            if e.get_id() in seen: return
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().name().startswith('rt'): out.append(e)
            for x in e.children(): walk(x)
        for f in p.pc: walk(f)
        return out
    def cv(self): return self.v1 if self.t1 == 'DIRECT' else self.v0
    def alone(self):
        """the constant operand alone decides the node"""
        v = self.cv() != 0; o = self.opname
        if o == 'AND': return z3.Not(v)
        if o == 'OR': return v
        if o == 'UNTIL': return v if self.t1 == 'DIRECT' else z3.BoolVal(False)
        if o == 'RELEASE': return z3.Not(v) if self.t1 == 'DIRECT' else z3.BoolVal(False)
        return z3.BoolVal(False)

def job(args):
    opname, t0, t1, prog, text = args
    t = time.time(); tag = f'{opname}({t0},{t1}) {prog}'
    try:
        vc = DelVC(llir.Module(text), opname, t0, t1, prog).go()
        res = []
        for n, pc, g in vc.obl:
            g = z3.simplify(g)
            res.append((f'{tag}: {n}',) + (('proved', 0.0, None) if z3.is_true(g) else discharge(n, pc, g)))
        return dict(tag=tag, res=res, paths=vc.npaths, covers=vc.covers, wall=time.time()-t, err=None, fns=vc.ex.bounds)
    except (Unsupported, llir.ExtractError, KeyError) as e:
        return dict(tag=tag, res=[], paths=0, covers={}, wall=time.time()-t, err=f'{type(e).__name__}: {e}', fns={})
OPS = ('UNTIL', 'RELEASE', 'SINCE', 'TRIGGER', 'LOAD', 'NOT', 'AND', 'OR', 'EQUIVALENT', 'RETURN')
def jobs(prop='C04', tier='quick'):
    text = llir.extract()
    return [('cdel', j) for j in cops.alljobs(OPS, text)]
if __name__ == '__main__':
    text = llir.extract()
    js = cops.alljobs(sys.argv[1].split(',') if len(sys.argv) > 1 else OPS, text)
    with mp.Pool(8) as pool:
        for r in pool.imap_unordered(job, js):
            bad = [x for x in r['res'] if x[1] != 'proved']
            print(r['tag'], 'paths', r['paths'], 'obl', len(r['res']), 'bad', len(bad), r['covers'], f"{r['wall']:.1f}s", r['err'] or '')
            for x in bad[:6]: print('   ', x[0], x[1], f'{x[2]:.1f}', (x[3] or '').replace('\n', ' ')[:300])
