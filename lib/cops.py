"""Contracts of the temporal-layer instructions of the C monitor (r2u2_mltl_update, one case per opcode), and the
verification conditions for them.  The function body is the LLVM IR of /repo's mltl.c; r2u2_scq_read and
r2u2_scq_write are replaced by their contracts (which cscq.py proves on their bodies)."""
import z3, time, sys, itertools, multiprocessing as mp, os, traceback
import llir, clayout, irsym
from irsym import Exec, Path, Ptr, Fn, Opq, Region, Unsupported, NULL

T31 = 2**31
L = z3.Function('L', z3.IntSort(), z3.BoolSort())     # truth stream of operand 0
R = z3.Function('R', z3.IntSort(), z3.BoolSort())     # truth stream of operand 1
H0, H1 = z3.Ints('H0 H1')                             # last time known of each operand
a, b, c, d = z3.Ints('a b c d')

class OpVC:
    def __init__(self, mod, opname, t0, t1, prog):
        self.mod, self.opname, self.t0, self.t1, self.prog = mod, opname, t0, t1, prog
        self.lay = clayout.layout(); C = self.lay['c']
        self.op = C['R2U2_MLTL_OP_' + opname]
        self.obl = []           # (name, pc, goal)
        self.covers = {}
        self.temporal = opname in ('UNTIL', 'RELEASE', 'SINCE', 'TRIGGER')
        self.past = opname in ('SINCE', 'TRIGGER')
        self.unary = opname in ('LOAD', 'RETURN', 'NOT')
        if t0 == 'DIRECT': self.s0 = lambda t: self.v0 != 0
        elif t0 == 'ATOMIC': self.s0 = lambda t: self.atom(self.v0) != 0
        else: self.s0 = lambda t: L(t)
        if t1 == 'DIRECT': self.s1 = lambda t: self.v1 != 0
        elif t1 == 'ATOMIC': self.s1 = lambda t: self.atom(self.v1) != 0
        else: self.s1 = lambda t: R(t)
    # ---- the semantics, taken from the property statement
    def sem(self, n):
        """truth of the node at time n, as (formula, hints)"""
        lb, ub, l, r = self.lb, self.ub, self.s0, self.s1
        o = self.opname
        if o in ('LOAD', 'RETURN'): return l(n)
        if o == 'NOT': return z3.Not(l(n))
        if o == 'AND': return z3.And(l(n), r(n))
        if o == 'OR': return z3.Or(l(n), r(n))
        if o == 'EQUIVALENT': return l(n) == r(n)
        if o in ('RELEASE', 'TRIGGER'):
            l0, r0 = l, r
            l, r = (lambda t: z3.Not(l0(t))), (lambda t: z3.Not(r0(t)))
        if o in ('UNTIL', 'RELEASE'):
            f = z3.Exists([a], z3.And(a >= n+lb, a <= n+ub, r(a), z3.ForAll([c], z3.Implies(z3.And(c >= n+lb, c < a), l(c)))))
        else:
            f = z3.Exists([a], z3.And(a >= n-ub, a >= 0, a <= n-lb, r(a), z3.ForAll([c], z3.Implies(z3.And(c > a, c <= n-lb), l(c)))))
        return z3.Not(f) if o in ('RELEASE', 'TRIGGER') else f
    def inv(self, S):
        """representation invariant of one node: S = dict(N,P,prod,E,eb)"""
        N, O, lb, ub, l, r = S['N'], S['O'], self.lb, self.ub, self.s0, self.s1
        o = self.opname
        if o in ('RELEASE', 'TRIGGER'):
            l0, r0 = l, r
            l, r = (lambda t: z3.Not(l0(t))), (lambda t: z3.Not(r0(t)))
        if not self.temporal: return [('next', N == O)]
        out = [('O', O == z3.If(S['prod'], S['P']+1, 0)), ('startup', z3.Implies(z3.Not(S['prod']), S['P'] == 0))]
        if not self.past:
            out += [('N range', z3.Or(z3.And(N <= lb, O == 0), z3.And(N >= O+lb, N <= O+ub))),
                    ('L held', z3.ForAll([c], z3.Implies(z3.And(c >= O+lb, c < N), z3.And(l(c), z3.Not(r(c))))))]
        else:
            E, eb = S['E'], S['eb']
            M = O - lb
            out += [('past startup', z3.Or(z3.And(z3.Not(S['prod']), N == 0, z3.Not(eb)), z3.And(M >= 0, N <= M))),
                    ('N', N >= 0),
                    ('edge', z3.Implies(eb, z3.And(r(E), E >= 0, E < N, z3.Or(E < O-ub, z3.ForAll([c], z3.Implies(z3.And(c > E, c < N), l(c))))))),
                    ('held', z3.ForAll([c], z3.Implies(z3.And(c >= N, c < M), l(c)))),
                    ('dead', z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < N, r(a)),
                        z3.Or(z3.And(eb, a <= E), a < O-ub, z3.Exists([c], z3.And(c > a, c < N, z3.Not(l(c))))))))]
        return out
    # ---- symbolic start state
    def setup(self):
        lay, C = self.lay, self.lay['c']
        off, size = lay['off'], lay['size']
        MT, IT, CB, TB = 'r2u2_monitor_t', 'r2u2_mltl_instruction_t', 'r2u2_scq_control_block_t', 'r2u2_scq_temporal_block_t'
        ex = self.ex = Exec(self.mod, 'int', unroll=6)
        ex.regions = {'TL': Region('TL', size[IT]), 'CB': Region('CB', size[CB]), 'QM': Region('QM', 4), 'ATOM': Region('ATOM', 1)}
        p = self.p0 = Path('int')
        iv = z3.Int
        self.pcnt, self.m, self.ts, self.lb, self.ub = z3.Ints('pcnt m ts lb ub')
        self.v0, self.v1 = z3.Ints('v0 v1')
        self.N0, self.P0, self.E0, self.O0 = z3.Ints('N0 P0 E0 O0'); self.prod0, self.eb0 = z3.Bools('prod0 eb0')
        qb = z3.Function('qbase', z3.IntSort(), z3.IntSort()); ln = z3.Function('qlen', z3.IntSort(), z3.IntSort())
        self.atom = z3.Function('atom', z3.IntSort(), z3.IntSort())
        nexts = z3.Function('other_next', z3.IntSort(), z3.IntSort())
        def mon(f, v): p.base['MON', off[MT, f]] = v
        mon('time_stamp', self.ts)
        self.kprog = ('MON', off[MT, 'progress'])
        p.base[self.kprog] = z3.IntVal(C['R2U2_MONITOR_PROGRESS_' + self.prog])
        mon('mltl_program_count.curr_program_count', self.pcnt)
        mon('mltl_instruction_tbl', Ptr('TL')); mon('atomic_buffer', Ptr('ATOM')); mon('value_buffer', Ptr('VAL')); mon('signal_vector', Ptr('SIG'))
        mon('queue_arena.control_blocks', Ptr('CB')); mon('queue_arena.queue_mem', Ptr('QM'))
        self.nofile, self.nofunc = z3.Bools('nofile nofunc')
        mon('out_file', Ptr(('maybenull', self.nofile))); mon('out_func', Ptr(('maybenull', self.nofunc)))
        def ins(f, v):
            p.base['TL', off[IT, f]] = lambda i, v=v: v
        ins('opcode', z3.IntVal(self.op)); ins('memory_reference', self.m)
        ins('op1_value', self.v0); ins('op2_value', self.v1)
        ins('op1_type', z3.IntVal(C['R2U2_FT_OP_' + self.t0])); ins('op2_type', z3.IntVal(C['R2U2_FT_OP_' + self.t1]))
        ex.cellw = {('TL', off[IT, f]): lay['fsize'][IT, f] for f in ('opcode', 'memory_reference', 'op1_value', 'op2_value', 'op1_type', 'op2_type')}
        p.base['CB', off[CB, 'queue']] = lambda i: Ptr('QM', ((qb(i), 4),))
        p.base['CB', off[CB, 'length']] = lambda i: ln(i)
        self.kN = ('CB', off[CB, 'next_time'])
        p.base[self.kN] = lambda i: nexts(i)
        p.mem[self.kN] = [(self.m, self.N0)]
        p.base['ATOM', 0] = lambda i: self.atom(i)
        tbase = z3.simplify(qb(self.m) + ln(self.m))
        tix = lambda f: z3.simplify(tbase + off[TB, f]//4)
        self.kQ = ('QM', 0)
        other = z3.Function('qmem', z3.IntSort(), z3.IntSort())
        p.base[self.kQ] = lambda i: other(i)
        self.tix = tix
        p.mem[self.kQ] = [(tix('lower_bound'), self.lb), (tix('upper_bound'), self.ub), (tix('previous'), ex.mkverd(self.P0, self.prod0)), (tix('edge'), ex.mkverd(self.E0, self.eb0))]
        p.mem[self.kQ] = list(p.mem[self.kQ])
        pre = [self.ts >= 0, self.m >= 0, self.m < T31, self.pcnt >= 0, self.pcnt < 2**20, qb(self.m) >= 0, qb(self.m) < 2**30, ln(self.m) >= 1, ln(self.m) < 2**30,
               self.lb >= 0, self.lb <= self.ub, self.ts + self.ub < T31 - 2, self.N0 >= 0, self.N0 < T31, self.P0 >= 0, self.P0 < T31, self.E0 >= 0, self.E0 < T31, self.O0 >= 0,
               self.v0 >= 0, self.v0 < 2**32, self.v1 >= 0, self.v1 < 2**32,
               z3.ForAll([a], z3.And(self.atom(a) >= 0, self.atom(a) <= 1))]
        # every operand time, and the next output, stays in the 31-bit range
        hz = self.ts
        pre += [self.H0() >= -1, self.H1() >= -1, self.H0() + self.ub < T31 - 2, self.H1() + self.ub < T31 - 2]
        if self.t0 == 'ATOMIC': pre.append(z3.Implies(self.prog == 'FIRST_LOOP', self.N0 == self.ts) if False else (self.N0 == self.ts))
        S0 = dict(N=self.N0, P=self.P0, prod=self.prod0, E=self.E0, eb=self.eb0, O=self.O0)
        p.pc = pre + [f for _, f in self.inv(S0)]
        p.ghost['O'] = self.O0; p.ghost['pushed'] = 0; p.ghost['maxN'] = self.N0; p.ghost['rep'] = 0
        self.S0 = S0
        ex.stubs = {'r2u2_scq_read': self.scq_read, 'r2u2_scq_write': self.scq_write, 'fprintf': self.fprintf, '<indirect>': self.outfunc,
                    'r2u2_aux_formula_report': self.aux, 'r2u2_aux_contract_report': self.aux}
    def H0(self): return (self.ts + self.ub if self.past else self.ts) if self.t0 in ('DIRECT', 'ATOMIC') else H0
    def H1(self): return (self.ts + self.ub if self.past else self.ts) if self.t1 in ('DIRECT', 'ATOMIC') else H1
    def prove(self, name, path, goal):
        self.obl.append((name, list(path.pc), goal))
    # ---- contracts of the callees
    def scq_read(self, ex, path, args):
        cbp, qm, parent, child, num, res = args
        self.prove('read: own node', path, parent == self.m)
        N = ex.rd(path, self.kN, parent, None)
        num = z3.simplify(ex.B(num))
        opts = [(False, num), (True, num)]
        for one in (0, 1):
            cnd = z3.simplify(num if one else z3.Not(num))
            if not ex.may(path, cnd): continue
            p1 = path.clone()
            if not z3.is_true(cnd): p1.pc.append(cnd)
            ty, val, H, s = ((self.t1, self.v1, H1, R) if one else (self.t0, self.v0, H0, L))
            self.prove('read: operand is a subformula', p1, z3.BoolVal(ty == 'SUBFORMULA'))
            self.prove('read: reads its operand\'s queue', p1, child == val)
            t = z3.Int(irsym.fresh('rt')); bb = z3.Bool(irsym.fresh('rb'))
            yes = p1.clone()
            yes.pc += [t >= N, t <= H, z3.ForAll([c], z3.Implies(z3.And(c >= N, c <= t), s(c) == bb)), s(t) == bb, s(N) == bb,
                       z3.Or(t == H, s(t+1) == z3.Not(bb), t == 0)]     # verdicts are merged (cscq.py)
            v = ex.mkverd(t, bb)
            if ex.may(yes, z3.BoolVal(True)):
                ex.store(yes, res, ('i', 32), v)
                yes.ghost['maxN'] = N
                yield yes, z3.BoolVal(True)
            no = p1
            no.pc.append(H < N)
            if ex.may(no, z3.BoolVal(True)):
                no.ghost['maxN'] = N
                yield no, z3.BoolVal(False)
    def verdict(self, ex, path, v, what):
        t, tr = ex.verdof(path, v)
        O = path.ghost['O']
        n = z3.Int('n!')
        self.prove(f'{what}: time stamps increase', path, t >= O)
        self.prove(f'{what}: time stamp in range', path, z3.And(t >= 0, t < T31))
        p2 = path.clone(); p2.pc += [n >= O, n <= t]
        trs = z3.simplify(tr)
        if not (z3.is_true(trs) or z3.is_false(trs)):
            for val in (True, False):
                p3 = p2.clone(); p3.pc.append(tr if val else z3.Not(tr))
                self.prove(f'{what}: {"T" if val else "F"} is the semantics', p3, self.sem(n) if val else z3.Not(self.sem(n)))
        else:
            val = z3.is_true(trs)
            self.prove(f'{what}: {"T" if val else "F"} is the semantics', p2, self.sem(n) if val else z3.Not(self.sem(n)))
        path.ghost['O'] = t + 1
    def scq_write(self, ex, path, args):
        cbp, qm, qid, v = args
        self.prove('push: own queue', path, qid == self.m)
        if self.opname == 'RETURN': self.prove('return writes no queue', path, z3.BoolVal(False))
        self.verdict(ex, path, v, 'push')
        path.ghost['pushed'] += 1
        yield path, z3.IntVal(self.lay['c']['R2U2_OK'])
    def fprintf(self, ex, path, args):
        # "%d:%u,%s\n"
        fmt = args[1]
        g = self.mod.globals.get('@' + fmt.reg[1]) if isinstance(fmt, Ptr) and isinstance(fmt.reg, tuple) and fmt.reg[0] == 'glob' else None
        if self.opname != 'RETURN': raise Unsupported('fprintf outside RETURN')
        if g is None or '%d:%u,%s\\0A' not in g and '%u:%u,%s\\0A' not in g: raise Unsupported('report format ' + str(g))
        _, _, num, t, s = args
        self.prove('report: formula number', path, num == self.v1)
        for val, pp, sp in self.strcases(ex, path, s):
            self.prove('report: time is the operand\'s', pp, z3.And(t >= pp.ghost['O'], t < T31))
            n = z3.Int('n!'); p2 = pp.clone(); p2.pc += [n >= pp.ghost['O'], n <= t]
            self.prove('report: value is the operand\'s', p2, L(n) == z3.BoolVal(val) if self.t0 == 'SUBFORMULA' else (self.s0(n) == z3.BoolVal(val)))
            pp.ghost['rep'] += 1; pp.ghost['reptime'] = t
            yield pp, z3.IntVal(0)
    def strcases(self, ex, path, s):
        if isinstance(s, Ptr) and isinstance(s.reg, tuple) and s.reg[0] == 'glob':
            g = self.mod.globals['@' + s.reg[1]]
            if 'c"T\\00"' in g: yield True, path, None; return
            if 'c"F\\00"' in g: yield False, path, None; return
        raise Unsupported('report string')
    def outfunc(self, ex, path, args):
        v = ex.load(path, args[-1], ('i', 32))
        t, tr = ex.verdof(path, v)
        O = path.ghost['O']; n = z3.Int('n!')
        p2 = path.clone(); p2.pc += [n >= O, n <= t]
        self.prove('callback: value is the operand\'s', p2, self.s0(n) == tr)
        self.prove('callback: time', path, t >= O)
        path.ghost['cb'] = path.ghost.get('cb', 0) + 1
        path.ghost['reptime'] = t
        yield path, z3.IntVal(0)
    def aux(self, ex, path, args):
        yield path, z3.IntVal(0)
    def cands(self, name, pc):
        if 'semantics' not in name: return ()
        n = z3.Int('n!'); ws = [n + self.lb, n - self.lb, n - self.ub, n + self.ub, self.N0, self.E0, z3.IntVal(0), self.ts, self.ts + self.ub]
        seen = set()
        def walk(e):
            if e.get_id() in seen: return
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().name().startswith('rt!'): ws.append(e)
            for x in e.children(): walk(x)
        for f in pc: walk(f)
        return ws
    # ---- postconditions
    def go(self):
        self.setup()
        ex = self.ex; C = self.lay['c']
        npaths = 0
        for p, ret in ex.run('r2u2_mltl_update', [Ptr('MON')], self.p0):
            npaths += 1
            self.post(ex, p, ret)
        self.npaths = npaths
        return self
    def post(self, ex, p, ret):
        C, off = self.lay['c'], self.lay['off']
        self.prove('returns OK', p, ret == C['R2U2_OK'])
        N = ex.rd(p, self.kN, self.m, None)
        S = dict(N=N, O=p.ghost['O'], P=self.P0, prod=self.prod0, E=self.E0, eb=self.eb0)
        if self.temporal:
            P_, prod = ex.verdof(p, ex.rd(p, self.kQ, self.tix('previous'), None))
            E_, eb = ex.verdof(p, ex.rd(p, self.kQ, self.tix('edge'), None))
            S.update(P=P_, prod=prod, E=E_, eb=eb)
            for f, v in (('lower_bound', self.lb), ('upper_bound', self.ub)):
                self.prove('frame: bounds kept', p, ex.rd(p, self.kQ, self.tix(f), None) == v)
        if self.opname == 'RETURN' and p.ghost.get('reptime') is not None:
            p.ghost['O'] = p.ghost['reptime'] + 1; S['O'] = p.ghost['O']
        if self.opname == 'RETURN' and p.ghost.get('reptime') is None:
            # nothing reported: either no data, or no output was asked for
            consumed = z3.Not(N == self.N0)
            self.prove('return reports what it consumes', p, z3.Implies(z3.Or(z3.Not(self.nofile), z3.Not(self.nofunc)), N == self.N0))
            S['O'] = N; p.ghost['O'] = N
        for nm, f in self.inv(S):
            self.prove('invariant: ' + nm, p, f)
        self.prove('reader position: next_time never goes back', p, N >= p.ghost['maxN'])
        # frame: nothing else is written
        allowed = {self.kprog, self.kN, self.kQ}
        for k, ws in p.mem.items():
            if k in allowed or (isinstance(k[0], tuple) and k[0][0] == 'stack'): continue
            self.prove(f'frame: {k} is not written', p, z3.BoolVal(False))
        for idx, v in p.mem.get(self.kN, []):
            self.prove('frame: next_time of own node only', p, idx == self.m)
        for idx, v in p.mem.get(self.kQ, []):
            self.prove('frame: own temporal block only', p, z3.Or([idx == self.tix(f) for f in ('edge', 'previous', 'lower_bound', 'upper_bound')]))
        # progress
        pv = p.mem.get(self.kprog, [(None, p.base[self.kprog])])[-1][1]
        NO, WITH, FIRST = (C['R2U2_MONITOR_PROGRESS_' + x] for x in ('RELOOP_NO_PROGRESS', 'RELOOP_WITH_PROGRESS', 'FIRST_LOOP'))
        did = p.ghost['pushed'] + p.ghost['rep'] + p.ghost.get('cb', 0)
        if self.prog == 'FIRST_LOOP': self.prove('progress: first loop flag kept', p, pv == FIRST)
        elif self.prog == 'RELOOP_WITH_PROGRESS': self.prove('progress: flag kept', p, pv == WITH)
        elif did: self.prove('progress: flagged when a verdict is produced', p, pv == WITH)
        else: self.prove('progress: flagged only if the node advanced', p, z3.Or(pv == NO, z3.And(pv == WITH, N > self.N0)))
        # no stall
        if not did:
            if self.unary: dl = [self.H0() >= self.O0]
            elif not self.temporal: dl = [self.H0() >= self.O0, self.H1() >= self.O0]
            elif not self.past: dl = [self.H0() >= self.O0 + self.ub, self.H1() >= self.O0 + self.ub]
            else: dl = [self.H0() >= self.O0 - self.lb, self.H1() >= self.O0 - self.lb]
            if self.t0 == 'ATOMIC' and self.prog != 'FIRST_LOOP': dl = None
            out_asked = z3.Or(z3.Not(self.nofile), z3.Not(self.nofunc)) if self.opname == 'RETURN' else z3.BoolVal(True)
            if dl: self.prove('no stall: advances when both operands are known up to the deadline', p, z3.Implies(z3.And(dl), N > z3.If(self.N0 < self.lb, self.lb, self.N0) if self.opname in ('UNTIL', 'RELEASE') else N > self.N0))
        self.covers[did] = self.covers.get(did, 0) + 1

def weaken(goal, cands):
    """strengthen Exists-goals by explicit witnesses (sound: each disjunct implies the goal)"""
    g = goal
    if z3.is_quantifier(g) and g.is_exists() and g.num_vars() == 1:
        return z3.Or([z3.substitute_vars(g.body(), w) for w in cands])
    if z3.is_not(g) and z3.is_quantifier(g.arg(0)) and g.arg(0).is_forall() and g.arg(0).num_vars() == 1:
        return z3.Or([z3.substitute_vars(z3.Not(g.arg(0).body()), w) for w in cands])
    return None

def discharge(name, pc, goal, timeout=8000, cands=()):
    t = time.time()
    if cands:
        w = weaken(goal, cands)
        if w is not None:
            s = z3.Solver(); s.set('timeout', timeout); s.set('auto_config', False); s.set('smt.mbqi', False)
            for f in pc: s.add(f)
            s.add(z3.Not(w))
            if s.check() == z3.unsat: return 'proved', time.time() - t, None
    for cfg in (dict(auto_config=False, mbqi=False), dict(), dict(tactic=1)):
        s = z3.Solver() if 'tactic' not in cfg else z3.Then('simplify', 'propagate-values', 'solve-eqs', 'smt').solver()
        s.set('timeout', timeout)
        if 'auto_config' in cfg:
            s.set('auto_config', False); s.set('smt.mbqi', False)
        for f in pc: s.add(f)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat: return 'proved', time.time() - t, None
        if r == z3.sat: return 'refuted', time.time() - t, str(s.model())[:1500]
    return 'unknown', time.time() - t, None

def cases(opname):
    if opname in ('LOAD',): return [('ATOMIC', 'NOT_SET'), ('SUBFORMULA', 'NOT_SET'), ('DIRECT', 'NOT_SET')]
    if opname in ('RETURN',): return [('SUBFORMULA', 'DIRECT'), ('DIRECT', 'DIRECT')]
    if opname == 'NOT': return [('SUBFORMULA', 'NOT_SET'), ('DIRECT', 'NOT_SET')]
    return [(x, y) for x in ('SUBFORMULA', 'DIRECT') for y in ('SUBFORMULA', 'DIRECT')]
PROG = ('FIRST_LOOP', 'RELOOP_NO_PROGRESS', 'RELOOP_WITH_PROGRESS')

def job(args):
    opname, t0, t1, prog, text = args
    t = time.time()
    tag = f'{opname}({t0},{t1}) {prog}'
    try:
        vc = OpVC(llir.Module(text), opname, t0, t1, prog).go()
        res = []; seen = {}
        for n, pc, g in vc.obl:
            g = z3.simplify(g)
            st = ('proved', 0.0, None) if z3.is_true(g) else discharge(n, pc, g, cands=vc.cands(n, pc))
            res.append((f'{tag}: {n}',) + st)
        return dict(tag=tag, res=res, paths=vc.npaths, covers=vc.covers, wall=time.time()-t, err=None, fns=vc.ex.bounds)
    except (Unsupported, llir.ExtractError, KeyError) as e:
        return dict(tag=tag, res=[], paths=0, covers={}, wall=time.time()-t, err=f'{type(e).__name__}: {e}', fns={})

def alljobs(ops, text):
    return [(o, t0, t1, pr, text) for o in ops for t0, t1 in cases(o) for pr in PROG]

if __name__ == '__main__':
    text = llir.extract()
    ops = sys.argv[1].split(',')
    js = alljobs(ops, text)
    if len(sys.argv) > 2: js = [j for j in js if sys.argv[2] in f'{j[0]}({j[1]},{j[2]}) {j[3]}']
    with mp.Pool(8) as pool:
        for r in pool.imap_unordered(job, js):
            bad = [x for x in r['res'] if x[1] != 'proved']
            print(r['tag'], 'paths', r['paths'], 'obl', len(r['res']), 'bad', len(bad), r['covers'], f"{r['wall']:.1f}s", r['err'] or '')
            for x in bad[:6]: print('   ', x[0], x[1], f'{x[2]:.1f}', (x[3] or '').replace('\n', ' ')[:300])
