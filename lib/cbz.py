"""Contracts of r2u2_bz_update, one case per Boolean-layer opcode, in exact machine arithmetic."""
import z3, time
import llir, clayout
from irsym import Ptr, Path, Unsupported, Region
from bvx import BVX
F = z3.Float64()
POW = z3.Function('pow', F, F, F); SQRT = z3.Function('sqrt', F, F)
RM = z3.RNE()
def fp(x): return z3.fpBVToFP(x, F)
OPS = 'NONE ILOAD FLOAD STORE BWNEG BWAND BWOR BWXOR IEQ FEQ INEQ FNEQ IGT FGT IGTE FGTE ILT FLT ILTE FLTE INEG FNEG IADD FADD ISUB FSUB IMUL FMUL IDIV FDIV MOD IPOW FPOW ISQRT FSQRT IABS FABS PREV TS'.split()
def opconst(op): return 'R2U2_BZ_TS' if op == 'TS' else 'R2U2_BZ_OP_' + op
class BZ:
    def __init__(self, mod, op):
        self.mod, self.op = mod, op; self.obl = []; self.npaths = 0
        lay = clayout.layout(); C, off, size = lay['c'], lay['off'], lay['size']
        MT, IT = 'r2u2_monitor_t', 'r2u2_bz_instruction_t'
        self.ex = ex = BVX(mod, bytes_=('ATOM', 'BZT'), slots=('VAL', 'SIG'), unroll=4)
        f1 = lambda u: (lambda ex, path, a: iter([(path, u(*a))]))
        ex.stubs.update({'pow': f1(POW), 'sqrt': f1(SQRT), 'fabs': f1(z3.fpAbs), 'llvm.fabs.f64': f1(z3.fpAbs), 'abs': f1(lambda x: z3.If(x < 0, -x, x))})
        p = self.p0 = Path('bv'); B = lambda n, w=32: z3.BitVec(n, w)
        self.pc = B('pc', 64); self.ts = B('ts')
        def mon(f, v): p.base['MON', off[MT, f]] = v
        mon('time_stamp', self.ts); mon('bz_program_count.curr_program_count', self.pc); mon('bz_instruction_tbl', Ptr('BZT'))
        mon('signal_vector', Ptr('SIG')); mon('value_buffer', Ptr('VAL')); mon('atomic_buffer', Ptr('ATOM'))
        self.p1, self.p2, self.m = B('param1'), B('param2'), B('memref')
        a = ex.arr(p, 'BZT'); sz = size[IT]
        base = self.pc * sz
        def put(f, v, n):
            nonlocal a
            for i in range(n): a = z3.Store(a, z3.simplify(base + off[IT, f] + i), z3.simplify(z3.Extract(8*i+7, 8*i, v)))
        # the instruction under the program counter, read through the table
        self.a0 = a
        def rd(f, n):
            bs = [z3.Select(a, z3.simplify(base + off[IT, f] + i)) for i in range(n)]
            return z3.Concat(*reversed(bs)) if n > 1 else bs[0]
        p.pc = [rd('param1', 4) == self.p1, rd('param2', 4) == self.p2, rd('memory_reference', 4) == self.m, rd('opcode', 1) == C[opconst(op)]]
        self.bzt = dict(opcode=z3.BitVecVal(C[opconst(op)], 8), param1=self.p1, param2=self.p2, memory_reference=self.m)
        orig = ex.load
        def load(path, ptr, ty):
            # fields of the current instruction are read as the named symbols (equal to the table's bytes by the path condition)
            if ptr.reg == 'BZT' and len(ptr.terms) == 1 and ptr.terms[0][0].eq(self.pc) and ptr.terms[0][1] == sz:
                for f, v in self.bzt.items():
                    if ptr.const == off[IT, f] and mod.size(ty)*8 == v.size(): return v
            return orig(path, ptr, ty)
        ex.load = load
        self.V, self.S, self.A = ex.arr(p, 'VAL'), ex.arr(p, 'SIG'), ex.arr(p, 'ATOM')
        self.eps = z3.FPVal(lay['eps'], F)
        if op in ('IDIV', 'MOD'):
            i1, i2 = self.iv(self.p1), self.iv(self.p2)
            p.pc += [i2 != 0, z3.Not(z3.And(i1 == -2**31, i2 == -1))]
    def slot(self, x): return z3.Select(self.V, z3.ZeroExt(32, x))
    def iv(self, x): return z3.Extract(31, 0, self.slot(x))
    def fv(self, x): return fp(self.slot(x))
    def result(self):
        """('i', term) ('f', term) ('w', 64-bit term) ('atom', ) (None)"""
        o = self.op; i1, i2, f1, f2, e = self.iv(self.p1), self.iv(self.p2), self.fv(self.p1), self.fv(self.p2), self.eps
        b = lambda c: ('i', z3.If(c, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
        close = z3.If(z3.fpGT(f1, f2), z3.fpLT(z3.fpSub(RM, f1, f2), e), z3.fpLT(z3.fpSub(RM, f2, f1), e))
        sg = lambda x: z3.fpSignedToFP(RM, x, F)
        toi = lambda x: z3.fpToSBV(z3.RTZ(), x, z3.BitVecSort(32))
        return {
            'NONE': lambda: None, 'STORE': lambda: ('atom',),
            'ILOAD': lambda: ('i', z3.Extract(31, 0, z3.Select(self.S, z3.ZeroExt(32, self.p1)))),
            'FLOAD': lambda: ('f', fp(z3.Select(self.S, z3.ZeroExt(32, self.p1)))),
            'BWNEG': lambda: ('i', ~i1), 'BWAND': lambda: ('i', i1 & i2), 'BWOR': lambda: ('i', i1 | i2), 'BWXOR': lambda: ('i', i1 ^ i2),
            'IEQ': lambda: b(i1 == i2), 'INEQ': lambda: b(i1 != i2), 'IGT': lambda: b(i1 > i2), 'IGTE': lambda: b(i1 >= i2), 'ILT': lambda: b(i1 < i2), 'ILTE': lambda: b(i1 <= i2),
            'FEQ': lambda: b(close), 'FNEQ': lambda: b(z3.Not(close)), 'FGT': lambda: b(z3.fpGT(f1, f2)), 'FLT': lambda: b(z3.fpLT(f1, f2)),
            'FGTE': lambda: b(z3.fpGT(f1, z3.fpSub(RM, f2, e))), 'FLTE': lambda: b(z3.fpLT(f1, z3.fpAdd(RM, f2, e))),
            'INEG': lambda: ('i', -i1), 'IADD': lambda: ('i', i1 + i2), 'ISUB': lambda: ('i', i1 - i2), 'IMUL': lambda: ('i', i1 * i2), 'IDIV': lambda: ('i', i1 / i2), 'MOD': lambda: ('i', z3.SRem(i1, i2)),
            'FNEG': lambda: ('f', z3.fpNeg(f1)), 'FADD': lambda: ('f', z3.fpAdd(RM, f1, f2)), 'FSUB': lambda: ('f', z3.fpSub(RM, f1, f2)), 'FMUL': lambda: ('f', z3.fpMul(RM, f1, f2)), 'FDIV': lambda: ('f', z3.fpDiv(RM, f1, f2)),
            'IPOW': lambda: ('i', toi(POW(sg(i1), sg(i2)))), 'FPOW': lambda: ('f', POW(f1, f2)), 'ISQRT': lambda: ('i', toi(SQRT(sg(i1)))), 'FSQRT': lambda: ('f', SQRT(f1)),
            'IABS': lambda: ('i', z3.If(i1 < 0, -i1, i1)), 'FABS': lambda: ('f', z3.fpAbs(f1)),
            'PREV': lambda: ('w', self.slot(self.p2)),
            'TS': lambda: ('i', z3.If(z3.UGT(self.ts, 2**31-1), z3.BitVecVal(2**31-1, 32), self.ts)),
        }[o]()
    def go(self):
        ex = self.ex; lay = clayout.layout()
        for p, ret in ex.run('r2u2_bz_update', [Ptr('MON')], self.p0):
            self.npaths += 1
            P = lambda n, g: self.obl.append((n, list(p.pc), g))
            P('returns OK', ret == lay['c']['R2U2_OK'])
            x = z3.BitVec('x', 64); m = z3.ZeroExt(32, self.m); r = self.result()
            V, S, A = ex.arr(p, 'VAL'), ex.arr(p, 'SIG'), ex.arr(p, 'ATOM')
            if r is None or r[0] == 'atom': P('frame: no value slot changes', z3.Select(V, x) == z3.Select(self.V, x))
            else:
                P('frame: no other value slot changes', z3.Implies(x != m, z3.Select(V, x) == z3.Select(self.V, x)))
                got = z3.Select(V, m)
                if r[0] == 'i': P('the slot holds the operator\'s result', z3.Extract(31, 0, got) == r[1])
                elif r[0] == 'w': P('the slot holds the operator\'s result', got == r[1])
                elif self.op == 'FLOAD': P('the slot holds the operator\'s result', fp(got) == r[1])
                elif self.op == 'FABS':
                    P('the slot holds the operator\'s result', z3.Or(fp(got) == r[1], z3.And(z3.fpIsZero(r[1]), z3.fpIsZero(fp(got))), z3.fpIsNaN(r[1])))
                else: P('the slot holds the operator\'s result', fp(got) == r[1])
            if r and r[0] == 'atom':
                t = z3.ZeroExt(32, self.p2); i1 = self.iv(self.p1)
                P('the atomic holds the value', z3.Select(A, t) == z3.If(i1 != 0, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
                P('frame: no other atomic changes', z3.Implies(x != t, z3.Select(A, x) == z3.Select(self.A, x)))
            else: P('frame: no atomic changes', z3.Select(A, x) == z3.Select(self.A, x))
            P('frame: no signal changes', z3.Select(S, x) == z3.Select(self.S, x))
            P('frame: no instruction changes', z3.Select(ex.arr(p, 'BZT'), x) == z3.Select(self.a0, x))
            for k, ws in p.mem.items():
                if isinstance(k[0], tuple) and k[0][0] == 'stack': continue
                P(f'frame: {k} is not written', z3.BoolVal(False))
        return self
def jobs(): return OPS
def solve(name, pc, goal, timeout=20000):
    t = time.time()
    g = z3.simplify(goal)
    if z3.is_true(g): return 'proved', 0.0, None
    s = z3.Solver(); s.set('timeout', timeout)
    for f in pc: s.add(f)
    s.add(z3.Not(g)); r = s.check()
    if r == z3.unsat: return 'proved', time.time()-t, None
    if r == z3.sat: return 'refuted', time.time()-t, str(s.model())[:1500]
    return 'unknown', time.time()-t, None
def job(args):
    op, text = args; t = time.time()
    try:
        b = BZ(llir.Module(text), op).go()
        res = [(f'BZ {op}: {n}',) + solve(n, pc, g) for n, pc, g in b.obl]
        if not b.npaths: return dict(tag='BZ ' + op, res=[], paths=0, covers={}, wall=time.time()-t, err='no path', fns={})
        return dict(tag='BZ ' + op, res=res, paths=b.npaths, covers={op: b.npaths}, wall=time.time()-t, err=None, fns=b.ex.bounds)
    except (Unsupported, llir.ExtractError, KeyError, AttributeError, z3.Z3Exception) as e:
        return dict(tag='BZ ' + op, res=[], paths=0, covers={}, wall=time.time()-t, err=f'{type(e).__name__}: {e}', fns={})
if __name__ == '__main__':
    import sys, multiprocessing as mp
    text = llir.extract()
    with mp.Pool(8) as pool:
        for r in pool.imap_unordered(job, [(o, text) for o in (sys.argv[1:] or OPS)]):
            bad = [x for x in r['res'] if x[1] != 'proved']
            print(r['tag'], 'paths', r['paths'], 'obl', len(r['res']), 'bad', len(bad), f"{r['wall']:.1f}s", r['err'] or '')
            for x in bad[:4]: print('   ', x[0], x[1], f'{x[2]:.1f}', (x[3] or '').replace('\n', ' ')[:300])
