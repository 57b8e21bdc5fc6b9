"""Contracts of the specification loader: the decoders (bit-exact), r2u2_process_binary (one arbitrary record, bit-exact;
the fix-up loop, one arbitrary instruction), r2u2_mltl_configure_instruction_dispatch (every configuration record), and
the layout lemmas (queues and temporal blocks are disjoint) over those contracts."""
import z3, time
import llir, clayout, irsym
from irsym import Exec, Path, Ptr, Region, Unsupported, Agg, Opq
from bvx import BVX
from cscq import loop_headers
MT, IT, BT, CB, TB = 'r2u2_monitor_t', 'r2u2_mltl_instruction_t', 'r2u2_bz_instruction_t', 'r2u2_scq_control_block_t', 'r2u2_scq_temporal_block_t'
B64 = lambda n: z3.BitVec(n, 64)

class Load:
    def __init__(self, mod):
        self.mod, self.lay = mod, clayout.layout(); self.C = self.lay['c']; self.off, self.size, self.fs = self.lay['off'], self.lay['size'], self.lay['fsize']
        self.obl = []; self.npaths = 0; self.fns = {}
    def prove(self, n, p, g): self.obl.append((n, list(p.pc), g))
    # ---------------------------------------------------------------- bit-exact part
    def le(self, ex, p, reg, o, n):
        a = ex.arr(p, reg); bs = [z3.Select(a, z3.simplify(o + i)) for i in range(n)]
        return z3.Concat(*reversed(bs)) if n > 1 else bs[0]
    def agg(self, v, reg_off, n):
        """byte field of a {i64,i64} struct return"""
        k, r = divmod(reg_off, 8)
        return z3.Extract(8*(r+n)-1, 8*r, v.vs[k])
    MF = (('op1_value', 0, 4), ('op2_value', 4, 4), ('memory_reference', 8, 4), ('op1_type', 12, 1), ('op2_type', 13, 1), ('opcode', 14, 1))
    BF = (('param1', 0, 4), ('param2', 8, 4), ('memory_reference', 12, 4), ('opcode', 16, 1))
    def decoders(self):
        for fn, T, F in (('r2u2_mltl_set_from_binary', IT, self.MF), ('r2u2_bz_set_from_binary', BT, self.BF)):
            ex = BVX(self.mod, bytes_=('SPEC',)); p = Path('bv'); o = B64('o'); s0 = ex.arr(p, 'SPEC')
            for q, r in ex.run(fn, [Ptr('SPEC', ((o, 1),))], p):
                self.npaths += 1
                if not isinstance(r, Agg): raise Unsupported('struct return')
                for f, so, n in F:
                    self.prove(f'{fn}: {f} is the field of the record', q, self.agg(r, self.off[T, f], n) == self.le(ex, q, 'SPEC', o + so, n))
                self.prove(f'{fn}: frame: the specification is not written', q, z3.BoolVal(ex.arr(q, 'SPEC').eq(s0)))
            self.fns.update(ex.bounds)
        for fn in ('r2u2_bz_get_param1_int_from_binary', 'r2u2_bz_get_param1_float_from_binary'):
            ex = BVX(self.mod, bytes_=('SPEC',)); p = Path('bv'); o = B64('o')
            for q, r in ex.run(fn, [Ptr('SPEC', ((o, 1),))], p):
                self.npaths += 1
                if 'int' in fn: self.prove(f'{fn}: is the 32-bit integer of the record', q, r == self.le(ex, q, 'SPEC', o, 4))
                else: self.prove(f'{fn}: is the double of the record', q, r == z3.fpBVToFP(self.le(ex, q, 'SPEC', o, 8), z3.Float64()))
            self.fns.update(ex.bounds)
        return self
    def records(self):
        """r2u2_process_binary, record loop: one arbitrary iteration"""
        C, off, size = self.C, self.off, self.size
        f = self.mod.funcs['r2u2_process_binary']; heads = loop_headers(f)
        ex = self.ex = BVX(self.mod, bytes_=('SPEC', 'BZT', 'TLT', 'CBQ'), slots=('VAL',), maxpaths=400)
        bzm, tlm = B64('bzm'), B64('tlm')
        def base():
            p = Path('bv')
            for k, v in (('bz_program_count.max_program_count', bzm), ('mltl_program_count.max_program_count', tlm), ('bz_instruction_tbl', Ptr('BZT')), ('mltl_instruction_tbl', Ptr('TLT')),
                         ('value_buffer', Ptr('VAL')), ('signal_vector', Ptr('SIG')), ('atomic_buffer', Ptr('ATOM')), ('queue_arena.control_blocks', Ptr('CBQ')), ('queue_arena.queue_mem', Ptr('QMQ')),
                         ('bz_program_count.curr_program_count', z3.BitVecVal(0, 64)), ('mltl_program_count.curr_program_count', z3.BitVecVal(0, 64)), ('time_stamp', z3.BitVecVal(0, 32)), ('progress', z3.BitVecVal(C['R2U2_MONITOR_PROGRESS_FIRST_LOOP'], 32))):
                p.base['MON', off[MT, k]] = v
            return p
        def dispatch(e, path, a):
            ins = a[1]
            if a[0].reg != 'MON' or not isinstance(ins, Ptr): raise Unsupported('dispatch arguments')
            flds = {fl: ex.load(path, ins.add(off[IT, fl], 1), ('i', 8*n)) for fl, _, n in self.MF}
            for ok in (True, False):
                q = path.clone(); q.ghost['cfg'] = q.ghost.get('cfg', ()) + ((flds, ok),)
                yield q, z3.BitVecVal(C['R2U2_OK'] if ok else C['R2U2_OK'] + 1, 32)
        ex.stubs['r2u2_mltl_configure_instruction_dispatch'] = dispatch
        self.stage = 0; self.h1 = self.h2 = None; o = B64('off'); arrivals = []
        st = {}
        def hook(e, fn, b, prev, env, path, visits):
            if fn.name != 'r2u2_process_binary' or b not in heads: return None
            if path.ghost.pop('go', None) == b: return None
            if self.h1 is None: self.h1 = b
            if b == self.h1:
                if path.ghost.get('iter'): arrivals.append(('iter', path, env)); return 'stop'
                arrivals.append(('entry', path, env)); return 'stop'
            if self.h2 is None: self.h2 = b
            if b != self.h2: raise Unsupported('a third loop')
            arrivals.append(('second', path, env)); return 'stop'
        ex.blockhook = hook
        p = base(); list(ex.run('r2u2_process_binary', [Ptr('MON'), Ptr('SPEC')], p))
        ent = [x for x in arrivals if x[0] == 'entry']
        if len(ent) != 1: raise Unsupported('record loop not found')
        _, pe, env = ent[0]
        spec = ex.arr(pe, 'SPEC')
        first = z3.ZeroExt(56, z3.Select(spec, z3.BitVecVal(0, 64)))
        phis = [i for i in f.blocks[self.h1] if i[0] == 'phi']
        def cursor(v):
            if isinstance(v, Ptr) and v.reg == 'SPEC': return ex.off(v)
            if z3.is_bv(v) and v.size() == 64: return v
            return None
        cur = [i[1] for i in phis if cursor(env[i[1]]) is not None and z3.is_true(z3.simplify(cursor(env[i[1]]) == first))]
        if len(cur) != 1: raise Unsupported('no record cursor')
        cur = cur[0]
        self.prove('the first record starts after the header', pe, cursor(env[cur]) == first)
        for k, ws in pe.mem.items():
            if k[0] == 'MON': self.prove('entry: the program tables are not touched', pe, z3.BoolVal(False))
        # arbitrary iteration
        p = base(); p.ghost.update({('arr', r): ex.arr0(r) for r in ('SPEC', 'BZT', 'TLT', 'VAL')}); p.ghost['iter'] = True; p.ghost['go'] = self.h1
        spec, BZT, TLT, VAL = (ex.arr(p, r) for r in ('SPEC', 'BZT', 'TLT', 'VAL'))
        lim = z3.BitVecVal(2**30, 64)
        p.pc += [z3.ULT(bzm, lim), z3.ULT(tlm, lim), z3.ULT(o, z3.BitVecVal(2**40, 64))]
        e2 = dict(env)
        for i in phis:
            v = env[i[1]]
            if i[1] == cur: e2[cur] = Ptr('SPEC', ((o, 1),)) if isinstance(v, Ptr) else o
            elif z3.is_bv(v): e2[i[1]] = z3.BitVec('phi' + i[1], v.size())
            elif z3.is_bool(v): e2[i[1]] = z3.Bool('phi' + i[1])
            else: raise Unsupported('loop-carried pointer')
        for d, v in env.items():      # values computed before the loop are kept only if they are pointers or depend on nothing
            pass
        k = sum(1 for i in f.blocks[self.h1] if i[0] == 'phi'); n0 = len(arrivals); work = [(self.h1, k, None, e2, p, {})]; rets = []
        p.ghost.pop('go', None)
        while work:
            x = work.pop(); rets += list(ex.block(f, x[0], x[1], x[2], x[3], x[4], x[5], work, 0))
        b1, b2 = z3.Select(spec, o + 1), z3.Select(spec, o + 2)
        ln = z3.Select(spec, o); bv8 = lambda x: z3.BitVecVal(x, 8)
        cg = z3.And(b1 == bv8(C['R2U2_ENG_CG']), b2 == bv8(C['R2U2_ENG_TL']))
        bz = z3.And(z3.Not(cg), b1 == bv8(C['R2U2_ENG_BZ'])); tl = z3.And(z3.Not(cg), b1 == bv8(C['R2U2_ENG_TL']))
        rd = lambda at, n: z3.Concat(*[z3.Select(spec, z3.simplify(at + i)) for i in reversed(range(n))]) if n > 1 else z3.Select(spec, at)
        bop = rd(o + 2 + 16, 1); bm = rd(o + 2 + 12, 4); bp1 = rd(o + 2, 4)
        ic, fc, pv = (bop == bv8(C['R2U2_BZ_OP_' + x]) for x in ('ICONST', 'FCONST', 'PREV'))
        kinds = set()
        def post(q, why):
            P = lambda n, g: self.prove(f'record: {n}', q, g)
            if why == 'iter':
                P('is only processed when its length is not zero', ln != 0)
            cfg = q.ghost.get('cfg', ())
            if len(cfg) > 1: P('is configured at most once', z3.BoolVal(False)); return
            P('a configuration record, and only that, configures a queue', cg if cfg else z3.Not(cg))
            if cfg:
                kinds.add('cfg')
                for fl, so, n in self.MF: P(f'configuration {fl} is the field of the record', cfg[0][0][fl] == rd(o + 3 + so, n))
            x = B64('x'); ex2 = self.ex
            g = lambda k: (q.mem.get(('MON', off[MT, k])) or [(0, q.base['MON', off[MT, k]])])[-1][1]
            nb, nt = g('bz_program_count.max_program_count'), g('mltl_program_count.max_program_count')
            isb = z3.And(bz, z3.Not(ic), z3.Not(fc))
            P('a Boolean-layer instruction (not a constant) is counted', nb == z3.If(isb, bzm + 1, bzm))
            P('a temporal-layer instruction is counted', nt == z3.If(tl, tlm + 1, tlm))
            A, T, V = ex.arr(q, 'BZT'), ex.arr(q, 'TLT'), ex.arr(q, 'VAL')
            tb = lambda arr, base_, T_, fl, n: z3.Concat(*[z3.Select(arr, z3.simplify(base_ + off[T_, fl] + i)) for i in reversed(range(n))]) if n > 1 else z3.Select(arr, z3.simplify(base_ + off[T_, fl]))
            for fl, so, n in self.BF: P(f'Boolean-layer instruction: {fl} is entered in the next table row', z3.Implies(isb, tb(A, bzm*size[BT], BT, fl, n) == rd(o + 2 + so, n)))
            for fl, so, n in self.MF: P(f'temporal-layer instruction: {fl} is entered in the next table row', z3.Implies(tl, tb(T, tlm*size[IT], IT, fl, n) == rd(o + 2 + so, n)))
            inrow = lambda base_, s: z3.ULT(x - base_, z3.BitVecVal(s, 64))
            P('frame: no other Boolean-layer row changes', z3.Or(z3.Select(A, x) == z3.Select(BZT, x), z3.And(isb, inrow(bzm*size[BT], size[BT]))))
            P('frame: no other temporal-layer row changes', z3.Or(z3.Select(T, x) == z3.Select(TLT, x), z3.And(tl, inrow(tlm*size[IT], size[IT]))))
            m = z3.ZeroExt(32, bm); sl = z3.Select(V, m); old = z3.Select(VAL, m)
            P('integer constant: the slot holds it', z3.Implies(z3.And(bz, ic), z3.Extract(31, 0, sl) == rd(o + 2, 4)))
            P('float constant: the slot holds it', z3.Implies(z3.And(bz, fc), z3.fpBVToFP(sl, z3.Float64()) == z3.fpBVToFP(rd(o + 2, 8), z3.Float64())))
            P('previous-value instruction: starts from its initial value', z3.Implies(z3.And(bz, pv), sl == z3.Select(VAL, z3.ZeroExt(32, bp1))))
            P('frame: no other value slot changes', z3.Or(z3.Select(V, x) == z3.Select(VAL, x), z3.And(bz, z3.Or(ic, fc, pv), x == m)))
            P('frame: the specification is not written', z3.BoolVal(ex.arr(q, 'SPEC').eq(spec)))
            for kk in q.mem:
                if isinstance(kk[0], tuple) and kk[0][0] == 'stack': continue
                if kk in (('MON', off[MT, 'bz_program_count.max_program_count']), ('MON', off[MT, 'mltl_program_count.max_program_count'])): continue
                P(f'frame: {kk} is not written', z3.BoolVal(False))
            for kk in q.ghost:
                if isinstance(kk, tuple) and kk[0] == 'arr' and kk[1] not in ('SPEC', 'BZT', 'TLT', 'VAL') and not (isinstance(kk[1], tuple)) and not q.ghost[kk].eq(ex.arr0(kk[1])):
                    P(f'frame: {kk[1]} is not written', z3.BoolVal(False))
        for why, q, en in arrivals[n0:]:
            self.npaths += 1
            if why == 'iter':
                self.prove('record: the next record follows this one', q, cursor(en[cur]) == o + z3.ZeroExt(56, ln))
                if q.ghost.get('cfg'): self.prove('record: a failed configuration stops the loading', q, z3.BoolVal(q.ghost['cfg'][-1][1]))
                post(q, 'iter'); kinds.add('iter')
            elif why == 'second':
                self.prove('the records end at the first length of zero', q, ln == 0)
                kinds.add('end')
                self.prove('after the last record nothing changes', q, z3.BoolVal(not q.ghost.get('cfg') and not [kk for kk in q.mem if kk[0] == 'MON']))
                for r in ('BZT', 'TLT', 'VAL'): self.prove('after the last record no table changes', q, z3.BoolVal(ex.arr(q, r).eq(ex.arr0(r))))
                st['second'] = (q, en)
        for q, r in rets:
            self.npaths += 1
            if q.ghost.get('cfg') and not q.ghost['cfg'][-1][1]: self.prove('a failed configuration is reported', q, r != C['R2U2_OK']); kinds.add('err')
            else: self.prove('loading only stops early on a failed configuration', q, z3.BoolVal(False))
        self.prove('every kind of record is processed', Path('bv'), z3.BoolVal(kinds >= {'cfg', 'iter', 'end', 'err'}))
        self.fns.update(ex.bounds)
        if 'second' not in st: raise Unsupported('fix-up loop not found')
        self.fixup(f, st['second'])
        return self
    # ---------------------------------------------------------------- second loop, integer domain
    def intbase(self):
        off, size = self.off, self.size
        ex = Exec(self.mod, 'int'); ex.regions = {'TL': Region('TL', size[IT]), 'CB': Region('CB', size[CB]), 'QM': Region('QM', 4)}
        p = Path('int'); A = z3.Array
        fn = lambda n: z3.Function(n, z3.IntSort(), z3.IntSort())
        self.qb, self.ln, self.nt, self.qm, self.opc = fn('qbase'), fn('qlen'), fn('next0'), fn('qmem'), fn('opc')
        p.base['CB', off[CB, 'queue']] = lambda i: Ptr('QM', ((self.qb(i), 4),))
        p.base['CB', off[CB, 'length']] = lambda i: self.ln(i)
        p.base['CB', off[CB, 'next_time']] = lambda i: self.nt(i)
        for x in ('write', 'read1', 'read2'): p.base['CB', off[CB, x]] = fn('cb_' + x)
        p.base['QM', 0] = lambda i: self.qm(i)
        p.base['TL', off[IT, 'opcode']] = lambda i: self.opc(i)
        ex.cellw = {('TL', off[IT, 'opcode']): 1}
        for k, v in (('mltl_instruction_tbl', Ptr('TL')), ('queue_arena.control_blocks', Ptr('CB')), ('queue_arena.queue_mem', Ptr('QM')), ('bz_instruction_tbl', Ptr('BZT')),
                     ('value_buffer', Ptr('VAL')), ('atomic_buffer', Ptr('ATOM'))): p.base['MON', off[MT, k]] = v
        return ex, p
    def fixup(self, f, second):
        q0, env0 = second; C, off = self.C, self.off
        ex, p = self.intbase(); heads = loop_headers(f); h = self.h2
        tlm = z3.Int('tlm_i'); i = z3.Int('i')
        p.base['MON', off[MT, 'mltl_program_count.max_program_count']] = tlm
        phis = [x for x in f.blocks[h] if x[0] == 'phi']; idx = None; env = {'%' + n.lstrip('%'): v for n, v in ()}
        env = {}
        for d, v in env0.items():
            if isinstance(v, Ptr): env[d] = v
        for x in phis:
            v = env0[x[1]]
            if z3.is_bv(v) and z3.is_bv_value(v) and v.as_long() == 0 and idx is None: idx = x[1]; env[idx] = i
            elif z3.is_bv(v): env[x[1]] = z3.Int('phi' + x[1])
            else: raise Unsupported('fix-up loop variable')
        if idx is None: raise Unsupported('fix-up loop index')
        # other integer values computed before the loop: arbitrary
        for d, v in env0.items():
            if d not in env and z3.is_bv(v): env[d] = z3.Int('env' + d)
        lq = lambda j: self.qm(self.qb(j) + self.ln(j) + off[TB, 'lower_bound']//4)
        j = z3.Int('j')
        p.pc = [tlm >= 0, tlm < 2**30, i >= 0, i <= tlm, z3.ForAll([j], z3.And(self.qb(j) >= 0, self.qb(j) < 2**30, self.ln(j) >= 1, self.ln(j) < 2**30, self.qm(j) >= 0, self.qm(j) < 2**32, self.opc(j) >= 0, self.opc(j) < 256)),
                self.qb(i) >= 0, self.qb(i) < 2**30, self.ln(i) >= 1, self.ln(i) < 2**30, lq(i) >= 0, lq(i) < 2**32, self.opc(i) >= 0, self.opc(i) < 256]
        arr = []
        def hook(e, fn, b, prev, env, path, visits):
            if fn.name == f.name and b in heads:
                if b != h: raise Unsupported('a third loop')
                arr.append((path, env)); return 'stop'
        ex.blockhook = hook
        k = sum(1 for x in f.blocks[h] if x[0] == 'phi'); work = [(h, k, None, env, p, {})]; rets = []
        while work:
            x = work.pop(); rets += list(ex.block(f, x[0], x[1], x[2], x[3], x[4], x[5], work, 0))
        kN = ('CB', off[CB, 'next_time']); fut = z3.Or(self.opc(i) == C['R2U2_MLTL_OP_UNTIL'], self.opc(i) == C['R2U2_MLTL_OP_RELEASE'])
        for q, en in arr:
            self.npaths += 1
            P = lambda n, g: self.prove(f'fix-up: {n}', q, g)
            P('continues with the next instruction', en[idx] == i + 1)
            P('only instructions of the table are visited', i < tlm)
            ws = q.mem.get(kN, [])
            P('a future operator starts at its lower bound, and only that', z3.And(fut, *[z3.And(ix == i, v == lq(i)) for ix, v in ws]) if ws else z3.Not(fut))
            for kk in q.mem:
                if kk != kN and not (isinstance(kk[0], tuple) and kk[0][0] == 'stack'): P(f'frame: {kk} is not written', z3.BoolVal(False))
        self.prove('fix-up: instructions are visited', p, z3.BoolVal(bool(arr)))
        for q, r in rets:
            self.npaths += 1
            self.prove('fix-up: ends after the last instruction', q, i >= tlm)
            self.prove('loading succeeds', q, r == C['R2U2_OK'])
            for kk in q.mem:
                if not (isinstance(kk[0], tuple) and kk[0][0] == 'stack'): self.prove(f'fix-up: frame at the end: {kk} is not written', q, z3.BoolVal(False))
        self.fns.update(ex.bounds)
    # ---------------------------------------------------------------- configuration records
    def configure(self):
        C, off = self.C, self.off; fnm = 'r2u2_mltl_configure_instruction_dispatch'
        META = C['R2U2_TEMPORAL_METADATA_SIZE']
        types = ['ATOMIC', 'SUBFORMULA', 'DIRECT', 'NOT_SET']
        for t0 in types:
            for t1 in types:
                ex, p = self.intbase()
                m, v0, v1 = z3.Ints('m v0 v1')
                for fl, v in (('op1_value', v0), ('op2_value', v1), ('memory_reference', m), ('op1_type', z3.IntVal(C['R2U2_FT_OP_' + t0])), ('op2_type', z3.IntVal(C['R2U2_FT_OP_' + t1])), ('opcode', z3.IntVal(C['R2U2_MLTL_OP_CONFIGURE']))):
                    p.base['INS', off[IT, fl]] = v
                def memcpy(e, path, a):
                    d, s, n = a[0], a[1], e.lit(a[2])
                    if n is None: raise Unsupported('memcpy')
                    _, so = divmod(s.const, self.size[CB])
                    for (T, fl), o_ in off.items():
                        if T == CB and so <= o_ < so + n and s.reg == 'CB':
                            ty = ('ptr',) if self.fs[CB, fl] == 8 else ('i', 32)
                            e.store(path, d.add(o_ - so, 1), ty, e.load(path, s.add(o_ - so, 1), ty))
                    yield path, d
                ex.stubs = {'llvm.memcpy.p0.p0.i64': memcpy, 'memcpy': memcpy}
                j = z3.Int('j')
                okq = lambda j: z3.And(self.qb(j) >= 0, self.qb(j) < 2**30, self.ln(j) >= 1, self.ln(j) < 2**30)
                p.pc = [m >= 0, m < 2**24, v0 >= 0, v0 < 2**31, v1 >= 0, v1 < 2**31, okq(m), okq(m-1)]
                if t0 == 'ATOMIC': p.pc.append(v0 >= 1); p.pc.append(v0 < 2**29)
                if t0 == 'SUBFORMULA': p.pc.append(self.ln(m) > META)
                tag = f'configure({t0},{t1})'
                for q, r in ex.run(fnm, [Ptr('MON'), Ptr('INS')], p):
                    self.npaths += 1
                    P = lambda n, g: self.prove(f'{tag}: {n}', q, g)
                    P('succeeds', r == C['R2U2_OK'])
                    kL, kQp, kQM = ('CB', off[CB, 'length']), ('CB', off[CB, 'queue']), ('QM', 0)
                    last = lambda k: q.mem[k][-1] if q.mem.get(k) else None
                    for kk, ws in q.mem.items():
                        if isinstance(kk[0], tuple) and kk[0][0] == 'stack': continue
                        allowed = {'ATOMIC': (kL, kQp, kQM), 'SUBFORMULA': (kL, kQM)}.get(t0, ())
                        P(f'frame: {kk} is not written', z3.BoolVal(kk in allowed))
                        if kk in (kL, kQp): P('frame: only the named node is configured', z3.And([ix == m for ix, _ in ws]))
                    if t0 == 'ATOMIC':
                        P('the queue gets the configured number of slots, and space for temporal data exactly when the node is temporal', (last(kL)[1] == v0 + (META if t1 == 'ATOMIC' else 0)) if last(kL) else z3.BoolVal(False))
                        qp = last(kQp)[1] if last(kQp) else None
                        if qp is None or qp.reg != 'QM': P('the queue lies in queue memory', z3.BoolVal(False)); continue
                        ix = z3.simplify(z3.Sum([z3.IntVal(qp.const // 4)] + [ex.toint(t) * (c // 4) for t, c in qp.terms]))
                        P('the queue starts where the previous one ends', ix == z3.If(m == 0, z3.IntVal(0), self.qb(m-1) + self.ln(m-1)))
                        ws = q.mem.get(kQM, [])
                        P('the queue is marked empty, and nothing else is written', z3.And([z3.And(i2 == ix, v == 2**32 - 1) for i2, v in ws]) if ws else z3.BoolVal(False))
                    elif t0 == 'SUBFORMULA':
                        P('the space for temporal data moves behind the queue', (last(kL)[1] == self.ln(m) - META) if last(kL) else z3.BoolVal(False))
                        tb = self.qb(m) + self.ln(m) - META
                        ws = q.mem.get(kQM, [])
                        lo, hi = tb + off[TB, 'lower_bound']//4, tb + off[TB, 'upper_bound']//4
                        P('the interval bounds are recorded, and nothing else is written', z3.And(*[z3.Or(z3.And(i2 == lo, v == v0), z3.And(i2 == hi, v == v1)) for i2, v in ws], z3.Or([i2 == lo for i2, _ in ws]), z3.Or([i2 == hi for i2, _ in ws])) if ws else z3.BoolVal(False))
                self.fns.update(ex.bounds)
        return self
    def lemmas(self):
        """from the configure contracts: q(0)=0, q(j+1)=q(j)+r(j), r(j) >= 1 the reserved size, the queue the first len(j)
        slots of it and the temporal block, if any, the last four"""
        META = self.C['R2U2_TEMPORAL_METADATA_SIZE']; P = Path('int'); i, j, x = z3.Ints('i j x')
        q, r, ln = (z3.Function(n, z3.IntSort(), z3.IntSort()) for n in ('q', 'r', 'len')); t = z3.Function('temporal', z3.IntSort(), z3.BoolSort())
        ax = [q(0) == 0] + [z3.And(q(k+1) == q(k) + r(k)) for k in (i, j)] + [z3.And(r(k) == ln(k) + z3.If(t(k), META, 0), ln(k) >= 1) for k in (i, j, z3.IntVal(0))]
        def prove(n, pre, g): self.obl.append((f'layout lemma: {n}', ax + pre, g)); self.npaths += 1
        prove('a queue ends where the next begins (induction base)', [i >= 0], q(i) + r(i) <= q(i+1))
        prove('earlier queues end before later ones begin (induction step)', [i >= 0, j > i, q(i) + r(i) <= q(j)], q(i) + r(i) <= q(j+1))
        prove('queue starts are not negative (step)', [j >= 0, q(j) >= 0], q(j+1) >= 0)
        prove('slots of two queues, with their temporal data, are different', [i >= 0, j > i, q(i) + r(i) <= q(j), q(i) <= x, x < q(i) + ln(i) + z3.If(t(i), META, 0)], z3.Not(z3.And(q(j) <= x, x < q(j) + r(j))))
        prove('a queue and its own temporal data do not overlap', [i >= 0, q(i) <= x, x < q(i) + ln(i)], z3.Not(z3.And(t(i), x >= q(i) + ln(i), x < q(i) + r(i))))
        self.obl.append(('layout: temporal data has the size of the temporal block', [], z3.BoolVal(META * 4 == self.size[TB])))
        return self

def jobs(): return ['decoders', 'records', 'configure', 'lemmas']
def job(args):
    from cbz import solve
    what, text = args; t = time.time()
    try:
        o = getattr(Load(llir.Module(text)), what)()
        res = [(f'{what}: {n}',) + solve(n, pc, g) for n, pc, g in o.obl]
        return dict(tag=what, res=res, paths=o.npaths, covers={what: o.npaths}, wall=time.time()-t, err=None, fns=o.fns)
    except (Unsupported, llir.ExtractError, KeyError, AttributeError, z3.Z3Exception) as e:
        return dict(tag=what, res=[], paths=0, covers={}, wall=time.time()-t, err=f'{type(e).__name__}: {e}', fns={})
if __name__ == '__main__':
    text = llir.extract()
    for w in jobs():
        r = job((w, text))
        bad = [x for x in r['res'] if x[1] != 'proved']
        print(r['tag'], 'paths', r['paths'], 'obl', len(r['res']), 'bad', len(bad), f"{r['wall']:.1f}s", r['err'] or '')
        for x in bad[:8]: print('   ', x[0], x[1], f'{x[2]:.1f}', (x[3] or '').replace('\n', ' ')[:300])
