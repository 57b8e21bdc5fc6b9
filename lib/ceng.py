"""Contracts of the engine step and the reset functions, discharged on their LLVM IR.
r2u2_bz_update and r2u2_mltl_update are replaced by their contracts (cbz.py, cops.py); one universal, disjunctive
invariant over the monitor's counters and ghost state is used at every loop header, sharpened per header by a
Houdini pass over fixed candidate facts (a candidate is kept only when every edge into the header establishes it)."""
import z3, time
import llir, clayout
from irsym import Exec, Path, Ptr, Fn, Region, Unsupported, Opq
from cscq import loop_headers
MT = 'r2u2_monitor_t'
T31 = 2**31
CELLS = {'ts': 'time_stamp', 'prog': 'progress', 'bzc': 'bz_program_count.curr_program_count', 'bzm': 'bz_program_count.max_program_count',
         'tlc': 'mltl_program_count.curr_program_count', 'tlm': 'mltl_program_count.max_program_count'}
PTRS = ('mltl_instruction_tbl', 'bz_instruction_tbl', 'atomic_buffer', 'value_buffer', 'signal_vector', 'queue_arena.control_blocks', 'queue_arena.queue_mem', 'out_file', 'out_func')
SW = {'mltl_instruction_tbl': 'TL', 'bz_instruction_tbl': 'BZT', 'atomic_buffer': 'ATOM', 'value_buffer': 'VAL', 'signal_vector': 'SIG',
      'queue_arena.control_blocks': 'CB', 'queue_arena.queue_mem': 'QM', 'out_file': 'OUTF', 'out_func': 'OUTP'}

class Base:
    def __init__(self, mod):
        self.mod, self.lay = mod, clayout.layout(); self.C = self.lay['c']; self.obl = []
        self.key = {k: ('MON', self.lay['off'][MT, f]) for k, f in CELLS.items()}
        self.FIRST, self.NO, self.WITH = (self.C['R2U2_MONITOR_PROGRESS_' + x] for x in ('FIRST_LOOP', 'RELOOP_NO_PROGRESS', 'RELOOP_WITH_PROGRESS'))
    def path(self, vals):
        p = Path('int')
        for k, v in vals.items(): p.base[self.key[k]] = v
        for f in PTRS: p.base['MON', self.lay['off'][MT, f]] = Ptr(SW[f])
        return p
    def g(self, p, k):
        if k in self.key:
            ws = p.mem.get(self.key[k]); return self.ex.I(ws[-1][1] if ws else p.base[self.key[k]])
        return p.ghost[k]
    def prove(self, name, p, goal): self.obl.append((name, list(p.pc), goal))
    def frame(self, p, allowed):
        for k, ws in p.mem.items():
            if isinstance(k[0], tuple) and k[0][0] == 'stack': continue
            if k not in [self.key[a] for a in allowed]: self.prove(f'frame: {k} is not written', p, z3.BoolVal(False))

G = ('bzd', 'tl', 'first', 'flag', 'evald')
BC = ('=true', '=false', '=(ts=T0)', '!=(ts=T0)', '=pend', '=!pend')
IC = ('=0', '=bzc', '=tlc', '=bzd', '=tl', '=ts', '=T0', '=prog', '=bzm', '=tlm', 'OK', '=(ts=T0)', '=!(ts=T0)', '=pend', '=!pend', '=prog0')
class Eng(Base):
    def go(self):
        f = self.mod.funcs['r2u2_engine_step']
        self.heads = loop_headers(f); self.f = f
        self.cand = {}; self.seen = set()
        for h in self.heads:
            c = {'A', 'B', 'C', 'AB', 'BC', 'bzc=0', 'tlc=0', 'tlc=tlm', 'pass', 'evok', 'pass end', 'pass start', 'done prog', 'done tlc'}
            self.cand[h] = c
        for rnd in range(40):
            self.obl = []; self.lost = {h: set() for h in self.heads}; self.legs = {}; self.npaths = 0; self.rets = 0
            self.run()
            if not any(self.lost.values()): break
            for h in self.heads: self.cand[h] -= self.lost[h]
        else: raise Unsupported('no fixpoint')
        # termination: legs without work must not form a cycle
        nw = {}
        for (x, y), works in self.legs.items():
            if not all(works): nw.setdefault(x, set()).add(y)
        def cyc(x, seen):
            return x in seen or any(cyc(y, seen | {x}) for y in nw.get(x, ()))
        p = Path('int')
        self.prove('no loop iteration leaves the ghost state as it was (with a bounded number of passes that flag progress, the step ends)', p, z3.BoolVal(not any(cyc(x, set()) for x in nw)))
        self.prove('the step returns', p, z3.BoolVal(self.rets > 0))
        return self
    # ------------------------------------------------------------
    def A(self, v): return z3.And(v['ts'] == v['T0'], v['bzd'] <= v['bzm'], v['bzc'] == v['bzd'], v['bzd'] >= 0, v['tl'] == 0, v['first'], z3.Not(v['flag']), v['prog'] == self.FIRST, v['tlc'] == 0)
    def Bc(self, v):
        return z3.And(v['ts'] == v['T0'], v['bzd'] == v['bzm'], z3.Or(v['bzc'] == 0, v['bzc'] == v['bzm']), v['tl'] >= 0, v['tl'] <= v['tlm'], v['tlc'] == v['tl'], z3.Not(z3.And(v['first'], v['flag'])),
                       v['prog'] == z3.If(v['first'], self.FIRST, z3.If(v['flag'], self.WITH, self.NO)))
    def Cc(self, v):
        return z3.And(v['ts'] == v['T0'] + 1, v['bzd'] == v['bzm'], z3.Or(v['bzc'] == 0, v['bzc'] == v['bzm']), v['tl'] == v['tlm'], z3.Or(v['tlc'] == 0, v['tlc'] == v['tlm']),
                       z3.Not(v['first']), z3.Not(v['flag']), z3.Or(v['prog'] == self.FIRST, v['prog'] == self.NO))
    def fact(self, c, v, env):
        if isinstance(c, str):
            return {'A': lambda: self.A(v), 'B': lambda: self.Bc(v), 'C': lambda: self.Cc(v), 'AB': lambda: z3.Or(self.A(v), self.Bc(v)), 'BC': lambda: z3.Or(self.Bc(v), self.Cc(v)),
                    'bzc=0': lambda: v['bzc'] == 0, 'tlc=0': lambda: v['tlc'] == 0, 'tlc=tlm': lambda: v['tlc'] == v['tlm'], 'pass': lambda: z3.Or(v['prog'] == self.FIRST, z3.Not(v['first'])),
                    'evok': lambda: z3.Implies(z3.Or(v['bzd'] > 0, v['tl'] > 0), v['evald']), 'pass end': lambda: v['tl'] == v['tlm'], 'pass start': lambda: v['tl'] == 0,
                    'done prog': lambda: z3.Implies(v['ts'] == v['T0'] + 1, v['prog'] == self.FIRST), 'done tlc': lambda: z3.Implies(v['ts'] == v['T0'] + 1, v['tlc'] == 0)}[c]()
        d, k = c; x = env[d]
        pend = z3.And(v['ts'] == v['T0'], z3.Or(v['first'], v['flag'], v['tl'] < v['tlm']))
        b01 = lambda t: z3.If(t, z3.IntVal(1), z3.IntVal(0))
        if k == '=true': return x
        if k == '=false': return z3.Not(x)
        if k == '=(ts=T0)': return x == (v['ts'] == v['T0']) if z3.is_bool(x) else x == b01(v['ts'] == v['T0'])
        if k == '!=(ts=T0)': return x == z3.Not(v['ts'] == v['T0'])
        if k == '=!(ts=T0)': return x == b01(z3.Not(v['ts'] == v['T0']))
        if k == '=pend': return x == pend if z3.is_bool(x) else x == b01(pend)
        if k == '=!pend': return x == z3.Not(pend) if z3.is_bool(x) else x == b01(z3.Not(pend))
        if k == 'OK': return z3.Implies(v['evald'], x == self.C['R2U2_OK'])
        if k == '=0': return x == 0
        if k == '=prog0': return x == self.NO
        return x == v[k[1:]]
    def view(self, p):
        v = {k: self.g(p, k) for k in self.key}; v.update({k: p.ghost[k] for k in G}); v['T0'] = self.T0
        return v
    def newpass(self, p):
        """the ghost view of 'a new pass over the temporal instructions starts': [paths]"""
        v = self.view(p)
        c = z3.simplify(z3.And(v['ts'] == v['T0'], v['tl'] == v['tlm'], v['tlc'] == 0, v['bzd'] == v['bzm'], z3.Or(v['first'], v['flag']), v['prog'] == self.NO))
        out = []
        for x, yes in ((c, True), (z3.Not(c), False)):
            if not self.ex.may(p, x): continue
            q = p.clone(); q.pc.append(x)
            if yes:
                q.ghost.update(tl=z3.IntVal(0), first=z3.BoolVal(False), flag=z3.BoolVal(False)); q.ghost['work'] += 1
            out.append(q)
        return out
    def setc(self, p, k, v): p.mem[self.key[k]] = [(z3.IntVal(0), v)]
    def bz(self, ex, path, args):
        v = self.view(path); P = lambda n, g: self.prove(n, path, g)
        P('Boolean layer: instructions are evaluated once each, in program order', z3.And(v['bzc'] == v['bzd'], v['bzd'] < v['bzm']))
        P('Boolean layer: evaluated before the temporal layer of the step, at its time stamp', z3.And(v['first'], v['tl'] == 0, v['ts'] == v['T0']))
        q = path.clone(); q.ghost['bzd'] = v['bzd'] + 1; q.ghost['evald'] = z3.BoolVal(True); q.ghost['work'] += 1
        yield q, z3.IntVal(self.C['R2U2_OK'])
    def tlu(self, ex, path, args):
        for p in self.newpass(path):
            v = self.view(p); P = lambda n, g: self.prove(n, p, g)
            P('temporal layer: evaluated after every Boolean-layer instruction', v['bzd'] == v['bzm'])
            P('temporal layer: instructions are evaluated in program order, each once per pass', z3.And(v['tlc'] == v['tl'], v['tl'] < v['tlm']))
            P('temporal layer: evaluated at the time stamp of the step', v['ts'] == v['T0'])
            P('temporal layer: only the first pass may read the atomics of the step', v['first'] == (v['prog'] == self.FIRST))
            P('temporal layer: the progress flag is clear until an instruction makes progress', z3.Implies(z3.Not(v['first']), v['prog'] == z3.If(v['flag'], self.WITH, self.NO)))
            for did in (False, True):
                q = p.clone(); q.ghost['tl'] = v['tl'] + 1; q.ghost['evald'] = z3.BoolVal(True); q.ghost['work'] += 1
                if did:
                    q.ghost['flag'] = z3.And(z3.Not(v['first']), z3.BoolVal(True)); self.setc(q, 'prog', z3.If(v['first'], z3.IntVal(self.FIRST), z3.IntVal(self.WITH)))
                yield q, z3.IntVal(self.C['R2U2_OK'])
    def arrive(self, h, p, env):
        """every candidate of header h that p does not establish is dropped"""
        for q in self.newpass(p):
            v = self.view(q)
            ph = q.ghost.get('phase')
            if ph is not None and self.ex.must(q, z3.And(v['ts'] == self.T0 + 1, ph == self.T0)): q.ghost['work'] += 1
            src = q.ghost.get('from')
            if src is not None: self.legs.setdefault((src, h), []).append(q.ghost['work'] > 0)
            self.prove(f'loop invariant at {h}', q, z3.Or(self.A(v), self.Bc(v), self.Cc(v)))
            for c in sorted(self.cand[h] - self.lost[h], key=str):
                try: fct = self.fact(c, v, env)
                except (z3.Z3Exception, AttributeError, TypeError, KeyError): self.lost[h].add(c); continue
                if not self.ex.must(q, fct): self.lost[h].add(c)
    def hook(self, ex, f, b, prev, env, path, visits):
        if f.name != 'r2u2_engine_step' or b not in self.heads: return None
        if path.ghost.get('at') == b and path.ghost.get('fresh'): path.ghost['fresh'] = False; return None
        for d, x in env.items():
            if b not in self.done and z3.is_expr(x) and (z3.is_int(x) or z3.is_bool(x)) and (b, d) not in self.seen:
                self.seen.add((b, d)); self.cand[b] |= {(d, k) for k in (BC if z3.is_bool(x) else IC)}
        self.arrive(b, path, env)
        if b not in self.done:
            self.done.add(b)
            # continue once from the havocked state
            v = {k: z3.Int(f'{k}_{b}') for k in ('ts', 'prog', 'bzc', 'tlc', 'bzd', 'tl')}
            v.update({k: z3.Bool(f'{k}_{b}') for k in ('first', 'flag', 'evald')})
            v['bzm'], v['tlm'], v['T0'] = self.bzm, self.tlm, self.T0
            p = self.path({k: v[k] for k in self.key})
            # memory outside the counters must not have changed: checked per leg
            self.frame(path, ('ts', 'prog', 'bzc', 'tlc'))
            p.pc = list(self.pre) + [v[k] >= 0 for k in ('bzc', 'tlc', 'bzd', 'tl', 'ts')] + [z3.Or(self.A(v), self.Bc(v), self.Cc(v))]
            p.ghost.update({k: v[k] for k in G}); p.ghost.update(work=0, phase=v['ts'])
            p.ghost['from'] = b
            e2 = {}
            for d, x in env.items():
                if z3.is_expr(x) and (z3.is_int(x) or z3.is_bool(x)):
                    if z3.is_bool(x): e2[d] = z3.Bool(f'{d}_{b}')
                    else: e2[d] = z3.Int(f'{d}_{b}'); p.pc.append(e2[d] >= 0)
                elif isinstance(x, Ptr) and not x.terms and isinstance(x.reg, str): e2[d] = x
            for i in f.blocks[b]:
                if i[0] == 'phi' and i[1] not in e2: raise Unsupported('loop-carried pointer')
            for c in sorted(self.cand[b], key=str):
                try: p.pc.append(self.fact(c, v, e2))
                except (z3.Z3Exception, AttributeError, TypeError, KeyError): self.lost[b].add(c)
            # values computed before the loop that are path constants stay; anything else is in env unchanged
            self.pending.append((b, e2, p))
        else: self.frame(path, ('ts', 'prog', 'bzc', 'tlc'))
        return 'stop'
    def run(self):
        ex = self.ex = Exec(self.mod, 'int'); ex.blockhook = self.hook
        ex.regions = {n: Region(n, None) for n in SW.values()}
        ex.stubs = {'r2u2_bz_update': self.bz, 'r2u2_mltl_update': self.tlu}
        self.T0, self.bzm, self.tlm = z3.Ints('T0 bzm tlm')
        self.pre = [self.T0 >= 0, self.T0 < T31 - 1, self.bzm >= 0, self.tlm >= 0, self.bzm < T31, self.tlm < T31]
        p = self.path(dict(ts=self.T0, prog=z3.IntVal(self.FIRST), bzc=z3.IntVal(0), tlc=z3.IntVal(0), bzm=self.bzm, tlm=self.tlm))
        p.pc = list(self.pre)
        p.ghost.update(bzd=z3.IntVal(0), tl=z3.IntVal(0), first=z3.BoolVal(True), flag=z3.BoolVal(False), evald=z3.BoolVal(False), work=0, phase=self.T0)
        self.done = set(); self.pending = []
        def finish(gen):
            for q0, ret in gen:
                for q in self.newpass(q0):
                    v = self.view(q); P = lambda n, g: self.prove(n, q, g); self.rets += 1
                    P('step: every Boolean-layer instruction was evaluated exactly once', v['bzd'] == v['bzm'])
                    P('step: the temporal layer was run until a whole pass changed nothing', z3.And(v['tl'] == v['tlm'], z3.Not(v['first']), z3.Not(v['flag'])))
                    P('step: the time stamp advances by exactly one', v['ts'] == self.T0 + 1)
                    P('step: counters and progress flag are ready for the next step', z3.And(v['bzc'] == 0, v['tlc'] == 0, v['prog'] == self.FIRST))
                    P('step: returns ok', z3.Implies(v['evald'], ret == self.C['R2U2_OK']))
                    P('step: instruction counts are kept', z3.And(v['bzm'] == self.bzm, v['tlm'] == self.tlm))
                    self.frame(q, ('ts', 'prog', 'bzc', 'tlc'))
        finish(ex.run('r2u2_engine_step', [Ptr('MON')], p))
        while self.pending:
            b, env, p = self.pending.pop()
            p.ghost['at'] = b; p.ghost['fresh'] = True
            insts = self.f.blocks[b]; k = next(i for i, x in enumerate(insts) if x[0] != 'phi')
            work = [(b, k, None, env, p, {})]
            while work:
                x = work.pop(); finish(ex.block(self.f, x[0], x[1], x[2], x[3], x[4], x[5], work, 0))

class Reset(Base):
    def go(self, fn):
        ex = self.ex = Exec(self.mod, 'int'); lay = self.lay
        ex.regions = {n: Region(n, None) for n in SW.values()}
        sets = []
        def memset(e, path, a):
            q = path.clone(); q.ghost['ms'] = q.ghost.get('ms', ()) + ((a[0], a[1], a[2]),); yield q, a[0]
        ex.stubs = {'llvm.memset.p0.i64': memset, 'memset': memset}
        v0 = {k: z3.Int(k) for k in self.key}
        self.npaths = 0
        for q, ret in ex.run(fn, [Ptr('MON')], self.path(v0)):
            self.npaths += 1
            v = {k: self.g(q, k) for k in self.key}; P = lambda n, g: self.prove(f'{fn}: {n}', q, g)
            P('clock is zero', v['ts'] == 0); P('program counters restart', z3.And(v['bzc'] == 0, v['tlc'] == 0)); P('first pass next', v['prog'] == self.FIRST)
            if 'clock' in fn: P('instructions kept', z3.And(v['bzm'] == v0['bzm'], v['tlm'] == v0['tlm']))
            else: P('instructions forgotten', z3.And(v['bzm'] == 0, v['tlm'] == 0))
            self.frame(q, tuple(self.key))
            C = self.C; cov = {}
            for ptr, val, n in q.ghost.get('ms', ()):
                ok = isinstance(ptr, Ptr) and ptr.reg in ('CB', 'QM') and not ptr.terms and ptr.const == 0 and ex.lit(val) == 0 and ex.lit(n) is not None
                P('memory is only cleared in the queue arena, to zero', z3.BoolVal(bool(ok)))
                if ok: cov[ptr.reg] = max(cov.get(ptr.reg, 0), ex.lit(n))
            if 'hard' in fn:
                P('every queue control block is cleared, and nothing beyond', z3.BoolVal(cov.get('CB') == C['R2U2_MAX_TL_INSTRUCTIONS'] * lay['size']['r2u2_scq_control_block_t']))
                P('all queue memory is cleared, and nothing beyond', z3.BoolVal(cov.get('QM') == 4*(C['R2U2_MAX_QUEUE_SLOTS'] + C['R2U2_MAX_TEMPORAL_OPERATORS'] * C['R2U2_TEMPORAL_METADATA_SIZE'])))
            else: P('no queue memory is touched', z3.BoolVal(not cov))
        return self

class Loads(Base):
    """r2u2_step and r2u2_load_specification hand over to the engine and the loader"""
    def go(self):
        for fn in ('r2u2_step', 'r2u2_load_specification'):
            ex = self.ex = Exec(self.mod, 'int'); ex.regions = {n: Region(n, None) for n in SW.values()}
            log = []
            def stub(name, rets):
                def f(e, path, a):
                    for r in rets:
                        q = path.clone(); q.ghost['log'] = q.ghost.get('log', ()) + ((name, tuple(x.reg if isinstance(x, Ptr) else '?' for x in a), r),); yield q, z3.IntVal(r)
                return f
            bad = [v for k, v in self.C.items() if k == 'R2U2_OK'][0] + 1
            ex.stubs = {'r2u2_engine_step': stub('step', [self.C['R2U2_OK'], bad]), 'r2u2_process_binary': stub('load', [self.C['R2U2_OK'], bad])}
            v0 = {k: z3.Int(k) for k in self.key}
            args = [Ptr('MON')] if fn == 'r2u2_step' else [Ptr('SPEC'), Ptr('MON')]
            self.npaths = 0
            for q, ret in ex.run(fn, args, self.path(v0)):
                self.npaths += 1
                P = lambda n, g: self.prove(f'{fn}: {n}', q, g); lg = q.ghost.get('log', ())
                if fn == 'r2u2_step':
                    P('runs exactly one engine step', z3.BoolVal(len(lg) == 1 and lg[0][0] == 'step' and lg[0][1] == ('MON',)))
                    self.frame(q, ()); 
                    if len(lg) == 1: P('returns its status', ret == lg[0][2])
                else:
                    P('loads exactly one specification', z3.BoolVal(len(lg) == 1 and lg[0][0] == 'load' and lg[0][1] == ('MON', 'SPEC')))
                    if len(lg) == 1: P('reports whether loading succeeded', (ret == self.C['R2U2_OK']) == (lg[0][2] == self.C['R2U2_OK']))
                    v = {k: self.g(q, k) for k in self.key}
                    P('starts from an empty program at time zero', z3.And(*[v[k] == 0 for k in ('ts', 'bzc', 'bzm', 'tlc', 'tlm')], v['prog'] == self.FIRST))
                    self.frame(q, tuple(self.key))
        return self

def jobs(): return ['engine_step', 'r2u2_monitor_clock_reset', 'r2u2_monitor_soft_reset', 'r2u2_monitor_hard_reset', 'lib']
def job(args):
    from cops import discharge
    what, text = args; t = time.time()
    try:
        mod = llir.Module(text)
        o = Eng(mod).go() if what == 'engine_step' else Loads(mod).go() if what == 'lib' else Reset(mod).go(what)
        res = []
        for n, pc, g in o.obl:
            s = z3.simplify(g)
            res.append((f'{what}: {n}',) + (('proved', 0.0, None) if z3.is_true(s) else discharge(n, pc, g)))
        return dict(tag=what, res=res, paths=getattr(o, 'npaths', 0) or getattr(o, 'rets', 0), covers={what: 1}, wall=time.time()-t, err=None, fns=o.ex.bounds)
    except (Unsupported, llir.ExtractError, KeyError) as e:
        return dict(tag=what, res=[], paths=0, covers={}, wall=time.time()-t, err=f'{type(e).__name__}: {e}', fns={})
if __name__ == '__main__':
    text = llir.extract()
    for w in jobs():
        r = job((w, text))
        bad = [x for x in r['res'] if x[1] != 'proved']
        print(r['tag'], 'paths', r['paths'], 'obl', len(r['res']), 'bad', len(bad), f"{r['wall']:.1f}s", r['err'] or '')
        for x in bad[:8]: print('   ', x[0], x[1], f'{x[2]:.1f}', (x[3] or '').replace('\n', ' ')[:400])
