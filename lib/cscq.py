"""Contracts of the connection queue: r2u2_scq_write and r2u2_scq_read, for a queue of any length.

Abstract view of a queue: len slots, write position w, cnt <= len live entries; the entry of age a (0 = newest) has time
ET(a) and truth EB(a), times strictly decrease with age, and sits in slot (w-1-a) mod len.  Slots never written hold 0,
except that slot 0 of an empty queue holds the infinity marker."""
import z3, sys, time
import llir, clayout, irsym
from irsym import Exec, Path, Ptr, Region, Unsupported
INF = 2**32 - 1
T31 = 2**31
ET = z3.Function('ET', z3.IntSort(), z3.IntSort())
EB = z3.Function('EB', z3.IntSort(), z3.BoolSort())
a, b = z3.Ints('a b')

def age(s, w, ln): return z3.If(s < w, w-1-s, w-1-s+ln)

class SCQ:
    def __init__(self, mod):
        self.mod = mod; self.lay = clayout.layout(); self.obl = []; self.paths = 0
    def prove(self, name, pc, goal):
        self.obl.append((name, list(pc), goal))
    def base(self):
        off, size = self.lay['off'], self.lay['size']; CB = 'r2u2_scq_control_block_t'
        self.off = lambda f: off[CB, f]
        ex = self.ex = Exec(self.mod, 'int', unroll=4)
        ex.regions = {'CB': Region('CB', size[CB]), 'QM': Region('QM', 4)}
        p = Path('int')
        self.q, self.w, self.ln, self.cnt, self.qb = z3.Ints('q w len cnt qb')
        oth = {f: z3.Function('o_'+f, z3.IntSort(), z3.IntSort()) for f in ('length', 'write', 'read1', 'read2', 'next_time')}
        self.oth = oth
        qo = z3.Function('o_qbase', z3.IntSort(), z3.IntSort())
        for f in oth:
            p.base['CB', off[CB, f]] = lambda i, f=f: oth[f](i)
        p.base['CB', off[CB, 'queue']] = lambda i: Ptr('QM', ((qo(i), 4),))
        p.mem['CB', off[CB, 'length']] = [(self.q, self.ln)]
        p.mem['CB', off[CB, 'write']] = [(self.q, self.w)]
        p.mem['CB', off[CB, 'queue']] = [(self.q, Ptr('QM', ((self.qb, 4),)))]
        qm = z3.Function('o_qmem', z3.IntSort(), z3.IntSort()); self.qm = qm
        def q0(i):
            s = z3.simplify(i - self.qb)
            if ex.must(self.cur, z3.And(s >= 0, s < self.ln)):
                g = age(s, self.w, self.ln)
                e = self.cell(s, self.w, self.cnt)
                return e
            return qm(i)
        p.base['QM', 0] = q0
        p.pc = [self.q >= 0, self.q < T31, self.ln >= 1, self.ln < 2**30, self.w >= 0, self.w < self.ln, self.cnt >= 0, self.cnt <= self.ln, self.qb >= 0, self.qb < 2**30,
                z3.Implies(self.cnt < self.ln, self.w == self.cnt),
                z3.ForAll([a], z3.And(ET(a) >= 0, ET(a) < T31-1)),
                z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < self.cnt), ET(a) > ET(b)))]
        self.p = self.cur = p
        # executing needs to know the current path inside the base function
        orig = ex.rd
        def rd(path, key, idx, mk):
            self.cur = path
            return orig(path, key, idx, mk)
        ex.rd = rd
        return ex, p
    def pack(self, g): return ET(g) + z3.If(EB(g), z3.IntVal(T31), z3.IntVal(0))
    def cell(self, s, w, cnt, ov=None):
        """content of slot s for write position w and cnt entries; ov = (time,truth) of the newest entry if it was just written"""
        g = age(s, w, self.ln)
        return z3.If(g < cnt, self.pack(g), z3.If(z3.And(cnt == 0, s == 0), z3.IntVal(INF), z3.IntVal(0)))
    def qread(self, path, i):
        """final content of queue memory at i as one term"""
        s = i - self.qb
        v = z3.If(z3.And(s >= 0, s < self.ln), self.cell(s, self.w, self.cnt), self.qm(i))
        for (j, x) in path.mem.get(('QM', 0), []):
            v = z3.If(i == j, x, v)
        return v
    def write(self):
        ex, p = self.base()
        vt = z3.Int('vt'); vb = z3.Bool('vb')
        v = ex.mkverd(vt, vb)
        p.pc += [vt >= 0, vt < T31-1, z3.Implies(self.cnt > 0, vt > ET(0))]
        for path, ret in ex.run('r2u2_scq_write', [Ptr('CB'), Ptr('QM'), self.q, v], p):
            self.paths += 1
            w2 = ex.rd(path, ('CB', self.off('write')), self.q, None)
            i = z3.Int('i!'); s = i - self.qb
            inq = z3.And(s >= 0, s < self.ln)
            Q = self.qread(path, i)
            # merge: newest entry takes the new time; shift: one more entry
            g = age(s, self.w, self.ln)
            merged = z3.And(self.cnt > 0, EB(0) == vb, w2 == self.w,
                            z3.Implies(inq, Q == z3.If(g == 0, v, self.cell(s, self.w, self.cnt))))
            sw = z3.If(self.w + 1 == self.ln, z3.IntVal(0), self.w + 1)
            g2 = age(s, sw, self.ln); c2 = z3.If(self.cnt < self.ln, self.cnt + 1, self.cnt)
            shifted = z3.And(w2 == sw, z3.Implies(inq, Q == z3.If(g2 == 0, v, z3.If(g2 < c2, self.pack(g2 - 1), z3.IntVal(0)))))
            self.prove('write: the verdict becomes the newest entry; older entries keep value, age and order', path.pc, z3.Or(merged, shifted))
            self.prove('write: verdicts of equal truth are merged', path.pc,
                       z3.Or(self.cnt == 0, z3.Not(EB(0) == vb), self.ln == 1, ET(0) == 0, w2 == self.w))
            self.prove('write: merges only equal truth values', path.pc, z3.Or(z3.Not(w2 == self.w), self.ln == 1, z3.And(self.cnt > 0, EB(0) == vb)))
            self.prove('write: write position in range', path.pc, z3.And(w2 >= 0, w2 < self.ln))
            self.prove('frame: no slot outside the queue', path.pc, z3.Implies(z3.Not(inq), Q == self.qm(i)))
            self.prove('write: returns OK', path.pc, ret == self.lay['c']['R2U2_OK'])
            for (k, ws) in path.mem.items():
                if k in (('QM', 0),) or (isinstance(k[0], tuple) and k[0][0] == 'stack'): continue
                for j, x in ws:
                    if k == ('CB', self.off('write')): self.prove('frame: write position of this queue only', path.pc, j == self.q)
                    elif k in (('CB', self.off('length')), ('CB', self.off('queue'))):
                        self.prove('frame: length and place kept', path.pc, z3.And(j == self.q, (x == self.ln) if z3.is_expr(x) else z3.BoolVal(repr(x) == repr(Ptr('QM', ((self.qb, 4),))))))
                    else: self.prove(f'frame: {k} not written', path.pc, z3.BoolVal(False))
        return self
    def read(self, num, inv2=False):
        ex, p = self.base(); ex.skipq = False
        pa = z3.Int('pa'); NT = z3.Int('NT'); r = z3.Int('r')
        mine, other = ('read2', 'read1') if num else ('read1', 'read2')
        kr = ('CB', self.off(mine))
        p.mem['CB', self.off('next_time')] = [(pa, NT)]
        p.mem[kr] = [(pa, r)]
        stale = lambda x, g: z3.ForAll([a], z3.Implies(z3.And(a > g, a < self.cnt), ET(a) < NT))
        def good(x):
            g = age(x, self.w, self.ln)
            return z3.And(x >= 0, x < self.ln, z3.If(self.cnt == 0, x == 0, z3.And(g < self.cnt, stale(x, g))))
        alls = z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < self.cnt), ET(a) < NT))
        loopinv = (lambda x: z3.Or(good(x), z3.And(x == self.w, alls))) if inv2 else good
        p.pc += [pa >= 0, pa < T31, pa != self.q, NT >= 0, NT < T31, good(r)]
        f = self.mod.funcs['r2u2_scq_read']
        headers = loop_headers(f)
        # the rank that decreases: twice the age, plus one while not yet past the newest entry
        def hook(ex, fn, blk, prev, env, path, visits):
            if fn.name != 'r2u2_scq_read' or blk not in headers: return
            phis = [i for i in fn.blocks[blk] if i[0] == 'phi']
            x = ex.rd(path, kr, pa, None)
            key = ('loop', blk)
            if key in path.ghost:
                self.prove('loop invariant is preserved', path.pc, loopinv(x))
                if not inv2: self.prove('loop terminates: the age of the read position decreases', path.pc, z3.And(age(x, self.w, self.ln) >= 0, age(x, self.w, self.ln) < path.ghost[key]))
                for dst, x2 in path.ghost[key, 'phis']:
                    pass
                for i in phis:
                    y = env[i[1]]
                    if z3.is_expr(y) and z3.is_int(y): self.prove('loop invariant (local) is preserved', path.pc, y == x if path.ghost[key, 'eq'].get(i[1]) else loopinv(y))
                return 'stop'
            self.prove('loop invariant holds at entry', path.pc, loopinv(x))
            x1 = z3.Int(irsym.fresh('x'))
            path.mem[kr] = [(pa, x1)]
            eq = {}
            for i in phis:
                y = env[i[1]]
                if isinstance(y, Ptr): continue
                if not (z3.is_expr(y) and z3.is_int(y)): raise Unsupported('loop-carried value')
                if ex.must(path, y == x): eq[i[1]] = True; env[i[1]] = x1
                else:
                    self.prove('loop invariant (local) holds at entry', path.pc, loopinv(y))
                    y1 = z3.Int(irsym.fresh('y')); env[i[1]] = y1; path.pc.append(loopinv(y1))
            # anything else written so far stays as it was: the body may only write this cell (checked at the end by the frame)
            path.pc.append(loopinv(x1)); path.pc.append(self.cnt > 0)
            path.ghost[key] = age(x1, self.w, self.ln); path.ghost[key, 'phis'] = []; path.ghost[key, 'eq'] = eq
        # the body is entered only with a non-empty queue: proved below as 'loop only if not empty'
        def hook2(ex, fn, blk, prev, env, path, visits):
            if fn.name == 'r2u2_scq_read' and blk in headers and ('loop', blk) not in path.ghost:
                self.prove('loop is entered only if the queue is not empty', path.pc, self.cnt > 0)
            return hook(ex, fn, blk, prev, env, path, visits)
        ex.blockhook = hook2
        res = Ptr('RES')
        ex.unroll = 8
        p.base['RES', 0] = z3.Int('res0')
        for path, ret in ex.run('r2u2_scq_read', [Ptr('CB'), Ptr('QM'), pa, self.q, z3.BoolVal(bool(num)), res], p):
            self.paths += 1
            x = ex.rd(path, kr, pa, None)
            out = path.mem.get(('RES', 0))
            rv = z3.simplify(ex.B(ret))
            gx = age(x, self.w, self.ln)
            for val in (True, False):
                pc = path.pc + [rv if val else z3.Not(rv)]
                if val:
                    o = out[-1][1] if out else z3.Int('res0')
                    self.prove('read: returns an entry that was written, not older than asked for', pc, z3.And(self.cnt > 0, gx >= 0, gx < self.cnt, o == self.pack(gx), ET(gx) >= NT))
                    self.prove('read: it is the first such entry', pc, stale(x, gx))
                else:
                    self.prove('read: nothing is returned only if nothing new was written', pc, alls)
            self.prove('read: read position stays valid', path.pc, good(x))
            for (k, ws) in path.mem.items():
                if k == ('RES', 0) or (isinstance(k[0], tuple) and k[0][0] == 'stack'): continue
                for j, v in ws:
                    if k == kr: self.prove('frame: own read position only', path.pc, j == pa)
                    elif k == ('CB', self.off('next_time')): self.prove('frame: next_time kept', path.pc, z3.And(j == pa, v == NT))
                    elif k == ('CB', self.off('write')): self.prove('frame: write position kept', path.pc, z3.And(j == self.q, v == self.w))
                    elif k == ('CB', self.off('length')): self.prove('frame: length kept', path.pc, z3.And(j == self.q, v == self.ln))
                    elif k == ('CB', self.off('queue')): self.prove('frame: queue place kept', path.pc, z3.And(j == self.q, z3.BoolVal(repr(v) == repr(Ptr('QM', ((self.qb, 4),))))))
                    else: self.prove(f'frame: {k} not written', path.pc, z3.BoolVal(False))
        return self
    def lemmas(self):
        """from entries to streams: what the operator contracts (cops.py) assume of a read and give by a write"""
        S = z3.Function('S', z3.IntSort(), z3.BoolSort()); t = z3.Int('t'); NT, g, cnt, lost = z3.Ints('NT g cnt lost')
        mono = z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < cnt), ET(a) > ET(b)))
        # S is the stream denoted by the entries: entry a covers (ET(a+1), ET(a)]; the oldest one covers (lost, ET(cnt-1)]
        cover = z3.ForAll([a, t], z3.Implies(z3.And(a >= 0, a < cnt, t <= ET(a), z3.If(a+1 < cnt, t > ET(a+1), t > lost)), S(t) == EB(a)))
        pre = [mono, cover, cnt > 0, lost < NT, z3.ForAll([a], ET(a) >= 0)]
        got = [g >= 0, g < cnt, ET(g) >= NT, z3.ForAll([a], z3.Implies(z3.And(a > g, a < cnt), ET(a) < NT))]
        self.prove('lemma: a verdict read is the stream on [asked, its time]', pre + got + [t >= NT, t <= ET(g)], S(t) == EB(g))
        vt = z3.Int('vt'); vb = z3.Bool('vb')
        maximal = z3.ForAll([a], z3.Implies(z3.And(a >= 0, a+1 < cnt, z3.Not(ET(a+1) == 0)), z3.Not(EB(a) == EB(a+1))))
        ET2 = z3.Function('ET2', z3.IntSort(), z3.IntSort()); EB2 = z3.Function('EB2', z3.IntSort(), z3.BoolSort()); S2 = z3.Function('S2', z3.IntSort(), z3.BoolSort())
        cnt2 = z3.Int('cnt2')
        hor = z3.If(cnt > 0, ET(0), lost)
        pre2 = [mono, cover, cnt >= 0, z3.ForAll([a], ET(a) >= 0), vt > hor, lost >= -1, z3.Implies(cnt > 0, lost < ET(cnt-1)),
                z3.ForAll([t], z3.Implies(t <= hor, S2(t) == S(t))), z3.ForAll([t], z3.Implies(z3.And(t > hor, t <= vt), S2(t) == vb))]
        shift = [cnt2 == cnt + 1, ET2(0) == vt, EB2(0) == vb, z3.ForAll([a], z3.Implies(a >= 0, z3.And(ET2(a+1) == ET(a), EB2(a+1) == EB(a)))),
                 z3.ForAll([a], z3.Implies(a >= 1, z3.And(ET2(a) == ET(a-1), EB2(a) == EB(a-1))))]
        merge = [cnt > 0, EB(0) == vb, cnt2 == cnt, ET2(0) == vt, EB2(0) == vb, z3.ForAll([a], z3.Implies(a >= 1, z3.And(ET2(a) == ET(a), EB2(a) == EB(a))))]
        g2, tt = z3.Ints('g2 tt')
        inentry = [g2 >= 0, g2 < cnt2, tt <= ET2(g2), z3.If(g2+1 < cnt2, tt > ET2(g2+1), tt > lost)]
        for nm, how in (('appended', shift), ('merged', merge)):
            self.prove(f'lemma: an {nm} verdict extends the stream by its value', pre2 + how + inentry, S2(tt) == EB2(g2))
            self.prove(f'lemma: times still decrease with age ({nm})', pre2 + how + [g2 >= 0, tt > g2, tt < cnt2], ET2(g2) > ET2(tt))
        self.prove('lemma: a verdict read extends as far as the truth value lasts', pre + got + [maximal, g > 0, ET(g) > 0], S(ET(g)+1) == z3.Not(EB(g)))
        return self

def loop_headers(f):
    succ = {}
    for b, ins in f.blocks.items():
        l = ins[-1]
        succ[b] = [l[2]] if l[0] == 'jmp' else [l[3], l[4]] if l[0] == 'br' else [l[4]] + [x for _, x in l[5]] if l[0] == 'switch' else []
    heads, state = set(), {}
    def dfs(x):
        state[x] = 1
        for y in succ[x]:
            if state.get(y) == 1: heads.add(y)
            elif y not in state: dfs(y)
        state[x] = 2
    dfs(f.order[0])
    return heads

def jobs(): return ['write', 'read1', 'read2', 'lemmas']
def job(args):
    from cops import discharge
    what, text = args
    t = time.time()
    try:
        mod = llir.Module(text)
        variants = [False, True] if what.startswith('read') else [None]
        out = None
        for v in variants:
            s = SCQ(mod)
            if what == 'write': s.write()
            elif what == 'lemmas': s.base(); s.lemmas()
            else: s.read(what == 'read2', v)
            res = []
            for n, pc, g in s.obl:
                res.append((f'{what}: {n}',) + (('proved', 0.0, None) if z3.is_true(z3.simplify(g)) else discharge(n, pc, g)))
            out = dict(tag=what, res=res, paths=s.paths, covers={}, wall=time.time()-t, err=None, fns=s.ex.bounds)
            if all(x[1] == 'proved' for x in res): break
        return out
    except (Unsupported, llir.ExtractError, KeyError) as e:
        return dict(tag=what, res=[], paths=0, covers={}, wall=time.time()-t, err=f'{type(e).__name__}: {e}', fns={})
if __name__ == '__main__':
    text = llir.extract()
    for w in jobs():
        r = job((w, text))
        bad = [x for x in r['res'] if x[1] != 'proved']
        print(r['tag'], 'paths', r['paths'], 'obl', len(r['res']), 'bad', len(bad), f"{r['wall']:.1f}s", r['err'] or '')
        for x in bad[:8]: print('   ', x[0], x[1], f'{x[2]:.1f}', (x[3] or '').replace('\n', ' ')[:400])
