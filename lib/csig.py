"""Contracts of r2u2_load_{bool,int,float,string}_signal: the value handed over for a column goes to the slot of that column, in the
atomic buffer if the program has no Boolean-layer instructions and in the signal vector otherwise; nothing else changes."""
import re, time, z3
import llir, clayout
from irsym import Ptr, Path, Unsupported, NULL
from bvx import BVX
from cbz import solve, fp, F
FNS = ['bool', 'int', 'float', 'string']
def literal(text, ptr):
    """the C string a constant pointer points at"""
    if not (isinstance(ptr, Ptr) and isinstance(ptr.reg, tuple) and ptr.reg[0] == 'glob' and not ptr.terms and ptr.const == 0): raise Unsupported(f'string {ptr}')
    n = ptr.reg[1]
    m = re.search(r'^@' + re.escape(n) + r' = .*? c"((?:[^"\\]|\\[0-9A-Fa-f]{2})*)\\00"', text, re.M)
    if not m: raise Unsupported(f'string constant {ptr}')
    return m.group(1)
def chars(t): return frozenset(re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m[1], 16)), t))
BLANK, STOP = frozenset(' \t'), frozenset(' \t\r\n')
class Text(BVX):
    """the value is blanks, a word, and what follows the word; bytes are read only at the first byte of the word and the one after it"""
    def load(self, path, ptr, ty):
        if ptr.reg == 'TEXT':
            d = self.off(ptr) - self.blanks
            if z3.simplify(d).eq(z3.BitVecVal(0, 64)): return self.byte
            if z3.simplify(d).eq(z3.BitVecVal(1, 64)): return self.byte1
            raise Unsupported(f'byte of the text at {ptr}')
        return super().load(path, ptr, ty)
class Sig:
    def __init__(self, mod, text, kind):
        self.kind, self.obl, self.npaths = kind, [], 0
        lay = clayout.layout(); off = lay['off']; MT = 'r2u2_monitor_t'
        self.ex = ex = Text(mod, bytes_=('ATOM', 'TEXT'), slots=('SIG',), unroll=4); p = self.p0 = Path('bv')
        self.nbz, self.ix = z3.BitVec('number_of_bz_instructions', 64), z3.BitVec('column', 64)
        def mon(f, v): p.base['MON', off[MT, f]] = v
        mon('bz_program_count.max_program_count', self.nbz); mon('signal_vector', Ptr('SIG')); mon('atomic_buffer', Ptr('ATOM'))
        self.dot = z3.Bool('text_has_a_point'); self.tf, self.ti = z3.BitVec('text_as_float', 64), z3.BitVec('text_as_int', 32)
        n, m = z3.BitVec('leading_blanks', 64), z3.BitVec('length_of_word', 64); c, c1 = z3.BitVec('first_byte', 8), z3.BitVec('byte_after_first', 8); end = z3.Bool('nothing_follows_the_word'); ex.blanks, ex.byte, ex.byte1 = n, c, c1
        isin = lambda x, cs: z3.Or(*[x == ord(y) for y in sorted(cs)])
        p.pc += [z3.ULT(n, 1 << 32), z3.ULT(m, 1 << 32), z3.Not(isin(c, BLANK)), (m == 0) == isin(c, STOP | {'\0'}), z3.Implies(m != 0, (m == 1) == isin(c1, STOP | {'\0'})), z3.Implies(m == 1, end == (c1 == 0)), z3.Implies(m == 0, end == (c == 0))] if kind == 'string' else []
        self.is0 = z3.And(m == 1, c == 48)
        eps = z3.FPVal(lay['eps'], F)
        if kind == 'bool': v = z3.Bool('value'); self.arg = v; self.truth = v; self.word = z3.If(v, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)); self.isf = None
        elif kind == 'int': v = z3.BitVec('value', 32); self.arg = v; self.truth = v != 0; self.word = v; self.isf = None
        elif kind == 'float':
            b = z3.BitVec('value', 64); v = fp(b); self.arg = v; self.truth = z3.fpGEQ(z3.fpAbs(v), eps); self.fl = v; p.pc.append(z3.Not(z3.fpIsNaN(v)))
        else: self.arg = Ptr('TEXT'); self.truth = z3.Not(self.is0)
        def txt(a):
            """whether the pointer is at the word (otherwise at the text)"""
            if isinstance(a, Ptr) and a.reg == 'TEXT':
                if z3.simplify(ex.off(a) - n).eq(z3.BitVecVal(0, 64)): return True
                if not a.terms and a.const == 0: return False
            raise Unsupported('a string that is not the value')
        def strcmp(e, path, a):
            x, other = (a[0], a[1]) if isinstance(a[0], Ptr) and a[0].reg == 'TEXT' else (a[1], a[0]); w = txt(x)
            if literal(text, other) != '0': raise Unsupported('comparison with another text')
            r = z3.FreshConst(z3.BitVecSort(32), 'strcmp'); q = path.clone(); q.pc.append((r == 0) == z3.And(self.is0, end, True if w else n == 0)); yield q, r
        def strspn(e, path, a):
            w = txt(a[0])
            if chars(literal(text, a[1])) != BLANK: raise Unsupported('strspn with another set')
            yield path, (z3.BitVecVal(0, 64) if w else n)
        def strcspn(e, path, a):
            if not txt(a[0]) or chars(literal(text, a[1])) != STOP: raise Unsupported('strcspn with another set')
            yield path, m
        def strchr(e, path, a):
            txt(a[0])
            if e.lit(a[1]) != 46: raise Unsupported('strchr for another character')
            for has in (True, False):
                q = path.clone(); q.pc.append(self.dot == has); yield q, (Ptr('POINT') if has else NULL)
        def sscanf(e, path, a):
            txt(a[0]); f = literal(text, a[1]); q = path.clone()
            if f == '%lf': e.store(q, a[2], ('double',), fp(self.tf))
            elif f == '%d': e.store(q, a[2], ('i', 32), self.ti)
            else: raise Unsupported(f'sscanf format {f}')
            yield q, z3.BitVecVal(1, 32)
        ex.stubs.update({'strcmp': strcmp, 'strspn': strspn, 'strcspn': strcspn, 'strchr': strchr, '__isoc99_sscanf': sscanf, 'sscanf': sscanf})
        if kind == 'string': p.pc.append(z3.Not(z3.fpIsNaN(fp(self.tf))))
        self.S, self.A = ex.arr(p, 'SIG'), ex.arr(p, 'ATOM')
    def go(self):
        ex = self.ex
        for p, ret in ex.run(f'r2u2_load_{self.kind}_signal', [Ptr('MON'), self.ix, self.arg], self.p0):
            self.npaths += 1; P = lambda n, g: self.obl.append((n, list(p.pc), g))
            x = z3.BitVec('x', 64); S, A = ex.arr(p, 'SIG'), ex.arr(p, 'ATOM'); no = self.nbz == 0
            P('without Boolean-layer instructions the atomic of the column holds the value', z3.Implies(no, z3.Select(A, self.ix) == z3.If(self.truth, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))))
            got = z3.Select(S, self.ix); low = z3.Extract(31, 0, got)
            w = low == self.word if self.kind in ('bool', 'int') else fp(got) == self.fl if self.kind == 'float' else z3.If(self.dot, fp(got) == fp(self.tf), low == self.ti)
            P('with Boolean-layer instructions the signal of the column holds the value', z3.Implies(z3.Not(no), w))
            P('frame: no other atomic changes', z3.Implies(z3.Or(x != self.ix, z3.Not(no)), z3.Select(A, x) == z3.Select(self.A, x)))
            P('frame: no other signal changes', z3.Implies(z3.Or(x != self.ix, no), z3.Select(S, x) == z3.Select(self.S, x)))
            for k, ws in p.mem.items():
                if isinstance(k[0], tuple) and k[0][0] == 'stack': continue
                P(f'frame: {k} is not written', z3.BoolVal(False))
        return self
def jobs(prop=None, tier=None):
    text = llir.extract(); return [('csig', (k, text)) for k in FNS]
def job(args):
    k, text = args; t = time.time(); tag = f'r2u2_load_{k}_signal'
    try:
        s = Sig(llir.Module(text), text, k).go()
        res = [(f'{tag}: {n}',) + solve(n, pc, g) for n, pc, g in s.obl]
        if not s.npaths: raise Unsupported('no path')
        return dict(tag=tag, res=res, paths=s.npaths, covers={tag: s.npaths}, wall=time.time()-t, err=None, fns=s.ex.bounds)
    except (Unsupported, llir.ExtractError, KeyError, AttributeError, TypeError, z3.Z3Exception) as e:
        return dict(tag=tag, res=[], paths=0, covers={}, wall=time.time()-t, err=f'{type(e).__name__}: {e}', fns={})
if __name__ == '__main__':
    for _, a in jobs():
        r = job(a); print(r['tag'], r['paths'], [(x[1]) for x in r['res']], r['err'])
