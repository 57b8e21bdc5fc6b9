"""Bit-exact execution: i<w> are bit vectors, doubles are IEEE Float64, and memory regions are arrays of bytes
(or of 8-byte value slots, for the unions of int and double)."""
import z3
import irsym
from irsym import Exec, Path, Ptr, Region, Unsupported, Agg

class BVX(Exec):
    def __init__(self, mod, bytes_=(), slots=(), **kw):
        super().__init__(mod, 'bv', **kw)
        self.bytes_, self.slots = set(bytes_), set(slots)
        self.solver.set('timeout', 4000)
        self.stubs.setdefault('llvm.memcpy.p0.p0.i64', self.memcpy)
        self.stubs.setdefault('memcpy', self.memcpy)
    def arr0(self, reg):
        return z3.Array('mem_' + str(reg), z3.BitVecSort(64), z3.BitVecSort(64 if reg in self.slots else 8))
    def arr(self, path, reg):
        k = ('arr', reg)
        if k not in path.ghost: path.ghost[k] = self.arr0(reg)
        return path.ghost[k]
    def setarr(self, path, reg, a): path.ghost['arr', reg] = a
    def off(self, ptr, unit=1):
        o = z3.BitVecVal(0, 64)
        if ptr.const % unit: raise Unsupported(f'unaligned {ptr}')
        for t, c in ptr.terms:
            if c % unit: raise Unsupported(f'unaligned {ptr}')
            if t.size() < 64: t = z3.ZeroExt(64 - t.size(), t)
            o = o + t * z3.BitVecVal(c // unit, 64)
        return z3.simplify(o + z3.BitVecVal(ptr.const // unit, 64))
    def kind(self, ptr):
        r = ptr.reg
        if r in self.slots: return 's'
        if r in self.bytes_ or (isinstance(r, tuple) and r[0] == 'stack'): return 'b'
        return None
    def load(self, path, ptr, ty):
        k = self.kind(ptr)
        if k is None or ty == ('ptr',): return super().load(path, ptr, ty)
        a = self.arr(path, ptr.reg); n = self.m.size(ty)
        if k == 's':
            v = z3.simplify(z3.Select(a, self.off(ptr, 8)))
            if ty == ('double',): return z3.simplify(z3.fpBVToFP(v, z3.Float64()))
            return v if n == 8 else z3.Extract(8*n-1, 0, v)
        o = self.off(ptr)
        bs = [z3.Select(a, z3.simplify(o + i)) for i in range(n)]
        v = z3.simplify(z3.Concat(*reversed(bs)) if n > 1 else bs[0])
        if ty == ('double',): return z3.fpBVToFP(v, z3.Float64())
        if ty == ('i', 1): return v != 0
        return v
    def store(self, path, ptr, ty, v):
        k = self.kind(ptr)
        if k is None or ty == ('ptr',): return super().store(path, ptr, ty, v)
        a = self.arr(path, ptr.reg); n = self.m.size(ty)
        if ty == ('double',): v = z3.fpToIEEEBV(v)
        if z3.is_bool(v): v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        if k == 's':
            o = self.off(ptr, 8)
            if n != 8: v = z3.Concat(z3.Extract(63, 8*n, z3.Select(a, o)), v)
            self.setarr(path, ptr.reg, z3.Store(a, o, v)); return
        o = self.off(ptr)
        for i in range(n): a = z3.Store(a, z3.simplify(o + i), z3.simplify(z3.Extract(8*i+7, 8*i, v)))
        self.setarr(path, ptr.reg, a)
    def memcpy(self, ex, path, args):
        d, s, n = args[0], args[1], self.lit(args[2])
        if n is None or n > 64: raise Unsupported('memcpy of unknown size')
        step = 8 if (self.kind(d) == 's' or self.kind(s) == 's') else 1
        if step == 8 and n % 8: raise Unsupported('memcpy of part of a value')
        ty = ('i', 8*step)
        vs = [self.load(path, s.add(i, 1), ty) for i in range(0, n, step)]
        for i, v in zip(range(0, n, step), vs): self.store(path, d.add(i, 1), ty, v)
        yield path, d
    def gep(self, path, base, st, idx):
        # indices are signed: an i32 index would have to be sign extended, but clang always extends explicitly to i64
        for _, v in idx:
            if z3.is_bv(v) and not z3.is_bv_value(v) and v.size() != 64: raise Unsupported('narrow index')
        return super().gep(path, base, st, idx)
