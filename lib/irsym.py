"""Symbolic execution of LLVM IR functions: the verification-condition generator for the C monitor.

Two value domains:
  Int  - i<w> values are mathematical integers, canonical unsigned in [0,2^w); every add/sub/mul is checked
         (by z3, under the path condition) not to wrap, and is given its wrapped value if it may.
  BV   - i<w> values are z3 bit vectors, doubles are z3 Float64 terms (exact machine arithmetic).
Memory is a set of regions; a region is addressed by (index terms)*stride + constant byte offset and holds one
cell array per (field offset).  Calls are executed (inlined) unless a contract stub is registered for the callee.
"""
import z3, itertools, time
from llir import ExtractError

class Unsupported(Exception):
    pass

class Ptr:
    __slots__ = ('reg', 'terms', 'const')
    def __init__(self, reg, terms=(), const=0):
        self.reg, self.terms, self.const = reg, tuple(terms), const
    def __repr__(self): return f'Ptr({self.reg},{self.terms},{self.const})'
    def add(self, term, coef):
        if isinstance(term, int):
            return Ptr(self.reg, self.terms, self.const + term*coef)
        for k, (t, c) in enumerate(self.terms):
            if t.eq(term):
                ts = list(self.terms); ts[k] = (t, c+coef)
                return Ptr(self.reg, [x for x in ts if x[1]], self.const)
        return Ptr(self.reg, self.terms + ((term, coef),), self.const)
NULL = Ptr('NULL')

class Fn:           # function pointer / symbol
    def __init__(self, name): self.name = name
    def __repr__(self): return f'Fn({self.name})'

class Opq:          # composite value loaded with an unusual width: kept opaque, only passed around
    def __init__(self, src): self.src = src

class Agg:
    def __init__(self, vs): self.vs = vs

class Region:
    """stride in bytes, and cells {offset: (kind)} where kind is 'i8','i32','i64','ptr','v64' ..., lazily created"""
    def __init__(self, name, stride=None):
        self.name, self.stride = name, stride

class Verd:         # structured 32 bit verdict: time + truth bit
    pass

_fresh = itertools.count()
def fresh(n): return f'{n}!{next(_fresh)}'

class Path:
    def __init__(self, dom):
        self.dom = dom
        self.pc = []            # z3 bools
        self.mem = {}           # (reg, off) -> list of (idx, val) writes, newest last
        self.base = {}          # (reg, off) -> base value function idx->val
        self.ghost = {}
        self.events = []
        self.wrapped = []
    def clone(self):
        p = Path(self.dom)
        p.pc = list(self.pc); p.mem = {k: list(v) for k, v in self.mem.items()}; p.base = dict(self.base)
        p.ghost = dict(self.ghost); p.events = list(self.events); p.wrapped = list(self.wrapped)
        return p

class Exec:
    def __init__(self, mod, dom='int', stubs=None, regions=None, offsets=None, maxpaths=4000, unroll=0):
        self.m, self.dom, self.stubs = mod, dom, stubs or {}
        self.regions = regions or {}
        self.loopinv = {}
        self.maxpaths = maxpaths; self.npaths = 0; self.unroll = unroll
        self.solver = z3.Solver(); self.solver.set('timeout', 5000)
        self.spc = []           # solver stack of path conditions
        self.verd = {}          # z3 ast id -> (time, truth) structured view of 32-bit verdict terms
        self.keep = []
        self.bounds = {}        # executed functions
        self.queries = 0
        self.skipq = True       # quantified facts are left out of feasibility queries (sound: more paths look feasible)
    # ------------------------------------------------------------ solver
    def check(self, path, *extra):
        pc = path.pc
        k = 0
        while k < len(self.spc) and k < len(pc) and self.spc[k] is pc[k]: k += 1
        while len(self.spc) > k:
            self.solver.pop(); self.spc.pop()
        for c in pc[k:]:
            self.solver.push()
            if not (self.skipq and hasquant(c)): self.solver.add(c)     # quantified facts are left out: only makes more paths look feasible
            self.spc.append(c)
        self.queries += 1
        self.solver.push()
        for e in extra: self.solver.add(e)
        r = self.solver.check()
        self.solver.pop()
        return r
    def must(self, path, c):
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return self.check(path, z3.Not(c)) == z3.unsat
    def may(self, path, c):
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return self.check(path, c) != z3.unsat
    # ------------------------------------------------------------ values
    def mkverd(self, t, b):
        """32-bit verdict value with time t and truth b (t < 2^31)"""
        if isinstance(t, int): t = z3.IntVal(t)
        if isinstance(b, bool): b = z3.BoolVal(b)
        if z3.is_true(b): v = z3.simplify(t + 2**31)
        elif z3.is_false(b): v = t
        else: v = t + z3.If(b, z3.IntVal(2**31), z3.IntVal(0))
        self.verd[v.get_id()] = (t, b); self.keep.append(v)
        return v
    def verdof(self, path, v):
        if isinstance(v, int): return (z3.IntVal(v & 0x7fffffff), z3.BoolVal(bool(v >> 31)))
        if v.get_id() in self.verd: return self.verd[v.get_id()]
        if z3.is_int_value(v): return self.verdof(path, v.as_long())
        if self.must(path, v < 2**31): r = (v, z3.BoolVal(False))
        elif self.must(path, v >= 2**31): r = (v - 2**31, z3.BoolVal(True))
        else: r = (z3.If(v >= 2**31, v - 2**31, v), v >= 2**31)
        self.verd[v.get_id()] = r; self.keep.append(v)
        return r
    def I(self, v):
        if isinstance(v, bool): return z3.IntVal(int(v))
        if isinstance(v, int): return z3.IntVal(v)
        return v
    def B(self, v):
        if isinstance(v, bool): return z3.BoolVal(v)
        return v
    def const(self, ty, x):
        if ty[0] == 'i':
            if ty[1] == 1: return z3.BoolVal(bool(x))
            x %= 2**ty[1]
            return z3.IntVal(x) if self.dom == 'int' else z3.BitVecVal(x, ty[1])
        raise Unsupported('const ' + str(ty))
    def signed(self, path, v, w):
        if z3.is_int_value(v):
            x = v.as_long(); return z3.IntVal(x - 2**w if x >= 2**(w-1) else x)
        if self.must(path, v < 2**(w-1)): return v
        return z3.If(v >= 2**(w-1), v - 2**w, v)
    def lit(self, v):
        if isinstance(v, int): return v
        if z3.is_int_value(v): return v.as_long()
        if z3.is_bv_value(v): return v.as_long()
        return None
    # ------------------------------------------------------------ memory
    def cell(self, ptr, path, size):
        r = self.regions.get(ptr.reg)
        if ptr.reg == 'NULL': raise Unsupported('null dereference')
        stride = r.stride if r else None
        idx = z3.IntVal(0); off = ptr.const
        if stride:
            ts = []
            for t, c in ptr.terms:
                if c % stride: raise Unsupported(f'unaligned index in {ptr}')
                ts.append(self.toint(t) * (c//stride) if c//stride != 1 else self.toint(t))
            q, off = divmod(ptr.const, stride)
            if q or not ts: ts.append(z3.IntVal(q))
            idx = z3.simplify(z3.Sum(ts)) if len(ts) > 1 else ts[0]
        elif ptr.terms:
            raise Unsupported(f'symbolic offset in scalar object {ptr}')
        return (ptr.reg, off), idx
    def toint(self, t):
        if z3.is_bv(t): return z3.simplify(z3.BV2Int(t))
        return t
    def rd(self, path, key, idx, mk):
        for (j, v) in reversed(path.mem.get(key, ())):
            if j.eq(idx) or self.must(path, j == idx): return v
            if not self.may(path, j == idx): continue
            # cannot decide aliasing: fork
            raise Fork(j == idx)
        b = path.base.get(key)
        if b is None:
            b = path.base[key] = mk(key)
        v = b(idx) if callable(b) else b
        return v
    def default(self, ty):
        def mk(key):
            name = f'{key[0]}_{key[1]}'
            if ty == ('ptr',): return lambda i: Ptr(('obj', name, str(i)))
            if self.dom == 'int':
                f = z3.Function(fresh(name), z3.IntSort(), z3.IntSort())
                return lambda i: f(i)
            if ty == ('double',):
                f = z3.Function(fresh(name), z3.IntSort(), z3.Float64()); return lambda i: f(i)
            w = ty[1] if ty[1] > 1 else 8
            f = z3.Function(fresh(name), z3.IntSort(), z3.BitVecSort(w)); return lambda i: f(i)
        return mk
    def load(self, path, ptr, ty):
        hook = self.loadhook(path, ptr, ty) if hasattr(self, 'loadhook') else None
        if hook is not None: return hook
        key, idx = self.cell(ptr, path, self.m.size(ty))
        v = self.rd(path, key, idx, self.default(ty))
        w = getattr(self, 'cellw', {}).get(key)
        if w is not None and w != self.m.size(ty):
            return Opq((ptr, ty))
        return self.ranged(path, v, ty)
    def ranged(self, path, v, ty):
        if self.dom == 'int' and ty[0] == 'i' and z3.is_expr(v) and not z3.is_int_value(v) and v.get_id() not in self.verd:
            s = path.ghost.setdefault('ranged', frozenset())
            if v.get_id() not in s:
                path.ghost['ranged'] = s | {v.get_id()}; self.keep.append(v)
                if v.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    path.pc.append(z3.And(v >= 0, v < 2**ty[1]))
        return v
    def store(self, path, ptr, ty, v):
        hook = self.storehook(path, ptr, ty, v) if hasattr(self, 'storehook') else None
        if hook: return
        key, idx = self.cell(ptr, path, self.m.size(ty))
        l = path.mem.setdefault(key, [])
        # an older write to the very same index is dead, as all lookups go newest first
        l[:] = [x for x in l if not x[0].eq(idx)]
        l.append((idx, v))
    # ------------------------------------------------------------ arithmetic
    def binop(self, path, op, ty, a, b):
        w = ty[1] if ty[0] == 'i' else 0
        if ty == ('double',):
            rm = z3.RNE()
            return {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](rm, a, b)
        if isinstance(a, Opq) or isinstance(b, Opq): return Opq((op, a, b))
        if isinstance(a, Ptr) or isinstance(b, Ptr): raise Unsupported('pointer arithmetic')
        if w == 1:
            return {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](a, b)
        if self.dom == 'bv':
            return {'add': lambda: a+b, 'sub': lambda: a-b, 'mul': lambda: a*b, 'and': lambda: a & b, 'or': lambda: a | b,
                    'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b,
                    'urem': lambda: z3.URem(a, b), 'udiv': lambda: z3.UDiv(a, b), 'srem': lambda: z3.SRem(a, b), 'sdiv': lambda: a / b}[op]()
        la, lb = self.lit(a), self.lit(b)
        if la is not None and lb is not None and op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'urem', 'udiv') and not (op in ('urem', 'udiv') and lb == 0):
            x = {'add': la+lb, 'sub': la-lb, 'mul': la*lb, 'and': la & lb, 'or': la | lb, 'xor': la ^ lb, 'shl': la << lb if lb < 64 else 0,
                 'lshr': la >> lb, 'urem': la % lb if lb else 0, 'udiv': la//lb if lb else 0}[op]
            return z3.IntVal(x % 2**w)
        M = 2**w
        if op == 'add':
            if lb is not None and lb >= 2**(w-1):       # + negative constant
                return self.binop(path, 'sub', ty, a, z3.IntVal(M - lb))
            r = z3.simplify(a + b)
            if self.must(path, r < M): return r
            path.wrapped.append(('add', w)); return z3.If(r >= M, r - M, r)
        if op == 'sub':
            r = z3.simplify(a - b)
            if self.must(path, r >= 0): return r
            path.wrapped.append(('sub', w)); return z3.If(r < 0, r + M, r)
        if op == 'mul':
            r = z3.simplify(a * b)
            if self.must(path, z3.And(r >= 0, r < M)): return r
            path.wrapped.append(('mul', w)); return r % M
        if op in ('and', 'or', 'xor') and la is not None and lb is None: a, b, la, lb = b, a, lb, la
        if op == 'and' and lb is not None:
            if lb == 0: return b
            if lb == M-1: return a
            if w == 32 and lb == 2**31-1: return self.verdof(path, a)[0]
            if w == 32 and lb == 2**31:
                t, tr = self.verdof(path, a); return self.mkverd(0, tr)
            if (lb & (lb+1)) == 0:
                return a if self.must(path, a <= lb) else a % (lb+1)
        if op == 'or' and lb is not None:
            if lb == 0: return a
            if w == 32 and lb == 2**31: return self.mkverd(self.verdof(path, a)[0], True)
        if op == 'or' and w == 32:
            # disjoint time and truth parts
            (ta, ba), (tb, bb) = self.verdof(path, a), self.verdof(path, b)
            if self.lit(tb) == 0: return self.mkverd(ta, z3.simplify(z3.Or(ba, bb)))
            if self.lit(ta) == 0: return self.mkverd(tb, z3.simplify(z3.Or(ba, bb)))
        if op == 'xor' and lb is not None:
            if lb == 0: return a
            if w == 32 and lb == 2**31:
                t, tr = self.verdof(path, a); return self.mkverd(t, z3.Not(tr))
            if lb == 1 and self.must(path, a <= 1): return 1 - a
        if op == 'shl' and lb is not None: return self.binop(path, 'mul', ty, a, z3.IntVal(2**lb))
        if op == 'lshr' and lb is not None:
            if w == 32 and lb == 31: return z3.If(self.verdof(path, a)[1], z3.IntVal(1), z3.IntVal(0))
            return a / (2**lb)
        if op in ('shl',) and la == 1: pass
        if op == 'urem':
            if lb is not None and lb > 0: return a % b
            if not self.may(path, b == 0):
                if self.must(path, a < b): return a
                if self.must(path, a < 2*b): return z3.If(a < b, a, a - b)
                # a mod b for symbolic b: characterise without non-linear arithmetic being needed in the common cases
            return a % b
        if op == 'udiv': return a / b
        if op in ('sdiv', 'srem') and lb is not None and self.must(path, a < 2**(w-1)) and 0 < lb < 2**(w-1):
            return a / b if op == 'sdiv' else a % b
        if op in ('and', 'or'):
            # 0/1 values
            if self.must(path, z3.And(a <= 1, b <= 1)):
                return z3.If(z3.And(a == 1, b == 1) if op == 'and' else z3.Or(a == 1, b == 1), z3.IntVal(1), z3.IntVal(0))
            if w == 32 and op == 'and':
                (ta, ba), (tb, bb) = self.verdof(path, a), self.verdof(path, b)
                if self.lit(ta) == 0 or self.lit(tb) == 0: return self.mkverd(0, z3.And(ba, bb))
        raise Unsupported(f'{op} i{w} {a} {b}')
    def icmp(self, path, c, ty, a, b):
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            return self.ptrcmp(path, c, a, b)
        if ty == ('i', 1) :
            r = a == b
            if c == 'eq': return r
            if c == 'ne': return z3.Xor(a, b)
            raise Unsupported('icmp i1 ' + c)
        if self.dom == 'bv':
            return {'eq': lambda: a == b, 'ne': lambda: a != b, 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'ult': lambda: z3.ULT(a, b),
                    'ule': lambda: z3.ULE(a, b), 'sgt': lambda: a > b, 'sge': lambda: a >= b, 'slt': lambda: a < b, 'sle': lambda: a <= b}[c]()
        # truth-bit tests keep their structure
        for x, y in ((a, b), (b, a)):
            if self.lit(y) == 0 and z3.is_expr(x) and x.get_id() in self.verd and c in ('eq', 'ne'):
                t, tr = self.verd[x.get_id()]
                if self.lit(t) == 0: return tr if c == 'ne' else z3.Not(tr)
        if c[0] == 's':
            a, b = self.signed(path, a, ty[1]), self.signed(path, b, ty[1])
        return {'eq': lambda: a == b, 'ne': lambda: a != b, 'gt': lambda: a > b, 'ge': lambda: a >= b, 'lt': lambda: a < b, 'le': lambda: a <= b}[c if c in ('eq', 'ne') else c[1:]]()
    def ptrcmp(self, path, c, a, b):
        if isinstance(a, Fn) and isinstance(b, Ptr): a, b = b, a
        if isinstance(b, Ptr) and b.reg == 'NULL' and isinstance(a, Ptr):
            if isinstance(a.reg, tuple) and a.reg[0] == 'maybenull':
                n = a.reg[1]; return n if c == 'eq' else z3.Not(n)
            return z3.BoolVal((a.reg == 'NULL') == (c == 'eq'))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg == b.reg and not a.terms and not b.terms:
            return z3.BoolVal((a.const == b.const) == (c == 'eq'))
        raise Unsupported(f'pointer comparison {a} {b}')
    # ------------------------------------------------------------ running
    def run(self, fname, args, path):
        """yields (path, return value) for every feasible path"""
        if fname not in self.m.funcs: raise Unsupported('no function ' + fname)
        yield from self.func(self.m.funcs[fname], args, path, 0)
    def func(self, f, args, path, depth):
        if depth > 12: raise Unsupported('call depth')
        self.bounds[f.name] = self.bounds.get(f.name, 0) + 1
        env = {n: a for (n, t), a in zip(f.params, args)}
        work = [(f.order[0], 0, None, env, path, {})]
        while work:
            b, k, prev, env, path, visits = work.pop()
            yield from self.block(f, b, k, prev, env, path, visits, work, depth)
    def ev(self, env, ty, o):
        k = o[0]
        if k == 'r':
            if o[1] not in env: raise Unsupported('undefined ' + o[1])
            return env[o[1]]
        if k == 'c': return self.const(ty, o[1])
        if k == 'g':
            n = o[1][1:]
            if n in self.m.funcs or n in self.m.decls: return Fn(n)
            return Ptr(('glob', n))
        if k == 'null': return NULL
        if k == 'undef':
            if ty[0] == 'struct': return Agg([None]*len(ty[1]))
            if ty[0] == 'i' and ty[1] > 1: return z3.FreshInt('undef') if self.dom == 'int' else z3.FreshConst(z3.BitVecSort(ty[1]), 'undef')
            if ty == ('i', 1): return z3.FreshBool('undef')
            if ty == ('double',): return z3.FreshConst(z3.Float64(), 'undef')
            return Ptr('UNDEF')
        if k == 'f': return z3.FPVal(o[1], z3.Float64())
        if k == 'fhex':
            if ty == ('double',): return z3.simplify(z3.fpBVToFP(z3.BitVecVal(o[1], 64), z3.Float64()))
        if k == 'gep':
            return self.gep(None, self.ev(env, ('ptr',), o[2]), o[1], [(t, self.ev(env, t, v)) for t, v in o[3]])
        if k == 'zero':
            ty = self.m.resolve(ty)
            if ty[0] == 'struct': return Agg([self.ev(env, t, o) for t in ty[1]])
            if ty == ('ptr',): return NULL
            return self.const(ty, 0)
        raise Unsupported('operand ' + str(o))
    def gep(self, path, base, st, idx):
        if isinstance(base, Opq): raise Unsupported('gep opaque')
        p = base; t = st
        for n, (ity, v) in enumerate(idx):
            l = self.lit(v)
            w = ity[1]
            if l is not None and l >= 2**(w-1): l -= 2**w
            if n == 0:
                s = self.m.size(t)
            else:
                rt = self.m.resolve(t)
                if rt[0] == 'struct':
                    o, t = self.m.field(rt, l); p = p.add(o, 1); continue
                if rt[0] == 'array': t = rt[2]; s = self.m.size(t)
                else: raise Unsupported('gep into ' + str(rt))
            if l is not None: p = p.add(l, s)
            else: p = p.add(v, s)
        return p
    def block(self, f, b, k, prev, env, path, visits, work, depth):
        while True:
            insts = f.blocks[b]
            # phis first (simultaneous)
            if k == 0:
                ph = []
                while k < len(insts) and insts[k][0] == 'phi':
                    _, dst, ty, inc = insts[k]
                    v = [x for x, pb in inc if pb == prev]
                    if not v: raise Unsupported('phi without edge')
                    ph.append((dst, self.ev(env, ty, v[0]))); k += 1
                for d, v in ph: env[d] = v
                hook = getattr(self, 'blockhook', None)
                if hook:
                    res = hook(self, f, b, prev, env, path, visits)
                    if res == 'stop': return
            try:
                nxt = None
                while k < len(insts):
                    ins = insts[k]; op = ins[0]
                    if op == 'call':
                        outs = list(self.call(f, ins, env, path, depth))
                        if not outs: return
                        for p2, v in outs[1:]:
                            e2 = dict(env)
                            if ins[1]: e2[ins[1]] = v
                            work.append((b, k+1, prev, e2, p2, dict(visits)))
                        path, v = outs[0]
                        if len(outs) > 1: env = dict(env)
                        if ins[1]: env[ins[1]] = v
                    elif op == 'ret':
                        self.npaths += 1
                        if self.npaths > self.maxpaths: raise Unsupported('too many paths')
                        yield path, (None if ins[3] is None else self.ev(env, ins[2], ins[3]))
                        return
                    elif op == 'jmp': nxt = ins[2]
                    elif op == 'br':
                        c = z3.simplify(self.B(self.ev(env, ('i', 1), ins[2])))
                        if z3.is_true(c): nxt = ins[3]
                        elif z3.is_false(c): nxt = ins[4]
                        else:
                            t, e = self.may(path, c), self.may(path, z3.Not(c))
                            if t and e:
                                p2 = path.clone(); p2.pc.append(z3.Not(c))
                                v2 = dict(visits); self.visit(v2, f, ins[4])
                                work.append((ins[4], 0, b, dict(env), p2, v2))
                                path.pc.append(c); nxt = ins[3]
                            elif t: nxt = ins[3]
                            elif e: nxt = ins[4]
                            else: return
                    elif op == 'switch':
                        v = self.ev(env, ins[2], ins[3]); l = self.lit(v)
                        M = 2**ins[2][1]
                        if l is not None:
                            nxt = next((lab for c, lab in ins[5] if c % M == l), ins[4])
                        else:
                            opts = [(v == self.const(ins[2], c), lab) for c, lab in ins[5]]
                            opts.append((z3.And([z3.Not(c) for c, _ in opts]), ins[4]))
                            opts = [(c, lab) for c, lab in opts if self.may(path, c)]
                            if not opts: return
                            for c, lab in opts[1:]:
                                p2 = path.clone(); p2.pc.append(c)
                                v2 = dict(visits); self.visit(v2, f, lab)
                                work.append((lab, 0, b, dict(env), p2, v2))
                            path.pc.append(opts[0][0]); nxt = opts[0][1]
                    elif op == 'unreachable':
                        return
                    else:
                        v = self.inst(ins, env, path)
                        if ins[1]: env[ins[1]] = v
                    k += 1
                if nxt is None: raise Unsupported('fell off block')
                self.visit(visits, f, nxt)
                prev, b, k = b, nxt, 0
            except Fork as fk:
                for c in (fk.c, z3.Not(fk.c)):
                    if self.may(path, c):
                        p2 = path.clone(); p2.pc.append(c)
                        work.append((b, k, prev, dict(env), p2, dict(visits)))
                        # re-entering at k>0 keeps phis
                        if k == 0: raise Unsupported('fork at block start')
                return
    def visit(self, visits, f, lab):
        n = visits[lab] = visits.get(lab, 0) + 1
        if self.unroll and n > self.unroll: raise Unsupported('loop without invariant in ' + f.name)
        if n > 300: raise Unsupported('loop in ' + f.name)
    def inst(self, ins, env, path):
        op = ins[0]
        if op in ('add','sub','mul','and','or','xor','shl','lshr','ashr','urem','udiv','srem','sdiv','fadd','fsub','fmul','fdiv'):
            return self.binop(path, op, ins[2], self.ev(env, ins[2], ins[3]), self.ev(env, ins[2], ins[4]))
        if op == 'icmp':
            return self.icmp(path, ins[2], ins[3], self.ev(env, ins[3], ins[4]), self.ev(env, ins[3], ins[5]))
        if op == 'fcmp':
            a, b = self.ev(env, ins[3], ins[4]), self.ev(env, ins[3], ins[5])
            un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
            c = ins[2]
            d = {'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'eq': z3.fpEQ}
            if c[1:] in d: r = d[c[1:]](a, b)
            elif c[1:] == 'ne': r = z3.And(z3.Not(un), z3.Not(z3.fpEQ(a, b)))
            else: raise Unsupported('fcmp ' + c)
            return r if c[0] == 'o' else z3.Or(un, r)
        if op == 'fneg': return z3.fpNeg(self.ev(env, ins[2], ins[3]))
        if op == 'cast': return self.cast(path, ins[2], ins[3], self.ev(env, ins[3], ins[4]), ins[5])
        if op == 'load':
            return self.load(path, self.ev(env, ('ptr',), ins[3]), ins[2])
        if op == 'store':
            self.store(path, self.ev(env, ('ptr',), ins[4]), ins[2], self.ev(env, ins[2], ins[3])); return None
        if op == 'gep':
            return self.gep(path, self.ev(env, ('ptr',), ins[3]), ins[2], [(t, self.ev(env, t, v)) for t, v in ins[4]])
        if op == 'alloca':
            return Ptr(('stack', fresh('a')))
        if op == 'select':
            c = z3.simplify(self.B(self.ev(env, ('i', 1), ins[3])))
            a, b = self.ev(env, ins[2], ins[4]), self.ev(env, ins[2], ins[5])
            if z3.is_true(c): return a
            if z3.is_false(c): return b
            if isinstance(a, (Ptr, Opq, Fn)) or isinstance(b, (Ptr, Opq, Fn)):
                if self.must(path, c): return a
                if self.must(path, z3.Not(c)): return b
                raise Fork(c)
            if z3.is_expr(a) and z3.is_int(a) and ins[2] == ('i', 32) and (a.get_id() in self.verd or b.get_id() in self.verd):
                (ta, ba), (tb, bb) = self.verdof(path, a), self.verdof(path, b)
                return self.mkverd(z3.If(c, ta, tb), z3.simplify(z3.If(c, ba, bb)))
            return z3.If(c, a, b)
        if op == 'extractvalue':
            a = self.ev(env, ins[2], ins[3])
            return a.vs[ins[4]] if isinstance(a, Agg) else Opq((a, ins[4]))
        if op == 'insertvalue':
            a = self.ev(env, ins[2], ins[3]); t = self.m.resolve(ins[2])
            vs = list(a.vs); vs[ins[5]] = self.ev(env, t[1][ins[5]], ins[4]); return Agg(vs)
        raise Unsupported('instruction ' + op)
    def cast(self, path, k, t, v, t2):
        if isinstance(v, Opq): return Opq((k, v))
        if k == 'freeze': return v
        if k in ('zext', 'sext'):
            if t == ('i', 1):
                one = self.const(t2, 1 if k == 'zext' else -1); zero = self.const(t2, 0)
                return z3.simplify(z3.If(v, one, zero)) if (z3.is_true(v) or z3.is_false(v)) else z3.If(v, one, zero)
            if self.dom == 'bv': return (z3.ZeroExt if k == 'zext' else z3.SignExt)(t2[1]-t[1], v)
            if k == 'zext': return v
            s = self.signed(path, v, t[1])
            if self.must(path, s >= 0): return s
            return z3.If(s < 0, s + 2**t2[1], s)
        if k == 'trunc':
            if self.dom == 'bv':
                r = z3.Extract(t2[1]-1, 0, v); return r == 1 if t2[1] == 1 else r
            if t2 == ('i', 1):
                l = self.lit(v)
                if l is not None: return z3.BoolVal(bool(l & 1))
                if z3.is_app_of(v, z3.Z3_OP_ITE) and self.lit(v.arg(1)) == 1 and self.lit(v.arg(2)) == 0: return v.arg(0)
                return v % 2 == 1
            if self.must(path, v < 2**t2[1]): return v
            return v % (2**t2[1])
        if k == 'bitcast':
            if t == t2: return v
            if t2 == ('double',): return z3.fpBVToFP(v, z3.Float64())
            if t == ('double',): return z3.fpToIEEEBV(v)
        if k == 'sitofp': return z3.fpSignedToFP(z3.RNE(), v, z3.Float64())
        if k == 'uitofp': return z3.fpUnsignedToFP(z3.RNE(), v, z3.Float64())
        if k == 'fptosi': return z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(t2[1]))
        if k == 'fptoui': return z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(t2[1]))
        raise Unsupported('cast ' + k)
    def call(self, f, ins, env, path, depth):
        _, dst, rt, callee, args = ins
        fn = self.ev(env, ('ptr',), callee)
        vs = [self.ev(env, t, v) for t, v in args]
        if isinstance(fn, Ptr):
            s = self.stubs.get('<indirect>')
            if s is None: raise Unsupported('indirect call')
            yield from s(self, path, [fn] + vs); return
        n = fn.name
        if n.startswith('llvm.lifetime') or n.startswith('llvm.dbg') or n.startswith('llvm.assume'):
            yield path, None; return
        if n.startswith('llvm.expect'): yield path, vs[0]; return
        if n in self.stubs:
            yield from self.stubs[n](self, path, vs); return
        for pat, mk in (('llvm.umin', lambda a, b: a <= b), ('llvm.umax', lambda a, b: a >= b)):
            if n.startswith(pat) and self.dom == 'int':
                yield path, z3.If(mk(vs[0], vs[1]), vs[0], vs[1]); return
        if n in self.m.funcs:
            yield from list(self.func(self.m.funcs[n], vs, path, depth+1)); return
        raise Unsupported('call ' + n)

_hq = {}
def hasquant(e):
    k = e.get_id()
    if k in _hq and _hq[k][0].eq(e): return _hq[k][1]
    r = z3.is_quantifier(e) or any(hasquant(x) for x in e.children())
    _hq[k] = (e, r)
    return r

class Fork(Exception):
    def __init__(self, c): self.c = c
