"""C06: assembly and binary.
step   one arbitrary node of the future-time and one of the past-time specifications is assembled by the real gen_assembly (and the
       real gen_* functions); the instruction tables so far are ghost dictionaries, arbitrary within their invariant (every operand
       is in its table, identifiers are positions); the extraction replaces the empty displays and counters of gen_assembly only.
pack   pack_instruction over symbolic fields: decoded with the record layout of the loader (proved under M08), every field comes back,
       and a value that does not fit raises.
code   the enumerations of the compiler against the constants of the C headers.
tail   reordering of the finished tables, headers, records and aliases of assemble: bounded enumeration on the real code."""
import ast, inspect, re, struct, time, itertools, types as pytypes, textwrap, os, tempfile
from z3 import *
import psym as P, clayout
from psym import cpt, K, RAW, LOC
from c2po import assemble as A, command, types as T, log
from pdel import prove
TLC = {'!': 'NOT', '&&': 'AND', '||': 'OR', '<->': 'EQUIVALENT', 'U': 'UNTIL', 'R': 'RELEASE', 'S': 'SINCE', 'T': 'TRIGGER'}
FTK = [('!',), ('&&', 2, 'B'), ('||', 2, 'B'), ('<->',), ('U',), ('R',)]
PTK = FTK[:4] + [('S',), ('T',)]
BZC = {'==': ('IEQ', 'FEQ'), '!=': ('INEQ', 'FNEQ'), '>': ('IGT', 'FGT'), '<': ('ILT', 'FLT'), '>=': ('IGTE', 'FGTE'), '<=': ('ILTE', 'FLTE'), '+': ('IADD', 'FADD'), '*': ('IMUL', 'FMUL'), '-': ('ISUB', 'FSUB'),
       '/': ('IDIV', 'FDIV'), '%': ('MOD', None), 'pow': ('IPOW', 'FPOW'), 'neg': ('INEG', 'FNEG'), 'abs': ('IABS', 'FABS'), 'sqrt': ('ISQRT', 'FSQRT'), '&': ('BWAND', None), '|': ('BWOR', None), '^': ('BWXOR', None), '~': ('BWNEG', None), 'prev': ('PREV', 'PREV')}
def bzcode(C, n): return C['R2U2_BZ_' + ('' if n == 'TS' else 'OP_') + n]
# ------------------------------------------------------------------ ghost tables
class Done(Exception): pass
class Entry:
    """an instruction generated earlier, known by its identifier"""
    def __init__(self, i): self.id = i; self.operator = None
class Table:
    def __init__(self, role, n): self.role, self.n, self.put, self.new, self.seen = role, n, {}, [], {}
    def _has(self, k):
        if k is None: return False
        for x, v in self.new:
            if x is k: return True
        if id(k) in self.seen: return True
        return P.R.member(self, k)
    def __contains__(self, k):
        if k is not None and type(k) is not P.Hole and not isinstance(k, cpt.Expression): raise P.Reach('key that is no expression')
        return self._has(k)
    def __getitem__(self, k):
        if not self._has(k): raise KeyError('not assembled')
        for x, v in reversed(self.new):
            if x is k: return v
        if id(k) not in self.seen: self.seen[id(k)] = Entry(P.SymInt(Int(P.R.fresh(self.role + 'id'))))
        return self.seen[id(k)]
    def get(self, k, d=None): return self[k] if k in self else d
    def __setitem__(self, k, v):
        if not self._has(k): self.n = self.n + 1
        self.new.append((k, v)); P.R.log.append((self.role, k, v, self.n))
    def symlength(self): return self.n
    def _end(self, *a, **k): raise Done
    __iter__ = keys = values = items = __reversed__ = _end
    def _no(self, *a, **k): raise P.Reach('table operation')
    pop = update = setdefault = __delitem__ = clear = __bool__ = _no
class Listing:
    """configuration records so far"""
    role = 'cg'
    def __init__(self): self.new = []
    def append(self, x): self.new.append(x); P.R.log.append(('cg', None, x, None))
    def extend(self, xs):
        for x in xs: self.append(x)
    def __iadd__(self, xs): self.extend(xs); return self
    def symlength(self): raise P.Reach('length of the listing')
    def _end(self, *a, **k): raise Done
    __iter__ = __reversed__ = _end
    def _no(self, *a, **k): raise P.Reach('listing operation')
    __getitem__ = __setitem__ = insert = pop = __add__ = _no
def role_of(name):
    r = [k for k in ('bz', 'ft', 'pt', 'cg') if k in name.lower()]
    if len(r) != 1: raise P.Reach(f'table {name} has no recognised role')
    return r[0]
class Displays(ast.NodeTransformer):
    n = 0; cnt = 0
    def assign(self, n, name, v):
        if isinstance(v, (ast.Dict, ast.List)) and not (v.keys if isinstance(v, ast.Dict) else v.elts):
            self.n += 1; n.value = ast.Call(ast.Name('_table_', ast.Load()), [ast.Constant(role_of(name)), ast.Constant(isinstance(v, ast.Dict))], [])
        elif isinstance(v, ast.Constant) and type(v.value) is int and v.value == 0:
            self.cnt += 1; n.value = ast.Call(ast.Name('_count_', ast.Load()), [], [])
        return n
    def visit_AnnAssign(self, n): return self.assign(n, n.target.id, n.value) if isinstance(n.target, ast.Name) and n.value is not None else n
    def visit_Assign(self, n): return self.assign(n, n.targets[0].id, n.value) if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) else n
def extracted():
    f = ast.parse(textwrap.dedent(inspect.getsource(A.gen_assembly))); d = Displays(); fn = f.body[0]; head = []
    for s in fn.body:
        if isinstance(s, (ast.For, ast.While)): break
        head.append(s)
    for s in head: d.visit(s)
    if d.n != 4 or d.cnt > 1: raise P.Reach(f'gen_assembly starts from {d.n} tables and {d.cnt} counters')
    g = dict(A.__dict__); exec(compile(ast.fix_missing_locations(f), 'assemble.py (ghost tables)', 'exec'), g)
    return g
def mk(kind, sort, name, parents):
    """a node with its parents"""
    x = P.hole(sort, name)
    if kind[0] == 'formula':
        f = cpt.Formula(LOC, 'phi', P.SymInt(Int(name + '_num')), x); return f
    P.make(x, kind); d = RAW(x, '__dict__')
    if isinstance(x, cpt.Signal): d['signal_id'] = P.SymInt(Int(name + '_sid')); P.R.assume(d['signal_id'].t >= 0)
    O = cpt.Operator
    for p in parents:
        if p == 'tl': O.LogicalNegate(LOC, x)
        elif p == 'formula': cpt.Formula(LOC, 'ps', 9, x)
        elif p == 'bz': O.Equal(LOC, x, x)
    d['scq'] = (P.SymInt(Int(name + '_q0')), P.SymInt(Int(name + '_q1')))
    return x
def same_int(R, a, b):
    if isinstance(a, bool) or isinstance(b, bool) or not (P.num(a) and P.num(b)): return a is b or a == b
    return R.valid(P.term(a) == P.term(b))
def stepjob(past, kind, sort, parents, mapped, shared):
    t0 = time.time(); res = []; n = 0; C = clayout.layout()['c']
    tag = f"gen_assembly {'past' if past else 'future'} {' '.join(map(str, kind))}:{sort} parents {','.join(parents) or '-'}{' atomic' if mapped else ''}{' shared' if shared else ''}"
    try: X = extracted()
    except P.Reach as e: return dict(tag=tag, res=[], paths=0, covers={}, wall=0, err=str(e), fns={})
    un = P.patch_all(cpt, A); un3 = P.patch_dict(X, **P.BUILTINS); tabs = {}
    def table(role, isdict):
        if isdict != (role != 'cg'): raise P.Reach('kind of table')
        tabs[role] = Table(role, P.R.len0[role]) if isdict else Listing()
        return tabs[role]
    X['_table_'] = table; X['_count_'] = lambda: P.R.len0['ft']
    P.ARITIES[:] = [2]
    class Set_:
        children = []
        def __init__(s, nm, nodes): s.nm, s.nodes = nm, nodes
        def __repr__(s): return s.nm
    class Prog:
        def __repr__(s): return 'program'
    def walk(start, ctx=None):
        if not isinstance(start, Set_): raise P.Reach('traversal of something else than a specification set')
        P.R.order.append(start.nm); P.R.section = start.nm
        for x in start.nodes: yield x
        yield start
    un2 = P.patch(cpt, postorder=walk)
    try:
        def body(R):
            tabs.clear(); R.log = []; R.order = []; R.section = None
            R.len0 = {k: P.SymInt(Int('len_' + k)) for k in ('bz', 'ft', 'pt')}
            for v in R.len0.values(): R.assume(v.t >= 0)
            x = mk(kind, sort, 'x', parents); o = mk(('!',), 'B', 'o', ['tl']); ctx = cpt.Context()
            if mapped: ctx.atomic_id_map = {x: P.SymInt(Int('x_aid'))}
            R.x = x
            def member(tab, k):
                """invariant: the operands of the node at hand are assembled; the node itself is not (unless shared with the other section)"""
                if k is x or k is o: return False
                if type(k) is P.Hole or any(k is c for q in (x, o) for c in list.__iter__(RAW(q, '__dict__')['children'])):
                    if tab.role == 'bz': return True
                    return not isc(k)
                raise P.Reach('question about a node that is not at hand')
            R.member = member
            isc = lambda k: P.split(k, lambda cls, op: cls is cpt.Constant) if type(k) is P.Hole else isinstance(k, cpt.Constant)
            pr = Prog(); ft, pt = Set_('ft', []), Set_('pt', [])
            if shared: ft.nodes, pt.nodes = [x], [x]
            elif past: ft.nodes, pt.nodes = [o], [x]
            else: ft.nodes, pt.nodes = [x], [o]
            pr.ft_spec_set, pr.pt_spec_set = ft, pt
            try: rc = X['gen_assembly'](pr, ctx)
            except Done: rc = Done
            except KeyError as e:
                if not R.log or 'not assembled' in str(e): raise
                raise
            kids = [(c, isc(c)) for c in list.__iter__(RAW(x, '__dict__')['children'])] if kind[0] not in ('formula',) else [(c, isc(c)) for c in list.__iter__(x.children)]
            return x, o, kids, rc, ctx
        for R, out in P.explore(body, 3000, 120):
            n += 1; ck = []
            if isinstance(out, Exception):
                unsup = kind[0] in ('<<', '>>') and isinstance(out, KeyError)
                res.append((f'{tag}: completes, or refuses what the monitor has no instruction for', 'proved' if unsup else 'refuted', 0.0, f'{type(out).__name__}: {out}')); continue
            x, o, kids, rc, ctx = out
            nm = f"{tag} ({','.join('constant' if k else 'any' for _, k in kids)}): "
            def ob(a, ok, cex=''): res.append((nm + a, 'proved' if ok else 'refuted', 0.0, None if ok else str(cex)[:300]))
            if kind[0] == 'formula' and kids[0][1]: ob('a constant specification is refused', rc is None, rc); continue
            ob('both sections are assembled', R.order == ['ft', 'pt'] and rc is Done, f'{R.order} {rc}')
            lg = R.log; secs = ['ft', 'pt'] if shared else ['pt' if past else 'ft']
            nft = R.len0['ft']; base = {'ft': 0}
            used = []
            for role, k, v, ln in lg:
                if role == 'ft': nft = nft + 1
            const = isinstance(x, cpt.Constant); istl = x.engine is T.R2U2Engine.TEMPORAL_LOGIC and not const
            bz = (x.engine is T.R2U2Engine.BOOLEANIZER and not const) or (const and 'bz' in parents)
            ents = [(r, v, ln) for r, k, v, ln in lg if k is x]
            want = (['bz'] if bz else []) + (secs if istl or mapped else [])
            ob('one instruction per engine that computes the node', sorted(e[0] for e in ents) == sorted(want), f'{[e[0] for e in ents]} wanted {want}')
            for role, v, ln in ents:
                if role == 'bz':
                    ok = isinstance(v, A.BZInstruction); ob('a booleanizer instruction', ok)
                    if not ok: continue
                    ob('its number is its position', same_int(R, v.id, R.len0['bz']), v.id)
                    ob('it is for the booleanizer', v.engine_tag.value == C['R2U2_ENG_BZ'])
                    e = lambda i: tabs['bz'].seen.get(id(kids[i][0]), Entry(None)).id
                    F = sort == 'F'; k0 = kind[0]
                    if k0 == 'signal': w = ('FLOAD' if F else 'ILOAD', x.signal_id, 0)
                    elif k0 == 'const': w = ('FCONST' if F else 'ICONST', x.value, 0)
                    elif k0 == 'tau': w = ('TS', None, None)
                    elif k0 == 'atomic': w = ('STORE', e(0), ctx.atomic_id_map.get(x, 0))
                    else:
                        fl = (kind[1] == 'F') if k0 in ('==', '!=', '>', '<', '>=', '<=') else F
                        w = (BZC[k0][fl], e(0), e(1) if len(kids) == 2 else None)
                    ob(f'the operator is {w[0]}', w[0] is not None and v.operator.value == bzcode(C, w[0]), v.operator)
                    if w[1] is not None: ob('first parameter', (v.operand1 is w[1]) if isinstance(w[1], (bool, float)) else same_int(R, v.operand1, w[1]), f'{v.operand1} {w[1]}')
                    if w[2] is not None: ob('second parameter', same_int(R, v.operand2, w[2]), f'{v.operand2} {w[2]}')
                    continue
                ok = isinstance(v, A.TLInstruction); ob('a temporal-logic instruction', ok)
                if not ok: continue
                pos = R.len0['ft'] if role == 'ft' else R.len0['pt'] + nft
                ob('its number is its position in the program', same_int(R, v.id, pos), f'{v.id} {pos}')
                ob('it is for the temporal-logic engine', v.engine_tag.value == C['R2U2_ENG_TL'])
                def opd(c, k):
                    if k: return ('DIRECT', RAW(c, '__dict__')['value'])
                    en = tabs[role].seen.get(id(c)); return ('SUBFORMULA', en.id if en else None)
                if mapped: w = ('LOAD', ('ATOMIC', ctx.atomic_id_map[x]), None)
                elif kind[0] == 'formula': w = ('RETURN', opd(*kids[0]), ('DIRECT', x.formula_number))
                else: w = (TLC[kind[0]], opd(*kids[0]), opd(*kids[1]) if len(kids) == 2 else None)
                ob(f'the operator is {w[0]}', v.operator.value == C['R2U2_MLTL_OP_' + w[0]], v.operator)
                for i, (ty, val, wi) in enumerate(((v.operand1_type, v.operand1_value, w[1]), (v.operand2_type, v.operand2_value, w[2]))):
                    if wi is None: ob(f'operand {i+1} is not set', ty.value == C['R2U2_FT_OP_NOT_SET'], ty); continue
                    ob(f'operand {i+1} is of kind {wi[0]}', ty.value == C['R2U2_FT_OP_' + wi[0]], ty)
                    ob(f'operand {i+1} has the value', wi[1] is not None and (val is wi[1] or same_int(R, val, wi[1])), f'{val} {wi[1]}')
            # configuration records of the node: one queue each, bounds of temporal operators
            i = 0
            for j, (role, k, v, ln) in enumerate(lg):
                if role not in ('ft', 'pt') or k is not x: continue
                cg = []
                for r2, k2, v2, _ in lg[j+1:]:
                    if r2 != 'cg': 
                        if r2 == 'bz': continue
                        break
                    cg.append(v2)
                tmp = isinstance(x, cpt.TemporalOperator)
                ob('a queue record follows the instruction' + (', then one with the bounds' if tmp else ''), [c.type for c in cg] == [A.CGType.SCQ] + ([A.CGType.TEMP] if tmp else []), [str(c.type) for c in cg])
                if not cg: continue
                for c in cg:
                    q = c.instruction
                    ob('the record configures the queue of the instruction', same_int(R, q.id, v.id), q.id)
                    ob('it is a configuration record for the temporal-logic engine', c.engine_tag.value == C['R2U2_ENG_CG'] and q.engine_tag.value == C['R2U2_ENG_TL'] and q.operator.value == C['R2U2_MLTL_OP_CONFIGURE'])
                q = cg[0].instruction
                ob('the queue has the computed length', q.operand1_type.value == C['R2U2_FT_OP_ATOMIC'] and same_int(R, q.operand1_value, x.scq[1] - x.scq[0]), q.operand1_value)
                ob('it is marked temporal exactly for temporal operators', (q.operand2_type.value == C['R2U2_FT_OP_ATOMIC']) == tmp and q.operand2_type.value in (C['R2U2_FT_OP_ATOMIC'], C['R2U2_FT_OP_NOT_SET']), q.operand2_type)
                if tmp and len(cg) > 1:
                    q = cg[1].instruction
                    ob('the record has the interval bounds', q.operand1_type.value == q.operand2_type.value == C['R2U2_FT_OP_SUBFORMULA'] and same_int(R, q.operand1_value, x.interval.lb) and same_int(R, q.operand2_value, x.interval.ub), f'{q.operand1_value} {q.operand2_value}')
            ob('as many queues as temporal-logic instructions', sum(r == 'cg' and v.type is A.CGType.SCQ for r, k, v, _ in lg) == sum(r in ('ft', 'pt') for r, *_ in lg))
            others = [r for r, k, v, ln in lg if k is not x and r != 'cg']
            ob('no other node is touched', others == ([] if shared else ['ft' if past else 'pt']), others)
            if not shared:
                v = [v for r, k, v, ln in lg if k is o][0]
                if not past: ob('past-time numbers follow all future-time numbers', same_int(R, v.id, R.len0['pt'] + nft), v.id)
    except (P.Reach, P.Timeout) as e: return dict(tag=tag, res=[], paths=n, covers={}, wall=time.time()-t0, err=str(e), fns={})
    finally: un2(); un()
    w = time.time()-t0
    return dict(tag=tag, res=res, paths=n, covers={}, wall=w, err=None, fns={f'c2po.assemble.{f}': len(res) for f in ('gen_assembly', 'gen_bz_instruction', 'gen_tl_operand', 'gen_ft_instruction', 'gen_pt_instruction', 'gen_ft_scq_instructions', 'gen_pt_scq_instructions')})
# ------------------------------------------------------------------ packing
SIZES = {'B': (1, 0, 255), 'b': (1, -128, 127), 'H': (2, 0, 65535), 'h': (2, -2**15, 2**15-1), 'I': (4, 0, 2**32-1), 'i': (4, -2**31, 2**31-1), 'L': (4, 0, 2**32-1), 'l': (4, -2**31, 2**31-1), 'Q': (8, 0, 2**64-1), 'q': (8, -2**63, 2**63-1), 'd': (8, None, None), 'f': (4, None, None), '?': (1, None, None)}
class Bytes:
    """bytes as fields (offset, size, format, value)"""
    def __init__(self, parts=(), n=0): self.parts, self.n = list(parts), n
    @staticmethod
    def of(b): return b if isinstance(b, Bytes) else Bytes([(i, 1, 'B', x) for i, x in enumerate(b)], len(b))
    def __add__(self, o): o = Bytes.of(o); return Bytes(self.parts + [(a + self.n, s, c, v) for a, s, c, v in o.parts], self.n + o.n)
    def __radd__(self, o): return Bytes.of(o) + self
    def symlength(self): return self.n
    def field(self, o, n):
        """(format, value) of the field that is exactly bytes o..o+n"""
        for a, s, c, v in self.parts:
            if a == o and s == n: return c, v
            if a == o and s < n and c in ('I', 'B', 'H') and all(any(p[0] == a + k and p[2] == 'x' for p in self.parts) for k in range(s, n)): return c, v
        return None, None
class Struct:
    def __init__(self, fmt):
        self.fmt = fmt; native = not fmt[:1] in ('<', '>', '=', '!'); self.little = fmt[:1] == '<'
        f = fmt if native else fmt[1:]
        if not self.little and struct.calcsize(fmt) > 1: raise P.Reach(f'byte order of format {fmt}')
        self.codes = [(c, 1) if c == 'x' else (c, 1) for n, c in re.findall(r'(\d*)([a-zA-Z?])', f) for _ in range(int(n or 1))]
        self.size = struct.calcsize(fmt)
    def pack(self, *vals):
        vs = list(vals); parts = []; o = 0
        for c, _ in self.codes:
            if c == 'x': parts.append((o, 1, 'x', 0)); o += 1; continue
            if c not in SIZES: raise P.Reach(f'format {c}')
            if not vs: raise struct.error('too few values')
            s, lo, hi = SIZES[c]; v = vs.pop(0)
            if c in 'df':
                if not isinstance(v, (float, int)): raise struct.error('required argument is not a float')
                if c == 'f' and isinstance(v, float): v = ('rounded', v)
            elif c == '?': v = ('truth', v)
            else:
                if isinstance(v, float) or not P.num(v): raise struct.error('required argument is not an integer')
                if not (v >= lo and v <= hi): raise struct.error('out of range')
            parts.append((o, s, c, v)); o += s
        if vs: raise struct.error('too many values')
        return Bytes(parts, o)
def packjob(what, opname):
    import cload
    t0 = time.time(); res = []; n = 0; C = clayout.layout()['c']; L = cload.Load
    tag = f'pack_instruction {what} {opname}'
    un = P.patch_all(A); un2 = P.patch(A, CStruct=Struct)
    try:
        def body(R):
            S = lambda nm: P.SymInt(Int(nm))
            R.vals = None
            if what == 'BZ':
                op = A.BZOperator[opname]
                a = P.FloatTok('v') if opname == 'FCONST' else [S('p1'), True, False][R.choose([None]*3)] if opname == 'ICONST' else S('p1')
                i = A.BZInstruction(A.EngineTag.BZ, S('id'), op, a, S('p2')); R.vals = (a, i.operand2, i.id)
            else:
                enum = A.FTOperator if what.startswith('FT') else A.PTOperator
                TT = list(A.TLOperandType); t1, t2 = TT[R.choose([None]*4)], TT[R.choose([None]*4)]
                a, b = [[S(nm), True, False][R.choose([None]*3)] if t is A.TLOperandType.DIRECT else S(nm) for t, nm in ((t1, 'p1'), (t2, 'p2'))]
                i = A.TLInstruction(A.EngineTag.TL, S('id'), enum[opname], t1, a, t2, b); R.vals = (a, b, i.id); R.ty = (t1, t2)
                if what.endswith('CG'): i = A.CGInstruction(A.EngineTag.CG, list(A.CGType)[R.choose([None]*2)], i)
            return i, A.pack_instruction(i, A.field_format_str_map)
        for R, out in P.explore(body, 6000, 120):
            n += 1; pc = list(R.pc)
            def ob(a, ok, cex=''): res.append((f'{tag}: {a}', 'proved' if ok else 'refuted', 0.0, None if ok else str(cex)[:300]))
            ints = [v for v in R.vals if not isinstance(v, (bool, float))]
            rng = lambda v, i: And(P.term(v) >= (-2**31 if opname == 'ICONST' and i == 0 else 0), P.term(v) <= (2**31-1 if opname == 'ICONST' and i == 0 else 2**32-1))
            fits = And([rng(v, i) for i, v in enumerate(R.vals) if not isinstance(v, (bool, float))])
            if isinstance(out, struct.error): res.append(prove(f'{tag}: only a value that does not fit is refused', pc, Not(fits))); continue
            if isinstance(out, Exception): ob('completes or refuses', False, f'{type(out).__name__}: {out}'); continue
            i, b = out
            res.append(prove(f'{tag}: every packed value fits its field', pc, fits))
            if not isinstance(b, Bytes): ob('bytes', False, type(b)); continue
            eq = lambda o, s, v, f=None: (lambda c, x: c is not None and (x is v or (P.num(x) and P.num(v) and R.valid(P.term(x) == P.term(v)))) and (f is None or c in f))(*b.field(o, s))
            ob('the first byte is the length of the record', eq(0, 1, b.n), b.parts)
            tags = {'BZ': ['R2U2_ENG_BZ'], 'FT': ['R2U2_ENG_TL'], 'PT': ['R2U2_ENG_TL'], 'FTCG': ['R2U2_ENG_CG', 'R2U2_ENG_TL'], 'PTCG': ['R2U2_ENG_CG', 'R2U2_ENG_TL']}[what]
            for k, tg in enumerate(tags): ob(f'then the engine {tg}', eq(1 + k, 1, C[tg]), b.parts)
            o = 1 + len(tags)
            if what == 'BZ':
                w = dict(param2=R.vals[1], memory_reference=R.vals[2], opcode=bzcode(C, opname) if opname != 'TS' else C['R2U2_BZ_TS'])
                for f, so, sz in L.BF:
                    if f == 'param1':
                        if opname == 'FCONST': ob('the double is in place', eq(o, 8, R.vals[0], 'd'), b.parts)
                        else: ob('param1 is in place', eq(o, 4, int(R.vals[0]) if isinstance(R.vals[0], bool) else R.vals[0], 'i' if opname == 'ICONST' else 'Ii'), b.parts)
                    else: ob(f'{f} is in place', eq(o + so, sz, w[f], 'IB'), b.parts)
                ob('the record ends there', b.n == o + 17, b.n)
            else:
                w = dict(op1_value=R.vals[0], op2_value=R.vals[1], memory_reference=R.vals[2], op1_type=R.ty[0].value, op2_type=R.ty[1].value, opcode=(A.FTOperator if what[:2] == 'FT' else A.PTOperator)[opname].value)
                for f, so, sz in L.MF: ob(f'{f} is in place', eq(o + so, sz, int(w[f]) if isinstance(w[f], bool) else w[f], 'IB'), b.parts)
                ob('the record ends there', b.n == o + 15, b.n)
    except (P.Reach, P.Timeout) as e: return dict(tag=tag, res=[], paths=n, covers={}, wall=time.time()-t0, err=str(e), fns={})
    finally: un2(); un()
    return dict(tag=tag, res=res, paths=n, covers={}, wall=time.time()-t0, err=None, fns={f'c2po.assemble.{f}': len(res) for f in ('pack_instruction', {'BZ': 'pack_bz_instruction'}.get(what, 'pack_tl_instruction'), *(['pack_cg_instruction'] if what.endswith('CG') else []))})
def codejob():
    t0 = time.time(); res = []; C = clayout.layout()['c']
    def ob(n, ok, cex=''): res.append((f'codes: {n}', 'proved' if ok else 'refuted', 0.0, None if ok else str(cex)))
    for e, nm in {A.EngineTag.CG: 'R2U2_ENG_CG', A.EngineTag.TL: 'R2U2_ENG_TL', A.EngineTag.BZ: 'R2U2_ENG_BZ', A.TLOperandType.DIRECT: 'R2U2_FT_OP_DIRECT', A.TLOperandType.ATOMIC: 'R2U2_FT_OP_ATOMIC', A.TLOperandType.SUBFORMULA: 'R2U2_FT_OP_SUBFORMULA', A.TLOperandType.NONE: 'R2U2_FT_OP_NOT_SET'}.items(): ob(f'{e} is {nm}', e.value == C[nm], f'{e.value} {C[nm]}')
    both = dict(NOP='NOP', CONFIG='CONFIGURE', LOAD='LOAD', RETURN='RETURN', NOT='NOT', AND='AND', OR='OR', EQUIV='EQUIVALENT')
    for E, more in ((A.FTOperator, dict(UNTIL='UNTIL', RELEASE='RELEASE')), (A.PTOperator, dict(SINCE='SINCE', TRIGGER='TRIGGER'))):
        for k, c in {**both, **more}.items(): ob(f'{E.__name__}.{k} is {c}', E[k].value == C['R2U2_MLTL_OP_' + c], E[k].value)
        ob(f'no two members of {E.__name__} share a code', len({e.value for e in E.__members__.values()}) == len(E.__members__))
    for e in A.BZOperator.__members__.values(): ob(f'BZOperator.{e.name} has the code of the monitor', e.value == (C['R2U2_BZ_TS'] if e.name == 'TS' else C['R2U2_BZ_OP_' + e.name]), e.value)
    ob('BZOperator members are distinct', len({e.value for e in A.BZOperator.__members__.values()}) == len(A.BZOperator.__members__))
    return dict(tag='operation codes', res=res, paths=1, covers={}, wall=time.time()-t0, err=None, fns={})
# ------------------------------------------------------------------ bounded: the finished tables, and the file
def tailjob():
    """bounded: every list of up to four nodes, of six kinds"""
    t0 = time.time(); bres = []; O = cpt.Operator; TO = cpt.TemporalOperator; log.set_quiet()
    def ob(n, ok, cex=''):
        if not ok: bres.append((f'bounded tail: {n}', 'refuted', 0.0, str(cex)[:400]))
        else: bres.append((f'bounded tail: {n}', 'proved', 0.0, None))
    sg = lambda n, ty=None: (lambda s: (setattr(s, 'signal_id', 0), setattr(s, 'engine', T.R2U2Engine.BOOLEANIZER), s)[2])(cpt.Signal(LOC, n, ty or T.IntType()))
    N = 0
    kinds = ['a', 'p', 't', 'n']       # a: u==0  p: prev(0,u)==1  t: F/O temporal  n: not
    for nf, np_ in [(0, 1), (1, 0), (1, 1), (2, 0), (0, 2), (2, 1), (1, 2), (3, 0), (0, 3), (2, 2)]:
        for ks in itertools.product(kinds, repeat=nf + np_):
            ctx = cpt.Context(); ctx.enable_booleanizer = True; aid = itertools.count(); specs = {'ft': [], 'pt': []}; prevs = []
            for j, k in enumerate(ks):
                past = j >= nf; u = sg(f'u{j}')
                def at(e): a = cpt.Atomic(LOC, e); ctx.atomic_id_map[a] = next(aid); return a
                c = lambda v: (lambda q: (setattr(q, 'type', T.IntType(True)), q)[1])(cpt.Constant(LOC, v))
                def eq(a, b): e = O.Equal(LOC, a, b); e.type = T.BoolType(); return e
                def pv(x): p = O.PreviousFunction(LOC, c(7), x); p.type = T.IntType(); prevs.append(p); return p
                base = at(eq(u, c(j))) if k != 'p' else at(eq(pv(pv(u)), c(j)))
                e = base if k in 'ap' else O.LogicalNegate(LOC, base) if k == 'n' else (TO.Since(LOC, j, j + 2, base, base) if past else TO.Until(LOC, j, j + 2, base, base))
                f = cpt.Formula(LOC, f'f{j}', j, e); specs['pt' if past else 'ft'].append(f)
            allx = list(cpt.postorder(specs['ft'] + specs['pt'], ctx))
            for i, e in enumerate(allx): e.scq = (i*3, i*3 + 1 + i % 3)
            class Pr: ft_spec_set = cpt.SpecificationSet(LOC, specs['ft']); pt_spec_set = cpt.SpecificationSet(LOC, specs['pt'])
            seq = A.gen_assembly(Pr, ctx); N += 1
            kindof = lambda i: 0 if isinstance(i, A.BZInstruction) and i.operator is not A.BZOperator.PREV else 1 if isinstance(i, A.BZInstruction) else 2 if isinstance(i, A.TLInstruction) else 3 if i.type is A.CGType.SCQ else 4
            kk = [kindof(i) for i in seq]; bad = None
            if kk != sorted(kk): bad = f'order of kinds {kk}'
            bzs = [i for i in seq if isinstance(i, A.BZInstruction)]; tls = [i for i in seq if isinstance(i, A.TLInstruction)]
            if sorted(i.id for i in bzs) != list(range(len(bzs))): bad = 'booleanizer numbers'
            pos = {i.id: n for n, i in enumerate(bzs)}
            for i in bzs:
                ops = [i.operand1] + ([i.operand2] if i.operator in (A.BZOperator.IEQ,) else []) if i.operator not in (A.BZOperator.ILOAD, A.BZOperator.ICONST) else []
                if i.operator is A.BZOperator.PREV:
                    src = bzs[pos[i.operand2]]
                    if src.operator is A.BZOperator.PREV and pos[src.id] < pos[i.id]: bad = f'previous of previous: {i} runs after {src}, which it reads'
                    if src.operator is not A.BZOperator.PREV and pos[src.id] > pos[i.id]: bad = f'{i} runs before {src}'
                for o in ops:
                    if bzs[pos[o]].operator is not A.BZOperator.PREV and pos[o] > pos[i.id]: bad = f'{i} runs before its operand b{o}'
            if [i.id for i in tls] != list(range(len(tls))): bad = f'temporal-logic numbers {[i.id for i in tls]}'
            for i in tls:
                for ty, v in ((i.operand1_type, i.operand1_value), (i.operand2_type, i.operand2_value)):
                    if ty is A.TLOperandType.SUBFORMULA and v >= i.id: bad = f'{i} runs before its operand'
            if [i.instruction.id for i in seq if kindof(i) == 3] != list(range(len(tls))): bad = 'queue records are not in the order of the queues'
            if sum(i.operator.name == 'RETURN' for i in tls) != len(ks): bad = 'one return per specification'
            if bad: ob('the finished listing is ordered', False, f'{ks} ({nf} future): {bad}'); break
        if bres: break
    if not bres: ob(f'{N} listings of up to four specifications are ordered', True)
    # the file
    for aux in (True, False):
        for ns, nc, ni in itertools.product((0, 1, 2, 3), (0, 1, 2), (1, 2, 5)):
            ctx = cpt.Context(); fs = [cpt.Formula(LOC, f'lab{i}', i*3, cpt.Signal(LOC, 'a', T.BoolType())) for i in range(ns)]
            for i in range(nc):
                q = type('C', (), {})(); q.formula_numbers = (i, i+5, i+9); ctx.contracts[f'con{i}'] = q
            class Pr2: loc = LOC; get_specs = staticmethod(lambda: fs[::-1])
            instr = [A.TLInstruction(A.EngineTag.TL, i, A.FTOperator.NOT, A.TLOperandType.SUBFORMULA, i, A.TLOperandType.NONE, 0) for i in range(ni)]
            recs = [A.pack_instruction(i, A.field_format_str_map) for i in instr]
            un = P.patch(A, gen_assembly=lambda p, c: list(instr)); un2 = P.patch(cpt, has_no_extended_operators=lambda *a: True)
            with tempfile.TemporaryDirectory() as d:
                try: rc = A.assemble(Pr2, ctx, dict(aux=aux, assembly_filename=None, print=False, binary_filename=d + '/b')); got = open(d + '/b', 'rb').read()
                except Exception as e: rc, got = f'{type(e).__name__}: {e}', b''
                finally: un(); un2()
            o = got[0] if got else 0; what = f'{ns} specifications, {nc} contracts, {ni} instructions, aux {aux}'
            ok = rc is command.ReturnCode.SUCCESS and o > 2 and got[o-1:o] == b'\0' and got[1:o-1].decode('ascii', 'replace').isprintable()
            want = b''.join(recs) + b'\0' + ((b''.join(f'F {f.symbol} {f.formula_number}\0'.encode() for f in fs) + b''.join(f'C con{i} {i} {i+5} {i+9}\0'.encode() for i in range(nc))) if aux else b'\0') + b'\0'
            if not ok or got[o:] != want or ctx.binary != got: ob('the file is the header, the records, a zero, the names and a zero', False, f'{what}: {rc} {got[o:][:60]} wanted {want[:60]}'); break
    else: ob('48 files: header, records, zero, names, zero', True)
    big = cpt.Formula(LOC, 'x' * 51, 0, cpt.Signal(LOC, 'a', T.BoolType()))
    fs = [big]; ctx = cpt.Context(); un = P.patch(A, gen_assembly=lambda p, c: list(instr)); un2 = P.patch(cpt, has_no_extended_operators=lambda *a: True)
    with tempfile.TemporaryDirectory() as d:
        try: rc = A.assemble(Pr2, ctx, dict(aux=True, assembly_filename=None, print=False, binary_filename=d + '/b'))
        except Exception as e: rc = e
        finally: un(); un2()
        ob('a name that is too long is refused, and no binary is written', rc is not command.ReturnCode.SUCCESS and not os.path.exists(d + '/b'), rc)
    return dict(tag='assemble (bounded)', res=[], bres=bres, paths=N, covers={}, wall=time.time()-t0, err=None, fns={'c2po.assemble.assemble (bounded)': 0, 'c2po.assemble.pack_aliases (bounded)': 0})
def job(a):
    try: return dict(s=stepjob, p=packjob, c=codejob, t=tailjob)[a[0]](*a[1:])
    except (P.Reach, P.Timeout) as e: return dict(tag=str(a), res=[], paths=0, covers={}, wall=0, err=str(e), fns={})
def jobs(prop='C06', tier='quick'):
    P.ARITIES[:] = [2]; P.MANY[0] = False; js = []
    for past in (False, True):
        for k in (PTK if past else FTK): js.append(('s', past, k, 'B', ('tl',), False, False))
        for k in FTK[:4]: js.append(('s', past, k, 'B', ('tl', 'formula'), False, past))
        js.append(('s', past, ('formula',), 'B', (), False, False))
        js += [('s', past, ('signal',), 'B', ('tl',), True, False), ('s', past, ('signal',), 'B', ('tl',), False, False), ('s', past, ('atomic', 'B'), 'B', ('tl',), True, False), ('s', past, ('atomic', 'B'), 'B', ('tl',), True, True), ('s', past, ('signal',), 'B', ('tl',), True, True)]
        for v in (True, False): js += [('s', past, ('const', v), 'B', p, False, sh) for p in (('tl',), ('bz',), ('tl', 'bz')) for sh in (False, True)]
        for s in 'BIF':
            for k in P.kinds(s):
                if k[0] in ('const', 'signal') and s == 'B' or k in FTK + PTK or k[0] in ('G', 'F', 'H', 'O', 'xor', '->', 'atomic', 'U', 'R', 'S', 'T'): continue
                js += [('s', past, k, s, ('bz',), False, False), ('s', past, k, s, ('bz',), False, True)]
            js.append(('s', past, ('signal',), s, ('bz',), False, False))
    for e in A.BZOperator.__members__.values():
        if e.name != 'NONE': js.append(('p', 'BZ', e.name))
    for W, E in (('FT', A.FTOperator), ('PT', A.PTOperator)):
        for e in E: js.append(('p', W, e.name))
        js.append(('p', W + 'CG', 'CONFIG'))
    js += [('c',), ('t',)]
    return [('pasm', j) for j in dict.fromkeys(js)]
if __name__ == '__main__':
    import sys, collections
    from multiprocessing import Pool
    with Pool(8) as p:
        t0 = time.time(); tot = bad = 0
        for r in p.imap_unordered(job, [j[1] for j in jobs() if len(sys.argv) < 2 or sys.argv[1] in str(j[1])]):
            tot += len(r['res']); rr = r['res'] + r.get('bres', []); nb = [x for x in rr if x[1] != 'proved']; bad += len(nb)
            if nb or r['err'] or not rr: print(r['tag'], r['paths'], len(rr), r['err'])
            for x in nb[:3]: print('   ', str(x)[:300])
        print(tot, bad, time.time()-t0)
