"""C08: type_check_expr under contract, one node at a time.  Operands are stubs: any expression with any type (the types of C2PO: Boolean,
integer, float, enumeration and enumeration member, two structs, arrays of any size over these, contract, none).
RULE gives the verdict of the documented typing rules: True (well-typed, must be accepted), False (must be rejected), None (the language
description leaves it open).  Obligations per kind of node: accepted only if the rule does not forbid it, accepted if the rule demands it, the
type given to the node, and that no operand is retyped (enumeration members take the enumeration of the other operand)."""
import time, builtins, types as pytypes
from z3 import *
import psym as P
from psym import cpt, K, RAW, LOC
from c2po import type_check as TC, types as T, command, log
from pdel import prove
AG = cpt.SetAggregationKind
ENUMS = {'E': {'A1': 1, 'A2': 3}, 'E2': {'B1': 1}}
STRUCTS = {'Q': ('B', 'I'), 'Q2': ('I',)}
TAGS = ['B', 'I', 'F', ('enum', 'E'), ('enum', 'E2'), ('mem', 'A1'), ('mem', 'B1'), ('st', 'Q'), ('st', 'Q2'), ('arr', 'B'), ('arr', 'I'), ('arr', ('st', 'Q')), ('arr', ('arr', 'I')), 'C', 'N']
def mk(tag, size=None):
    if tag == 'B': return T.BoolType()
    if tag == 'I': return T.IntType()
    if tag == 'F': return T.FloatType()
    if tag == 'C': return T.ContractValueType()
    if tag == 'N': return T.NoType()
    if tag[0] in ('enum', 'mem'): return T.EnumType(tag[1])
    if tag[0] == 'st': return T.StructType(tag[1])
    return T.ArrayType(mk(tag[1], 2), size=size if size is not None else -1)
def tagof(t):
    """the tag of a type object"""
    if isinstance(t, T.BoolType): return 'B'
    if isinstance(t, T.IntType): return 'I'
    if isinstance(t, T.FloatType): return 'F'
    if isinstance(t, T.ContractValueType): return 'C'
    if isinstance(t, T.EnumType): return ('enum' if t.symbol in ENUMS else 'mem', t.symbol)
    if isinstance(t, T.StructType): return ('st', t.symbol)
    if isinstance(t, T.ArrayType): return ('arr', tagof(t.member_type))
    return 'N'
# ------------------------------------------------------------------ stubs
SHAPES = [c for c in vars(cpt).values() if isinstance(c, type) and issubclass(c, cpt.Expression) and c not in (cpt.Expression, cpt.Specification, cpt.SpecificationSet, cpt.Formula, cpt.Contract, cpt.Bind)]
def fits(c, tag):
    if c is cpt.Constant: return tag in ('B', 'I', 'F')
    if c is cpt.CurrentTimestamp or c in (cpt.MissionTime, cpt.SymbolicIntervalVariable): return tag == 'I'
    if c in (cpt.ArrayExpression, cpt.ArraySlice): return isinstance(tag, tuple) and tag[0] == 'arr'
    if c in (cpt.TemporalOperator, cpt.SymbolicTemporalOperator, cpt.SetAggregation, cpt.Atomic): return tag == 'B'
    if c in (cpt.Struct, cpt.FunctionCall): return isinstance(tag, tuple) and tag[0] == 'st'
    if c is cpt.Operator: return tag in ('B', 'I', 'F') or isinstance(tag, tuple) and tag[0] == 'enum'
    return True
class Stub(cpt.Expression):
    """any expression; its type and, as far as the code asks, its class are chosen on the way"""
    def __init__(self, name, tags=None, shapes=None, many=False):
        d = RAW(self, '__dict__'); d.update(_name=name, _tags=list(tags or TAGS), _cand=shapes, _type=None, parents=set(), loc=LOC, replacement=None, engine=T.R2U2Engine.NONE, _sym=None, many=many, children=[])
    def tag(self):
        d = RAW(self, '__dict__')
        if d['_type'] is None:
            ts = [t for t in d['_tags'] if d['_cand'] is None or any(fits(c, t) for c in d['_cand'])]
            t = ts[P.R.choose([None] * len(ts))] if len(ts) > 1 else ts[0]
            size = None
            if isinstance(t, tuple) and t[0] == 'arr':
                s = Int(d['_name'] + '_size'); P.R.assume(s >= -1); P.R.assume(s != 0); size = P.SymInt(s); d['size'] = s
            d['_tag'] = t; d['_type'] = d['_type0'] = mk(t, size)
        return d['_tag']
    @property
    def type(self): self.tag(); return RAW(self, '__dict__')['_type']
    @type.setter
    def type(self, t): self.tag(); RAW(self, '__dict__')['_type'] = t
    @property
    def symbol(self):
        d = RAW(self, '__dict__')
        if d['_sym'] is None: d['_sym'] = ['zz', 'dk', 'de'][P.R.choose([None] * 3)] if self.tag() == 'I' and is_a(self, cpt.Variable) else 'zz'
        return d['_sym']
    @property
    def value(self):
        if cand(self) != [cpt.Constant]: raise P.Reach('value of an expression that need not be a constant')
        return P.SymInt(Int(RAW(self, '__dict__')['_name'] + '_value'))
    @property
    def operator(self):
        d = RAW(self, '__dict__')
        if not all(issubclass(c, cpt.Operator) for c in cand(self)): raise P.Reach('operator of an expression that need not be one')
        if '_op' not in d: d['_op'] = [K.PREVIOUS, K.ARITHMETIC_ABS][P.R.choose([None, None])] if cpt.Operator in cand(self) else K.GLOBAL
        return d['_op']
    def __getattr__(self, a):
        if a.startswith('__'): raise AttributeError(a)
        raise P.Reach(f'attribute {a} of an operand')
def cand(s):
    d = RAW(s, '__dict__'); t = s.tag(); c = d['_cand'] if d['_cand'] is not None else SHAPES
    return [x for x in c if fits(x, t)]
def is_a(s, cls):
    """isinstance for stubs: the class is decided as far as the question needs"""
    cs = cand(s); yes = [c for c in cs if issubclass(c, cls)]; no = [c for c in cs if not issubclass(c, cls)]
    if builtins.isinstance(s, cls) and not yes: return True
    if cls is cpt.Expression or builtins.isinstance(cls, tuple) and cpt.Expression in cls: return True
    if not yes or not no: return bool(yes)
    k = P.R.choose([None, None]); RAW(s, '__dict__')['_cand'] = yes if k == 0 else no
    return k == 0
def isin(x, cls): return is_a(x, cls) if type(x) is Stub else builtins.isinstance(x, cls)
class Bits(int): pass
class BitLen:
    """bit_length() of a symbolic integer"""
    def __init__(self, t): self.t = t
    def over(self, n): return P.SymBool(Or(self.t >= 2**n, self.t <= -2**n))
    def __gt__(self, n): return self.over(n)
    def __ge__(self, n): return self.over(n - 1)
    def __le__(self, n): return P.SymBool(Not(self.over(n).t))
    def __lt__(self, n): return P.SymBool(Not(self.over(n - 1).t))
class Val(P.SymInt):
    def bit_length(self): return BitLen(self.t)
class Quiet:
    def __getattr__(self, a): return lambda *x, **k: None
    ISSUE_URL = ''
QUIET = Quiet()
def patched():
    un = []
    olds = [(m, 'isinstance', m.__dict__.get('isinstance')) for m in (TC, cpt, T)]
    for m, _, _ in olds: m.isinstance = isin
    real = (TC.log, cpt.postorder, cpt.Expression.__str__, cpt.Expression.__repr__)
    TC.log = QUIET; cpt.postorder = post
    cpt.Expression.__str__ = lambda s: 'expr'; cpt.Expression.__repr__ = lambda s: 'expr'
    w = (T.IntType.width, T.IntType.is_signed)
    def undo():
        for m, n, o in olds:
            if o is None: del m.isinstance
            else: m.isinstance = o
        TC.log, cpt.postorder, cpt.Expression.__str__, cpt.Expression.__repr__ = real
        T.IntType.width, T.IntType.is_signed = w
    return undo
def post(start, context):
    """contract of cpt.postorder; the operands, which are stubs, have been checked before"""
    done = set()
    def go(x):
        if type(x) is Stub or id(x) in done: return
        done.add(id(x))
        if builtins.isinstance(x, cpt.Bind): return
        for c in list.__iter__(x.children) if builtins.isinstance(x.children, list) else x.children: yield from go(c)
        if x is not SKIP: yield x
    return go(start)
SKIP = object()
def context(bz=True):
    c = cpt.Context(); c.enable_booleanizer = bz
    c.enums = {e: {k: cpt.Constant(LOC, v) for k, v in m.items()} for e, m in ENUMS.items()}
    c.structs = {s: {f'm{i}': mk(t) for i, t in enumerate(m)} for s, m in STRUCTS.items()}
    c.definitions = {'dk': cpt.Constant(LOC, 7), 'de': cpt.Signal(LOC, 'u', T.IntType())}; c.definitions['dk'].type = T.IntType(); c.definitions['de'].type = T.IntType()
    return c
# ------------------------------------------------------------------ the typing rules
def agree(a, b):
    """verdict on two operands that must have one type, and the retyping of enumeration members"""
    ta, tb = a.tag(), b.tag()
    if 'N' in (ta, tb) or 'C' in (ta, tb): return (None if ta == tb else False), {}
    k = lambda t: t[0] if isinstance(t, tuple) else t
    if k(ta) == 'mem' and k(tb) == 'mem': return None if ta == tb else False, {}
    if k(ta) == 'mem': return (k(tb) == 'enum' and ta[1] in ENUMS[tb[1]]), {0: tb}
    if k(tb) == 'mem': return (k(ta) == 'enum' and tb[1] in ENUMS[ta[1]]), {1: ta}
    if ta != tb: return False, {}
    if k(ta) == 'arr':
        x, y = (RAW(s, '__dict__')['size'] for s in (a, b)); eq = bool(P.SymBool(x == y))
        return (True if eq else False if bool(P.SymBool(And(x >= 0, y >= 0))) else None), {}
    return True, {}
LOGIC = [K.LOGICAL_AND, K.LOGICAL_OR, K.LOGICAL_XOR, K.LOGICAL_IMPLIES, K.LOGICAL_EQUIV, K.LOGICAL_NEGATE]
BITS = [K.BITWISE_AND, K.BITWISE_OR, K.BITWISE_XOR, K.BITWISE_NEGATE]
ARITH = [K.ARITHMETIC_ADD, K.ARITHMETIC_SUBTRACT, K.ARITHMETIC_MULTIPLY, K.ARITHMETIC_DIVIDE, K.ARITHMETIC_MODULO, K.ARITHMETIC_POWER, K.ARITHMETIC_SQRT, K.ARITHMETIC_ABS]
RELS = [K.EQUAL, K.NOT_EQUAL, K.GREATER_THAN, K.LESS_THAN, K.GREATER_THAN_OR_EQUAL, K.LESS_THAN_OR_EQUAL]
FT = [K.GLOBAL, K.FUTURE, K.UNTIL, K.RELEASE]; PT = [K.HISTORICAL, K.ONCE, K.SINCE, K.TRIGGER]
def conj(vs):
    r = True
    for v in vs:
        if v is False: return False
        if v is None: r = None
    return r
def rule(f, ops, ctx):
    """(verdict, tag of the node, retyped operands)"""
    bz = ctx.enable_booleanizer
    if isinstance(f, (cpt.TemporalOperator, cpt.SymbolicTemporalOperator)):
        v = conj(o.tag() == 'B' for o in ops)
        if isinstance(f, cpt.TemporalOperator): v = conj([v, bool(P.SymBool(And(P.term(f.interval.lb) <= P.term(f.interval.ub))))])
        return v, 'B', {}
    if isinstance(f, cpt.SetAggregation):
        s, body = ops[0], ops[-1]; v = [isinstance(s.tag(), tuple) and s.tag()[0] == 'arr', body.tag() == 'B', f.bound_var.symbol not in ctx.signals and not any(f.bound_var.symbol in m for m in ENUMS.values())]
        if len(ops) == 3:
            n = ops[1].tag(); v += [bz, True if n == 'I' else None if n == 'B' or isinstance(n, tuple) and n[0] in ('enum', 'mem') else False]
        return conj(v), 'B', {}
    o = f.operator
    if o in LOGIC: return conj(x.tag() == 'B' for x in ops), 'B', {}
    if o in BITS:
        t = ops[0].tag(); v = [bz, conj(x.tag() == t for x in ops)]
        v.append(True if t == 'I' else None if t == 'B' and o is not K.BITWISE_NEGATE or isinstance(t, tuple) and t[0] in ('enum', 'mem') else False)
        return conj(v), t, {}
    if o in (K.MIN, K.MAX): return conj(x.tag() == 'I' for x in ops), 'I', {}
    if o in ARITH:
        t = ops[0].tag(); v = [bz, conj(x.tag() == t for x in ops)]
        v.append(True if t in ('I', 'F') else None if t == 'B' or isinstance(t, tuple) and t[0] in ('enum', 'mem') else False)
        if o in (K.ARITHMETIC_DIVIDE, K.ARITHMETIC_MODULO) and conj(v) is not False:
            c = is_a(ops[1], cpt.Constant)
            if not c: v.append(None)
            elif bool(P.SymBool(P.term(ops[1].value) == 0)): v.append(False if o is K.ARITHMETIC_DIVIDE else None)
        if o is K.ARITHMETIC_SQRT and t != 'F': v.append(False if t == 'I' else None)
        if o is K.ARITHMETIC_POWER and conj(v) is not False and t == 'I':
            if is_a(ops[1], cpt.Constant): v.append(not bool(P.SymBool(P.term(ops[1].value) < 0)))
            elif not T.IntType.is_signed or is_a(ops[1], cpt.CurrentTimestamp): v.append(None)
            else: v.append(False)
        return conj(v), t, {}
    if o in RELS:
        v, ret = agree(*ops); t = ops[0].tag()
        if v and (t[0] == 'st' if isinstance(t, tuple) else False): v = False
        if v and isinstance(t, tuple) and t[0] == 'arr' and (o not in (K.EQUAL, K.NOT_EQUAL) and t[1] != 'I' or isinstance(t[1], tuple)): v = None
        if v and o not in (K.EQUAL, K.NOT_EQUAL) and (t == 'B' or isinstance(t, tuple) and t[0] in ('enum', 'mem')): v = None
        if not bz: v = conj([v, None if o in (K.EQUAL, K.NOT_EQUAL) else False])
        return v, 'B', ret
    if o is K.PREVIOUS:
        v, ret = agree(*ops); init = ops[0]; ti, tp = init.tag(), ops[1].tag()
        if 0 in ret: pass                       # an enumeration member is a constant
        elif v is False: pass
        elif isinstance(ti, tuple): v = False if ti[0] == 'enum' else None if ti[0] == 'mem' else False
        elif is_a(init, cpt.Constant): pass
        elif is_a(init, cpt.Variable) and init.symbol == 'dk': v = conj([v, None])
        else: v = False if not (is_a(init, cpt.Variable) and init.symbol == 'dk') else v
        if any(RAW(x, '__dict__').get('_op') is K.PREVIOUS for x in ops): v = conj([v, None])
        return (conj([v, None]) if not bz else v), tp, ret
    raise P.Reach(str(o))
def build(kind):
    """the node under check and its operands"""
    what, op, n = kind[0], kind[1], kind[2]
    many = n == 'many'; ops = [Stub(f's{i}', many=many and i == 2) for i in range(3 if many else n)]
    sz = lambda nm: P.SymInt(Int(nm))
    if what == 'op':
        f = cpt.Operator.__new__(cpt.Operator); f.__dict__.update(cpt.Constant(LOC, True).__dict__); f.operator = op; f.symbol = op.value; f.children = list(ops)
    elif what == 'temp':
        f = cpt.TemporalOperator.__new__(cpt.TemporalOperator); f.__dict__.update(cpt.Constant(LOC, True).__dict__); f.operator = op; f.symbol = op.value; f.children = list(ops); f.interval = cpt.ConcreteInterval(sz('lb'), sz('ub')); P.R.assume(Int('lb') >= 0); P.R.assume(Int('ub') >= 0)
    elif what == 'agg':
        f = cpt.SetAggregation(LOC, op, cpt.Variable(LOC, kind[3]), ops[0], ops[1] if len(ops) == 3 else None, ops[-1])
    f.type = T.NoType()
    return f, ops
def say(res, nm, ok, why=None): res.append((nm, 'proved' if ok else 'refuted', 0.0, None if ok else str(why)))
def nodejob(kind, bz, signed=True):
    un = patched(); res = []; n = 0; t0 = time.time(); tag = f"type_check_expr {kind[0]} {kind[1].name} {' '.join(map(str, kind[2:]))}{'' if bz else ', no booleanizer'}{'' if signed else ', unsigned'}"; T.IntType.is_signed = signed
    try:
        def body(R):
            ctx = context(bz); ctx.set_future_time() if R.choose([None, None]) == 0 else ctx.set_past_time()
            if kind[0] == 'agg': ctx.signals['sig'] = T.BoolType()
            f, ops = build(kind)
            ok = TC.type_check_expr(f, ctx, {})
            v, t, ret = rule(f, ops, ctx)
            return ok, v, t, ret, f, ops, ctx
        for R, out in P.explore(body, 60000, 300):
            n += 1
            if isinstance(out, (TypeError, AttributeError)): raise P.Reach(f'{type(out).__name__}: {out}')
            if isinstance(out, Exception): say(res, f'{tag}: completes', False, f'{type(out).__name__}: {out}'); continue
            ok, v, t, ret, f, ops, ctx = out; w = [RAW(o, '__dict__').get('_tag') for o in ops]
            if v is False: say(res, f'{tag}: ill-typed operands are rejected', not ok, w)
            if v is True: say(res, f'{tag}: well-typed operands are accepted', bool(ok), w)
            if ok:
                say(res, f'{tag}: type of the result', tagof(f.type) == (t if 0 not in ret and 1 not in ret or t == 'B' else t), f'{w} gives {tagof(f.type)}')
                for i, o in enumerate(ops):
                    d = RAW(o, '__dict__')
                    if d['_type'] is not None: say(res, f'{tag}: type of operand {i} afterwards', tagof(d['_type']) == ret.get(i, d['_tag']) , f"{d['_tag']} becomes {tagof(d['_type'])}")
    finally: un()
    return dict(tag=tag, res=res, paths=n, fns={'c2po.type_check.type_check_expr': len(res)}, wall=time.time()-t0)
# ------------------------------------------------------------------ leaves and sugar
def leafjob(case, bz=True):
    un = patched(); res = []; n = 0; t0 = time.time(); tag = f"type_check_expr {case}{'' if bz else ', no booleanizer'}"
    try:
        def body(R):
            ctx = context(bz); a = Stub('a'); b = Stub('b'); v = t = None; extra = []; m = lambda l: l[R.choose([None] * len(l))]
            if case == 'constant':
                T.IntType.width = m([8, 16, 32, 64]); T.IntType.is_signed = m([True, False]); w = T.IntType.width - (1 if T.IntType.is_signed else 0)
                x = Int('value'); f = cpt.Constant(LOC, True); f.value = Val(x); f.type = T.IntType(True); t = 'I'
                ok = TC.type_check_expr(f, ctx, {}); R.sat(BoolVal(True))
                v = True if bool(P.SymBool(And(x < 2**w, x > -2**w))) else None if bool(P.SymBool(x == -2**w)) else False
                return ok, v, t, f, extra
            if case == 'boolean constant': f = cpt.Constant(LOC, m([True, False])); v, t = True, 'B'
            elif case == 'float constant': f = cpt.Constant(LOC, 1.5); v, t = True, 'F'
            elif case == 'timestamp': f = cpt.CurrentTimestamp(LOC); v, t = True, 'I'
            elif case == 'atomic': f = cpt.Atomic.__new__(cpt.Atomic); f.__dict__.update(cpt.Constant(LOC, True).__dict__); f.children = [a]; v, t = True, 'B'
            elif case == 'mission time': f = cpt.MissionTime(LOC); v, t = True, 'I'
            elif case == 'signal':
                t = m(['B', 'I', 'F', ('enum', 'E')]); f = cpt.Signal(LOC, 's', T.NoType()); ctx.signals['s'] = mk(t); mapped = m([True, False]); sid = m([-1, 4])
                f.signal_id = sid
                if mapped: ctx.signal_mapping['s'] = 9
                v = True if bz or t == 'B' else False
                extra.append(('column of the signal', lambda: f.signal_id == (9 if mapped and sid == -1 else sid)))
                extra.append(('engine of the signal', lambda: (f.engine is T.R2U2Engine.BOOLEANIZER) == bz))
            elif case == 'variable':
                f = cpt.Variable(LOC, 'x'); f.type = T.NoType(); A = lambda nm: m([False, True])
                inb = A('bound')
                if inb: ctx.bound_vars['x'] = a
                d = A('def')
                if d: ctx.definitions['x'] = b
                s = A('spec'); c_ = A('con'); st = A('struct'); en = A('enum'); me = A('member')
                if s: ctx.specifications['x'] = cpt.Formula(LOC, 'x', 0, Stub('e', ['B']))
                if c_: ctx.contracts['x'] = cpt.Contract(LOC, 'x', 0, 1, 2, Stub('e', ['B']), Stub('g', ['B']))
                if st: ctx.structs['x'] = {}
                if en: ctx.enums['x'] = {}
                if me: ctx.enums['E'] = dict(ctx.enums['E'], x=cpt.Constant(LOC, 5))
                if sum([d, s, c_, st, en, me]) > 1: raise P.Infeasible          # names are declared once
                ok = TC.type_check_expr(f, ctx, {})
                if inb: ar = a.tag(); v = isinstance(ar, tuple) and ar[0] == 'arr'; t = ar[1] if v else None
                elif d: v, t = True, b.tag()
                elif s: v, t = True, 'B'
                elif me: v, t = True, ('mem', 'x')
                else: v = False
                return ok, v, t, f, extra
            elif case.startswith('array of '):
                k = case[9:]; es = [Stub(f's{i}', many=i == 2 and k == 'many') for i in range(3 if k == 'many' else int(k))]
                f = cpt.ArrayExpression.__new__(cpt.ArrayExpression); f.__dict__.update(cpt.Constant(LOC, True).__dict__); f.type = T.NoType()
                kids = P.Kids(es); kids.many = k == 'many'; f.children = kids
                un2 = P.patch(TC, len=P.symlen)
                try: ok = TC.type_check_expr(f, ctx, {})
                finally: un2()
                ts = [e.tag() for e in es]
                v = False if any(x != ts[0] for x in ts) else True if not isinstance(ts[0], tuple) and ts[0] in ('B', 'I', 'F') or ts[0] == ('st', 'Q') else None
                t = ('arr', ts[0])
                extra.append(('size of the array', lambda: bool(P.SymBool(P.term(f.type.size) == (P.term(kids.length()) if kids.many else len(es))))))
                return ok, v, t, f, extra
            elif case == 'slice':
                i, j = Int('start'), Int('stop'); f = cpt.ArraySlice(LOC, a, P.SymInt(i), P.SymInt(j)); f.type = T.NoType()
                ok = TC.type_check_expr(f, ctx, {}); ar = a.tag()
                if not (isinstance(ar, tuple) and ar[0] == 'arr'): v = False
                else:
                    z = RAW(a, '__dict__')['size']; t = ar
                    v = False if bool(P.SymBool(Or(i < 0, j < i, And(z >= 0, j >= z)))) else True
                    extra.append(('size of the slice', lambda: bool(P.SymBool(P.term(f.type.size) == j - i + 1))))
                    extra.append(('bounds of the slice are kept', lambda: R.valid(And(P.term(f.start) == i, P.term(f.stop) == j))))
                return ok, v, t, f, extra
            elif case == 'index':
                i = Int('index'); isvar = m([True, False])
                a = Stub('a', shapes=[cpt.Variable] if isvar else [c for c in SHAPES if c is not cpt.Variable])
                f = cpt.ArrayIndex(LOC, a, P.SymInt(i)); f.type = T.NoType()
                ctx.signals = {'w': T.ArrayType(T.IntType(), size=3)}
                if m([True, False]): ctx.signals['expr'] = T.BoolType()         # the element, when the array is a signal
                before = dict(ctx.signals)
                ok = TC.type_check_expr(f, ctx, {}); ar = a.tag()
                if not (isinstance(ar, tuple) and ar[0] == 'arr'): v = False
                else:
                    z = RAW(a, '__dict__')['size']; t = ar[1]
                    v = False if bool(P.SymBool(Or(i < 0, And(z >= 0, i >= z)))) else True
                    extra.append(('the index is kept', lambda: R.valid(P.term(f.index) == i)))
                extra.append(('the declared signals are kept', lambda: list(ctx.signals) == list(before) and all(ctx.signals[k] is before[k] for k in before)))
                return ok, v, t, f, extra
            elif case == 'struct access':
                mem = m(['m0', 'm1', 'zz']); f = cpt.StructAccess(LOC, a, mem); f.type = T.NoType()
                ok = TC.type_check_expr(f, ctx, {}); st = a.tag()
                mm = dict((f'm{i}', x) for i, x in enumerate(STRUCTS[st[1]])) if isinstance(st, tuple) and st[0] == 'st' else {}
                v = mem in mm; t = mm.get(mem)
                return ok, v, t, f, extra
            elif case.startswith('struct '):
                k = int(case[-1]); es = [Stub(f's{i}', ['B', 'I', 'F', ('st', 'Q')]) for i in range(k)]; name = m(['Q', 'Q2', 'R'])
                f = cpt.FunctionCall(LOC, name, es) if case.startswith('struct call') else cpt.Struct(LOC, name, {f'm{i}': i for i in range(k)}, es); f.type = T.NoType()
                ok = TC.type_check_expr(f, ctx, {}); want = STRUCTS.get(name)
                v = want is not None and tuple(e.tag() for e in es) == want; t = ('st', name)
                return ok, v, t, f, extra
            elif case in ('formula', 'contract'):
                tense = m([True, False]); old = TC.check_tense; TC.check_tense = lambda s, c: tense
                try:
                    f = cpt.Formula(LOC, 'lab', 3, a) if case == 'formula' else cpt.Contract(LOC, 'lab', 0, 1, 2, a, b); f.type = T.NoType()
                    ok = TC.type_check_expr(f, ctx, {})
                finally: TC.check_tense = old
                v = conj([a.tag() == 'B', tense] + ([b.tag() == 'B'] if case == 'contract' else [])); t = 'B' if case == 'formula' else 'C'
                if ok: extra.append(('the label names the specification', lambda: (ctx.specifications if case == 'formula' else ctx.contracts).get('lab') is f))
                return ok, v, t, f, extra
            elif case == 'other node': f = cpt.Expression(LOC, [a]); v = False
            ok = TC.type_check_expr(f, ctx, {})
            return ok, v, t, f, extra
        for R, out in P.explore(body, 60000, 300):
            n += 1
            if isinstance(out, AttributeError) and 'check_tense' in str(out): raise P.Reach(str(out))
            if isinstance(out, (TypeError, AttributeError)): raise P.Reach(f'{type(out).__name__}: {out}')
            if isinstance(out, Exception): say(res, f'{tag}: completes', False, f'{type(out).__name__}: {out}'); continue
            ok, v, t, f, extra = out
            if v is False: say(res, f'{tag}: ill-typed is rejected', not ok, f'{getattr(f, "symbol", "")}')
            if v is True: say(res, f'{tag}: well-typed is accepted', bool(ok))
            if ok and t is not None: say(res, f'{tag}: type of the result', tagof(f.type) == t, f'{tagof(f.type)} instead of {t}')
            if ok or case == 'index':
                for nm, g in extra: say(res, f'{tag}: {nm}', g())
    finally: un()
    return dict(tag=tag, res=res, paths=n, fns={'c2po.type_check.type_check_expr': len(res)}, wall=time.time()-t0)
# ------------------------------------------------------------------ future time and past time
def tensejob(past):
    un = patched(); res = []; n = 0; t0 = time.time(); tag = f"check_tense, {'PTSPEC' if past else 'FTSPEC'}"
    if not hasattr(TC, 'find_operator'): un(); raise P.Reach('find_operator')
    real = TC.find_operator
    try:
        def body(R):
            m = lambda l: l[R.choose([None] * len(l))]
            ctx = context(); ctx.set_past_time() if past else ctx.set_future_time(); used = []
            kinds = ['ft', 'pt', 'other', 'definition', 'label', 'name', 'bound']
            xs = []
            for i in range(3):
                k = m(kinds if i < 2 else kinds[:-1]); used.append(k)
                if k in ('ft', 'pt'): x = cpt.TemporalOperator.__new__(cpt.TemporalOperator); x.__dict__.update(cpt.Constant(LOC, True).__dict__); x.operator = m(FT if k == 'ft' else PT); x.symbol = x.operator.value; x.children = []
                elif k == 'other': x = cpt.Operator.LogicalAnd(LOC, [cpt.Constant(LOC, True), cpt.Constant(LOC, True)])
                else: x = cpt.Variable(LOC, f'{k}{i}')
                if k == 'definition': ctx.definitions[x.symbol] = cpt.Constant(LOC, True)
                if k == 'label': ctx.specifications[x.symbol] = cpt.Formula(LOC, x.symbol, 0, cpt.Constant(LOC, True))
                if k == 'bound': ctx.definitions[x.symbol] = cpt.Constant(LOC, True); xs.append(cpt.SetAggregation(LOC, AG.FOR_EACH, cpt.Variable(LOC, x.symbol), cpt.ArrayExpression(LOC, [cpt.Constant(LOC, True)]), None, cpt.Constant(LOC, True)))
                xs.append(x)
            spec = cpt.Formula(LOC, 'phi', 0, cpt.Constant(LOC, True)); spec.get_descendants = lambda: list(xs)
            inner = {}
            def rec(e, is_kind, c):
                if e is spec: return real(e, is_kind, c)
                probe = {k: is_kind(o) for k, o in (('ft', FTOP), ('pt', PTOP))}
                if id(e) not in inner: inner[id(e)] = m([None, FTOP if probe['ft'] else PTOP])
                return inner[id(e)]
            TC.find_operator = rec
            ok = TC.check_tense(spec, ctx)
            refs = [ctx.definitions.get(x.symbol, ctx.specifications.get(x.symbol)) for x, k in zip([y for y in xs if not isinstance(y, cpt.SetAggregation)], used) if k in ('definition', 'label')]
            bad = ('ft' if past else 'pt') in used
            hit = any(inner.get(id(r)) is not None for r in refs)
            seen = all(id(r) in inner for r in refs)
            return ok, bad, hit, seen, used
        for R, out in P.explore(body, 60000, 300):
            n += 1
            if isinstance(out, (TypeError, AttributeError)): raise P.Reach(f'{type(out).__name__}: {out}')
            if isinstance(out, Exception): say(res, f'{tag}: completes', False, f'{type(out).__name__}: {out}'); continue
            ok, bad, hit, seen, used = out
            say(res, f'{tag}: accepted exactly if no operator of the other tense occurs, names included', bool(ok) == (not bad and not hit) and (not ok or seen), used)
    finally: TC.find_operator = real; un()
    return dict(tag=tag, res=res, paths=n, fns={'c2po.type_check.check_tense': len(res), 'c2po.type_check.find_operator': 0}, wall=time.time()-t0)
FTOP = cpt.TemporalOperator.Future(LOC, 0, 1, cpt.Constant(LOC, True)); PTOP = cpt.TemporalOperator.Once(LOC, 0, 1, cpt.Constant(LOC, True))
# ------------------------------------------------------------------ sections (bounded)
def secjob():
    """every pair of declarations, with equal and with different names, in one section where they can be, in two sections, and with sections between;
    the status with a bad item in any place"""
    res = []; t0 = time.time(); n = 0; old = TC.log; TC.log = QUIET; L = LOC
    sig = lambda: cpt.Signal(L, 's0', T.BoolType())
    D = {'signal': (cpt.InputSection, lambda x: cpt.VariableDeclaration(L, [x], T.BoolType())), 'definition': (cpt.DefineSection, lambda x: cpt.Definition(L, x, sig())), 'struct': (cpt.StructSection, lambda x: cpt.StructDefinition(L, x, [cpt.VariableDeclaration(L, ['mm'], T.BoolType())])),
         'enum': (cpt.EnumSection, lambda x: cpt.EnumDefinition(L, x, [cpt.Definition(L, 'M' + x, cpt.Constant(L, 1))])), 'future label': (cpt.FutureTimeSpecSection, lambda x: cpt.Formula(L, x, 0, sig())), 'past label': (cpt.PastTimeSpecSection, lambda x: cpt.Formula(L, x, 0, sig())), 'contract': (cpt.FutureTimeSpecSection, lambda x: cpt.Contract(L, x, 0, 1, 2, sig(), sig()))}
    bad = {'definition': lambda: cpt.Definition(L, 'bb', cpt.Variable(L, 'undeclared')), 'future label': lambda: cpt.Formula(L, 'bb', 0, cpt.Variable(L, 'undeclared')), 'past label': lambda: cpt.Formula(L, 'bb', 0, cpt.Variable(L, 'undeclared'))}
    def run(secs):
        ctx = cpt.Context(); ctx.enable_booleanizer = True
        secs = [cpt.InputSection(L, [cpt.VariableDeclaration(L, ['s0'], T.BoolType())])] + secs
        p = cpt.Program(L, secs); p.is_well_typed = None
        rc = TC.type_check(p, ctx, {}); return rc is command.ReturnCode.SUCCESS, p.is_well_typed
    try:
        for a, (sa, ma) in D.items():
            for b, (sb, mb) in D.items():
                for same in (False, True):
                    for shape in ('two', 'between', 'one'):
                        if shape == 'one' and sa is not sb: continue
                        x, y = 'na', 'na' if same else 'nb'
                        secs = [sa(L, [ma(x), mb(y)])] if shape == 'one' else [sa(L, [ma(x)]), sb(L, [mb(y)])] if shape == 'two' else [sa(L, [ma(x)]), cpt.DefineSection(L, [cpt.Definition(L, 'other', sig())]), cpt.FutureTimeSpecSection(L, [cpt.Formula(L, 'ph', 0, sig())]), sb(L, [mb(y)])]
                        n += 1
                        try: got = run(secs)
                        except Exception as e: got = repr(e)
                        say(res, f'{a} and {b}, {"equal" if same else "different"} names, {shape}: {"rejected" if same else "accepted"}', got == (not same, not same), got)
        for k, mk_ in bad.items():
            s, good = D[k]
            for i in range(3):
                items = [good(f'n{j}') for j in range(3)]; items[i] = mk_()
                for place in range(3):
                    secs = [D['definition'][0](L, [D['definition'][1](f'd{j}')]) for j in range(2)]; secs.insert(place, s(L, items)); n += 1
                    say(res, f'a bad {k}, item {i} of section {place}: rejected', run(secs) == (False, False))
        for case in ('undeclared before use', 'definition of a definition'):
            a = cpt.Definition(L, 'd1', sig()); b = cpt.Definition(L, 'd2', cpt.Variable(L, 'd1'))
            got = run([cpt.DefineSection(L, [b, a] if case[0] == 'u' else [a, b])]); n += 1
            say(res, f'{case}', got == ((False, False) if case[0] == 'u' else (True, True)), got)
    finally: TC.log = old
    return dict(tag='sections', res=[], bres=[('sections: ' + r[0],) + r[1:] for r in res], paths=n, fns={'c2po.type_check.type_check': 0, 'c2po.type_check.type_check_section': 0}, wall=time.time()-t0)
KINDS = [('op', o, n) for o in LOGIC for n in ((1,) if o is K.LOGICAL_NEGATE else (2, 3, 'many') if o in (K.LOGICAL_AND, K.LOGICAL_OR) else (2,))]
KINDS += [('op', o, 1 if o is K.BITWISE_NEGATE else 2) for o in BITS] + [('op', o, n) for o in ARITH for n in ((1,) if o in (K.ARITHMETIC_SQRT, K.ARITHMETIC_ABS) else (1, 2) if o is K.ARITHMETIC_SUBTRACT else (2, 3) if o in (K.ARITHMETIC_ADD, K.ARITHMETIC_MULTIPLY) else (2,))]
KINDS += [('op', o, 2) for o in RELS + [K.PREVIOUS]] + [('op', o, n) for o in (K.MIN, K.MAX) for n in (2,)]
KINDS += [('temp', o, 1 if o in (K.GLOBAL, K.FUTURE, K.HISTORICAL, K.ONCE) else 2) for o in FT + PT]
KINDS += [('agg', o, 2 if o in (AG.FOR_EACH, AG.FOR_SOME) else 3, s) for o in AG for s in ('x', 'sig', 'A1')]
LEAVES = ['constant', 'boolean constant', 'float constant', 'timestamp', 'atomic', 'mission time', 'signal', 'variable', 'array of 1', 'array of 2', 'array of 3', 'array of many', 'slice', 'index', 'struct access', 'formula', 'contract', 'other node'] + [f'struct {w} {k}' for w in ('call', 'value') for k in range(4)]
def jobs(prop, tier):
    js = [('ptype', ('n', k, bz, True)) for k in KINDS for bz in (True, False)] + [('ptype', ('n', ('op', K.ARITHMETIC_POWER, 2), True, False))]
    js += [('ptype', ('l', c, True)) for c in LEAVES] + [('ptype', ('l', c, False)) for c in ('signal', 'index', 'variable', 'formula')] + [('ptype', ('t', p)) for p in (True, False)] + [('ptype', ('s',))]
    return js
def job(a):
    t0 = time.time()
    try: r = job1(a)
    except (P.Reach, P.Timeout) as e: return dict(tag=str(a), res=[], paths=0, covers={}, wall=time.time()-t0, err=f'{type(e).__name__}: {e}', fns={})
    r.update(covers={}, err=None); return r
def job1(a):
    return nodejob(*a[1:]) if a[0] == 'n' else leafjob(*a[1:]) if a[0] == 'l' else tensejob(a[1]) if a[0] == 't' else secjob()
if __name__ == '__main__':
    import multiprocessing as mp, sys
    t = time.time(); tot = bd = 0; seen = set()
    with mp.Pool(8) as p: rs = p.map(job, [a for m, a in jobs('C08', 'quick') if len(sys.argv) < 2 or sys.argv[1] in str(a)], chunksize=1)
    print(sorted(((round(r['wall'], 1), r['tag']) for r in rs))[-5:])
    for r in rs:
        tot += len(r['res']); bd += len(r.get('bres', []))
        for x in r['res'] + r.get('bres', []):
            if x[1] != 'proved' and (x[0], x[3]) not in seen: seen.add((x[0], x[3])); print(x[0], '|', x[1], x[3])
    print(tot, bd, len(seen), time.time() - t)
