"""C05: the desugaring passes under contract, one visited node at a time (the real functions of desugar.py and cpt.py run on symbolic nodes).
agg      unroll_set_aggregation: every operator, sets of one, two, three and of any larger number of members, any body and count.  cpt.rename
         is under contract: rename(x, e, body) is the instance body[x:=e]; the value of an aggregate is that of its instances
copy     cpt.rename / cpt.deepcopy_expr against that contract, for a node of every kind (operands: copies, by induction)
defs     expand_definitions: a variable is replaced by its definition (aliases included) or labelled formula, unless it is bound
contract resolve_contracts: the three formulas, their numbers and their place
access   struct and array accesses (any index into an array of any size), array comparisons (arrays of any size), function calls, enumerations"""
import time, itertools, builtins
from z3 import *
import psym as P, psem as S
from psym import cpt, K, RAW, LOC
from c2po import desugar as D, command, types as T
from pdel import prove
AG = cpt.SetAggregationKind
# ------------------------------------------------------------------ arrays of any size
class Elems(list):
    """operands 0..n-1 of an array of any size n >= 1"""
    def __init__(self, name, n, sort): super().__init__(); self.name, self.n, self.sort, self.h = name, n, sort, {}
    def symlength(self): return P.SymInt(self.n)
    def _at(self, i, many=False):
        k = simplify(P.term(i)).sexpr()
        if k not in self.h: self.h[k] = P.hole(self.sort, f'{self.name}[{k}]', many)
        return self.h[k]
    def __getitem__(self, i):
        if isinstance(i, slice): raise P.Reach('slice of an array of any size')
        if bool(P.SymBool(And(P.term(i) >= 0, P.term(i) < self.n))): return self._at(i, getattr(i, 'generic', False))
        if bool(P.SymBool(And(P.term(i) < 0, P.term(i) >= -self.n))): return self._at(P.SymInt(self.n + P.term(i)))
        raise IndexError('list index out of range')
    def __iter__(self): return iter([self[i] for i in anyrange(P.SymInt(self.n))])
    def __len__(self): raise P.Reach('length')
    def __bool__(self): return True
class Gen(P.SymInt): generic = True
def anyrange(*a):
    """range(n) of a symbolic n >= 1: 0, 1 and one index that stands for each further one"""
    if not any(isinstance(x, P.SymInt) for x in a): return builtins.range(*a)
    if len(a) == 2 and not isinstance(a[0], P.SymInt) and a[0] == 0: a = a[1:]
    if len(a) != 1: raise P.Reach('range')
    n = P.term(a[0])
    if bool(P.SymBool(n <= 0)): return []
    if bool(P.SymBool(n == 1)): return [0]
    if bool(P.SymBool(n == 2)): return [0, 1]
    i = Int(P.R.fresh('each')); P.R.assume(And(i >= 2, i < n)); g = Gen(i)
    return [0, 1, g]
def patched(extra=()):
    un = [P.patch_all(D), P.patch(D, range=anyrange), P.patch(cpt, range=anyrange, postorder=P.postorder)]
    return lambda: [u() for u in reversed(un)]
class Prog(P.Program):
    """the visited node; a traversal in operand-first order also reaches what has replaced it"""
    def __init__(self, focal, ps, pre=None): super().__init__(focal); self.ps, self.pre, self.n = ps, pre, 0
    def postorder(self, ctx=None): return iter(self.nodes())
    def preorder(self, ctx=None): return iter([self.focal])
    def nodes(self): return [x for x in P.postorder(self.ps) if not any(x is p for p in self.ps)]
    postorder_with_definitions = postorder
def var(s, t='B'):
    v = cpt.Variable(LOC, s); v.type = P.TYPE[t]() if isinstance(t, str) else t; reg(v); return v
def reg(n): P.R.init[id(n)] = P.snap(n); P.R.nodes.append(n); return n
def parents(f, sort='B'):
    """the node is an operand of two parents, twice of one, and the formula itself"""
    h = [P.hole(sort, f'c{i}') for i in range(2)]
    ps = [cpt.Operator.LogicalAnd(LOC, [f, h[0], f]), cpt.Operator.LogicalIff(LOC, h[1], f), cpt.Formula(LOC, 'phi', 7, f)]
    return [reg(p) for p in ps]
def places(ps, focal):
    """what the parents hold in the places of focal; None if another operand changed"""
    out = []
    for p in ps:
        a, b = P.R.init[id(p)]['children'], P.snap(p)['children']
        if len(a) != len(b): return None
        for x, y in zip(a, b):
            if x is focal: out.append(y)
            elif x is not y: return None
    return out
def linked(ps, x):
    """parent links of x to the parents that hold it"""
    return all(p in RAW(x, '__dict__')['parents'] for p in ps)
# ------------------------------------------------------------------ aggregates
INST = {}
def value(n, env, depth=0):
    """value of the tree n (as it is) over the instances: Boolean or integer term"""
    n = P.rep(n); d = RAW(n, '__dict__')
    if depth > 30: raise S.Bad('endless')
    if P.is_hole(n):
        k = d['name']
        if d['sort'] == 'B': return env.setdefault(k, {'b': Bool(k), 'many': d['many'], 'all': Bool(k + '_all'), 'any': Bool(k + '_any'), 'sum': Int(k + '_sum'), 'n': Int(k + '_n')})
        return Int(k)
    ch = [value(c, env, depth+1) for c in list.__iter__(d['children'])]
    one = lambda x: x if not isinstance(x, dict) else (x['b'] if not x['many'] else bad())
    def bad(): raise S.Bad('one of many operands on its own')
    num = lambda x: If(one(x), 1, 0) if isinstance(x, dict) or is_bool(x) else x
    if isinstance(n, cpt.Constant): return BoolVal(d['value']) if isinstance(d['value'], bool) else P.term(d['value'])
    if isinstance(n, cpt.Variable): raise S.Bad(f'{d["symbol"]} is left')
    if not isinstance(n, cpt.Operator): raise S.Bad(f'{type(n).__name__} is left')
    o = n.operator
    if o is K.LOGICAL_AND: return And([(x['all'] if isinstance(x, dict) and x['many'] else one(x)) for x in ch])
    if o is K.LOGICAL_OR: return Or([(x['any'] if isinstance(x, dict) and x['many'] else one(x)) for x in ch])
    if o is K.ARITHMETIC_ADD: return Sum([(x['sum'] if isinstance(x, dict) and x['many'] else num(x)) for x in ch])
    if o is K.LOGICAL_NEGATE: return Not(one(ch[0]))
    if o is K.LOGICAL_IMPLIES: return Implies(one(ch[0]), one(ch[1]))
    R = {K.EQUAL: lambda a, b: a == b, K.NOT_EQUAL: lambda a, b: a != b, K.GREATER_THAN_OR_EQUAL: lambda a, b: a >= b, K.LESS_THAN_OR_EQUAL: lambda a, b: a <= b, K.GREATER_THAN: lambda a, b: a > b, K.LESS_THAN: lambda a, b: a < b}
    if o in R: return R[o](num(ch[0]), num(ch[1]))
    if o is K.ARITHMETIC_SUBTRACT: return num(ch[0]) - num(ch[1])
    raise P.Reach(f'value of {o.name}')
def axioms(env):
    out = []
    for x in env.values():
        if x['many']: out += [x['n'] >= 1, x['sum'] >= 0, x['sum'] <= x['n'], x['all'] == (x['sum'] == x['n']), x['any'] == (x['sum'] > 0)]
    return out
def aggjob(op, size):
    un = patched(); res = []; n = 0; tag = f'unroll_set_aggregation {op.value}, set of {size}'
    def ren(target, repl, expr, ctx=None):
        """contract of cpt.rename (job copy): the instance of expr for target := repl"""
        if type(expr) is P.Hole and isinstance(target, cpt.Variable) and type(repl) is P.Hole:
            nm = f"{RAW(expr, '__dict__')['name']}[{target.symbol}:={RAW(repl, '__dict__')['name']}]"
            return P.hole(P.sort_of(expr), nm, RAW(repl, '__dict__')['many'])
        raise P.Reach('rename')
    un2 = P.patch(cpt, rename=ren); t0 = time.time()
    try:
        def body(R):
            ms = [P.hole('B', f'm{i}', i == 2 and size == 'many') for i in range(3 if size == 'many' else size)]
            kids = P.Kids(ms); kids.many = size == 'many'
            arr = cpt.ArrayExpression(LOC, ms); arr.children = kids; reg(arr)
            v = cpt.Variable(LOC, 'x'); e = P.hole('B', 'body')
            num = P.hole('I', 'num') if op not in (AG.FOR_EACH, AG.FOR_SOME) else None
            RAW(e, '__dict__')['allow'] = [k for k in P.kinds('B')]
            f = cpt.SetAggregation(LOC, op, v, arr, num, e); reg(f); ps = parents(f)
            rc = D.unroll_set_aggregation(Prog(f, ps), cpt.Context(), {})
            return f, ps, ms, e, num, rc
        for R, out in P.explore(body, 4000, 100):
            n += 1
            if isinstance(out, Exception): res.append((f'{tag}: completes', 'refuted', 0.0, f'{type(out).__name__}: {out}')); continue
            f, ps, ms, e, num, rc = out
            if rc is not command.ReturnCode.SUCCESS: res.append((f'{tag}: succeeds', 'refuted', 0.0, str(rc)))
            got = places(ps, f)
            ok = got is not None and all(g is got[0] for g in got) and got[0] is not f
            res.append((f'{tag}: every place of the aggregate, and no other operand, gets the same replacement', 'proved' if ok else 'refuted', 0.0, None))
            if not ok: continue
            env = {}
            try:
                new = value(got[0], env); new = new['b'] if isinstance(new, dict) else new
                want = cpt.SetAggregation
                ins = [P.hole('B', f"body[x:={RAW(m, '__dict__')['name']}]", RAW(m, '__dict__')['many']) for m in ms]
                iv = [value(i, env) for i in ins]
                sm = Sum([x['sum'] if x['many'] else If(x['b'], 1, 0) for x in iv]); nn = Int('num')
                want = {AG.FOR_EACH: And([x['all'] if x['many'] else x['b'] for x in iv]), AG.FOR_SOME: Or([x['any'] if x['many'] else x['b'] for x in iv]), AG.FOR_EXACTLY: sm == nn, AG.FOR_AT_LEAST: sm >= nn, AG.FOR_AT_MOST: sm <= nn}[op]
                res.append(prove(f'{tag}: value of the aggregate', list(R.pc) + axioms(env), new == want))
                todo = [got[0]]; ar = True; links = linked(ps, got[0])
                while todo:
                    x = todo.pop()
                    if P.is_hole(x): continue
                    c = list(list.__iter__(RAW(x, '__dict__')['children'])); todo += c
                    links = links and all(x in RAW(y, '__dict__')['parents'] for y in c)
                    if isinstance(x, cpt.Operator) and x.operator in (K.LOGICAL_AND, K.LOGICAL_OR, K.ARITHMETIC_ADD) and len(c) < 2: ar = False
                    if isinstance(x, cpt.Operator) and x.symbol != x.operator.value: ar = False
                res.append((f'{tag}: n-ary operators have two operands at least, with their names', 'proved' if ar else 'refuted', 0.0, None))
                res.append((f'{tag}: parent links', 'proved' if links else 'refuted', 0.0, None))
                res.append((f'{tag}: type', 'proved' if T.is_bool_type(RAW(got[0], '__dict__')['type']) else 'refuted', 0.0, None))
            except S.Bad as x: res.append((f'{tag}: value of the aggregate', 'refuted', 0.0, str(x)))
    finally: un2(); un()
    return dict(tag=tag, res=res, paths=n, fns={'c2po.desugar.unroll_set_aggregation': len(res)}, wall=time.time()-t0)
# ------------------------------------------------------------------ copies and renaming
SUGAR = [('var', 'x'), ('var', 'y'), ('array', 3), ('array', 'many'), ('index',), ('struct',), ('access',), ('call',), ('agg', False), ('agg', True), ('mission',), ('symvar',), ('slice',), ('symtemp',), ('formula',), ('contract',), ('specs',)]
def focal(kind, sort):
    k = kind[0]; h = lambda n, s='B', m=False: P.hole(s, n, m)
    if k == 'var': f = cpt.Variable(LOC, kind[1])
    elif k == 'array':
        ms = [h(f'm{i}', 'B', i == 2 and kind[1] == 'many') for i in range(3)]
        f = cpt.ArrayExpression(LOC, ms)
        if kind[1] == 'many': f.children = P.Kids(ms); f.children.many = True
    elif k == 'index': f = cpt.ArrayIndex(LOC, h('arr'), P.SymInt(Int('idx')))
    elif k == 'struct': f = cpt.Struct(LOC, 'St', {'p': 0, 'q': 1}, [h('p'), h('q')])
    elif k == 'access': f = cpt.StructAccess(LOC, h('st'), 'q')
    elif k == 'call': f = cpt.FunctionCall(LOC, 'St', [h('p'), h('q')])
    elif k == 'agg': f = cpt.SetAggregation(LOC, AG.FOR_EXACTLY if kind[1] else AG.FOR_EACH, cpt.Variable(LOC, 'z'), h('set'), h('num', 'I') if kind[1] else None, h('body'))
    elif k == 'mission': f = cpt.MissionTime(LOC)
    elif k == 'symvar': f = cpt.SymbolicIntervalVariable(LOC, 'i0')
    elif k == 'slice': f = cpt.ArraySlice(LOC, h('arr'), P.SymInt(Int('start')), P.SymInt(Int('stop')))
    elif k == 'symtemp': f = cpt.SymbolicTemporalOperator(LOC, K.GLOBAL, h('lb', 'I'), h('ub', 'I'), [h('e')])
    elif k == 'specs': f = cpt.SpecificationSet(LOC, [h('s0'), h('s1')])
    elif k == 'formula': f = cpt.Formula(LOC, 'phi', P.SymInt(Int('fnum')), h('e'))
    elif k == 'contract': f = cpt.Contract(LOC, 'con', P.SymInt(Int('n0')), P.SymInt(Int('n1')), P.SymInt(Int('n2')), h('a'), h('g'))
    else:
        f = P.hole(sort, 'f'); P.make(f, kind)
        
        if k == 'signal': RAW(f, '__dict__')['signal_id'] = P.SymInt(Int('sid'))
    d = RAW(f, '__dict__')
    if k not in ('var', 'mission', 'symvar', 'const', 'signal', 'tau'): pass
    d['engine'] = d.get('engine'); d['scq_size'], d['wpd'], d['bpd'] = P.SymInt(Int('scq')), P.SymInt(Int('wpd')), P.SymInt(Int('bpd')); d['scq'] = (P.SymInt(Int('s0')), P.SymInt(Int('s1')))
    if 'type' in d and isinstance(d['type'], T.NoType): d['type'] = T.BoolType()
    return f
FIELDS = ('operator', 'interval', 'value', 'symbol', 'members', 'member', 'index', 'signal_id', 'engine', 'type', 'scq_size', 'wpd', 'bpd', 'scq', 'formula_number', 'formula_numbers', 'start', 'stop')
class Memo(dict):
    """memo of deepcopy_expr: copies of everything already visited"""
    def __init__(self, reg): super().__init__(); self.reg = reg
    def __contains__(self, k): return dict.__contains__(self, k) or k in self.reg
    def __getitem__(self, k):
        if not dict.__contains__(self, k):
            if k not in self.reg: raise KeyError(k)
            h = self.reg[k]; c = P.hole(P.sort_of(h), 'copy of ' + RAW(h, '__dict__')['name'], RAW(h, '__dict__')['many']); RAW(c, '__dict__')['copy'] = h
            dict.__setitem__(self, k, c)
        return dict.__getitem__(self, k)
def samefield(a, b):
    if P.is_hole(a): return P.is_hole(b) and RAW(b, '__dict__').get('copy') is a
    if isinstance(a, P.SymInt) or isinstance(b, P.SymInt):
        try: return P.R.valid(P.term(a) == P.term(b))
        except P.Reach: return False
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)): return len(a) == len(b) and all(samefield(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict): return list(a.items()) == list(b.items())
    if isinstance(a, T.Type): return type(a) is type(b) and a.symbol == b.symbol and a.is_const == b.is_const
    return a is b or a == b
def copyjob(kind, sort, how):
    un = [P.patch_all(D, printing=True), P.patch(cpt, postorder=P.postorder)]; res = []; n = 0; t0 = time.time()
    real = cpt.deepcopy_expr; tag = f"{'rename' if how == 'rename' else 'deepcopy_expr'} of {' '.join(map(str, kind))}:{sort}"
    un.append(P.patch(cpt, isinstance=P.symisinstance))
    try:
        def body(R):
            f = focal(kind, sort); reg_ = {id(c): c for c in list.__iter__(RAW(f, '__dict__')['children']) if P.is_hole(c)}
            if isinstance(f, cpt.SymbolicTemporalOperator): reg_ |= {id(x): x for x in f.interval}
            memo = Memo(reg_)
            cpt.deepcopy_expr = lambda s, c, m=None: real(s, c, memo)
            ctx = cpt.Context(); bz = kind[0] in ('atomic', 'signal')
            if bz: ctx.enable_booleanizer = kind[0] == 'atomic' or P.R.choose([None, None]) == 0; ctx.atomic_id_map = {f: 3}; ctx.atomic_expr_map = {3: f}
            before = {k: v for k, v in RAW(f, '__dict__').items() if k in FIELDS}
            kids = [c for c in list.__iter__(RAW(f, '__dict__')['children'])]
            if how == 'rename':
                e = P.hole('B', 'repl'); x = cpt.Variable(LOC, 'x')
                if isinstance(f, (cpt.Formula, cpt.Contract, cpt.SpecificationSet, cpt.SymbolicTemporalOperator)): raise P.Infeasible
                root = cpt.Operator.LogicalNegate(LOC, f) if P.R.choose([None, None]) == 0 else f
                out = cpt.rename(x, e, root, ctx)
                if root is not f:
                    if not (isinstance(out, cpt.Operator) and out.operator is K.LOGICAL_NEGATE and out is not root): return f, before, kids, e, None, ctx, memo
                    link = out in RAW(out.children[0], '__dict__')['parents']; out = out.children[0]
                    return f, before, kids, e, (out, link), ctx, memo
                return f, before, kids, e, (out, True), ctx, memo
            return f, before, kids, None, (cpt.deepcopy_expr(f, ctx, {}), True), ctx, memo
        for R, out in P.explore(body, 4000, 100):
            cpt.deepcopy_expr = real; n += 1
            if isinstance(out, Exception): res.append((f'{tag}: completes', 'refuted', 0.0, f'{type(out).__name__}: {out}')); continue
            f, before, kids, e, o, ctx, memo = out
            say = lambda nm, ok, why=None: res.append((f'{tag}: {nm}', 'proved' if ok else 'refuted', 0.0, None if ok else str(why)))
            if o is None: say('the copy has the shape of the expression', False); continue
            g, link = o; say('parent link to the copy', link)
            if how == 'rename' and kind == ('var', 'x'): say('the variable becomes what it stands for', g is e, P.text(g)); continue
            say('a new node of the same kind', g is not f and type(g) is type(f) and not P.is_hole(g))
            if P.is_hole(g) or type(g) is not type(f): continue
            d = RAW(g, '__dict__')
            for k, v in before.items():
                if k == 'wpd' or k == 'bpd' or k == 'scq' or k == 'scq_size': pass
                say(f'{k} is kept', k in d and samefield(v, d[k]), f'{v} becomes {d.get(k)}')
            nk = [c for c in list.__iter__(d['children'])]
            ok = len(nk) == len(kids)
            for a, b in zip(kids, nk):
                if isinstance(a, cpt.Bind): ok = ok and isinstance(b, cpt.Bind) and b.bound_var.symbol == a.bound_var.symbol and b is not a and b.bound_var is not a.bound_var
                else: ok = ok and RAW(b, '__dict__').get('copy') is a and any(p is g for p in RAW(b, '__dict__')['parents'])
            say('operands are the copies of the operands, in order, linked', ok, [P.text(c) for c in nk])
            if isinstance(f, cpt.SetAggregation): say('the bound variable is kept', g.bound_var.symbol == f.bound_var.symbol and g.bound_var is not f.bound_var)
            say('the original keeps its operands', [id(c) for c in list.__iter__(RAW(f, '__dict__')['children'])] == [id(c) for c in kids])
            if kind[0] == 'atomic' or kind[0] == 'signal' and not ctx.enable_booleanizer: say('the copy of an atomic has its number', ctx.atomic_id_map.get(g) == 3 and ctx.atomic_expr_map.get(3) is g and ctx.atomic_id_map.get(f, 3) == 3)
    finally:
        cpt.deepcopy_expr = real
        for u in reversed(un): u()
    return dict(tag=tag, res=res, paths=n, fns={'c2po.cpt.deepcopy_expr': len(res), 'c2po.cpt.rename': 0}, wall=time.time()-t0)
# ------------------------------------------------------------------ definitions
def defjob(case):
    un = patched(); res = []; n = 0; t0 = time.time(); tag = f'expand_definitions, {case}'
    try:
        def body(R):
            ctx = cpt.Context(); d = P.hole('B', 'D'); lab = P.hole('B', 'L'); fm = cpt.Formula(LOC, 'lab', 3, lab)
            dd = var('d'); ee = var('e')
            ctx.definitions = {'d': d}; ctx.specifications = {'lab': fm}
            sym = {'definition': 'd', 'label': 'lab', 'neither': 'y', 'bound, like a definition': 'd', 'bound, like a label': 'lab', 'alias': 'e', 'alias of an alias': 'g'}[case]
            if 'alias' in case: ctx.definitions['e'] = dd
            if case == 'alias of an alias': ctx.definitions['g'] = ee
            v = var(sym)
            if case.startswith('bound'):
                sets = P.hole('B', 'set')
                # contract of postorder: bound_vars holds the enclosing binders when a node is handed out
            ps = parents(v)
            class Q(Prog):
                def nodes(self): return [v]
                def postorder(self, c=None):
                    if case.startswith('bound'): ctx.bound_vars[sym] = sets
                    yield v
                    ctx.bound_vars.clear()
            rc = D.expand_definitions(Q(v, ps), ctx, {})
            want = {'definition': d, 'label': lab, 'alias': d, 'alias of an alias': d}.get(case, v)
            return v, ps, want, rc, ctx, d
        for R, out in P.explore(body, 4000, 100):
            n += 1
            if isinstance(out, Exception): res.append((f'{tag}: completes', 'refuted', 0.0, f'{type(out).__name__}: {out}')); continue
            v, ps, want, rc, ctx, d = out; got = places(ps, v)
            ok = rc is command.ReturnCode.SUCCESS and got is not None and all(g is want for g in got)
            res.append((f'{tag}: the variable stands for {P.text(want)} in every place', 'proved' if ok else 'refuted', 0.0, None if ok else str([P.text(g) for g in got or []])))
            res.append((f'{tag}: parent links', 'proved' if linked(ps, want) else 'refuted', 0.0, None))
    finally: un()
    return dict(tag=tag, res=res, paths=n, fns={'c2po.desugar.expand_definitions': len(res)}, wall=time.time()-t0)
# ------------------------------------------------------------------ contracts
def conjob(past, before, after):
    un = patched(); res = []; n = 0; t0 = time.time(); tag = f"resolve_contracts, {'past' if past else 'future'} time, {before} before, {after} after"
    try:
        def body(R):
            a, g = P.hole('B', 'A'), P.hole('B', 'Gu'); ns = [P.SymInt(Int(f'n{i}')) for i in range(3)]
            c = reg(cpt.Contract(LOC, 'con', *ns, a, g))
            mk = lambda i: reg(cpt.Formula(LOC, f'f{i}', P.SymInt(Int(f'k{i}')), P.hole('B', f'e{i}')))
            l = [mk(i) for i in range(before)]; r = [mk(i + 10) for i in range(after)]; o = [mk(i + 20) for i in range(2)]
            sec = cpt.PastTimeSpecSection if past else cpt.FutureTimeSpecSection; oth = cpt.FutureTimeSpecSection if past else cpt.PastTimeSpecSection
            prog = cpt.Program(LOC, [sec(LOC, l + [c] + r), oth(LOC, o)])
            rc = D.resolve_contracts(prog, cpt.Context(), {})
            return c, prog, l, r, o, rc, a, g, ns
        for R, out in P.explore(body, 4000, 100):
            n += 1; say = lambda nm, ok, why=None: res.append((f'{tag}: {nm}', 'proved' if ok else 'refuted', 0.0, None if ok else str(why)))
            if isinstance(out, Exception): res.append((f'{tag}: completes', 'refuted', 0.0, f'{type(out).__name__}: {out}')); continue
            c, prog, l, r, o, rc, a, g, ns = out
            mine, other = (prog.pt_spec_set, prog.ft_spec_set) if past else (prog.ft_spec_set, prog.pt_spec_set)
            m = list(mine.children)
            ok = len(m) == len(l) + 3 + len(r) and all(x is y for x, y in zip(m, l)) and all(x is y for x, y in zip(m[len(l)+3:], r)) and [id(x) for x in other.children] == [id(x) for x in o]
            say('three formulas in place of the contract, all others stay', ok, [str(x) for x in m])
            if not ok: continue
            f = m[len(l):len(l)+3]; env = {}
            say('formulas', all(type(x) is cpt.Formula for x in f))
            for x, k, nm in zip(f, ns, ('active', 'valid', 'verified')):
                say(f'number of the {nm} formula', samefield(x.formula_number, k), x.formula_number)
            av, gv = Bool('A'), Bool('Gu')
            for x, w, nm in zip(f, (av, Implies(av, gv), And(av, gv)), ('active: the assumption', 'valid: assumption implies guarantee', 'verified: assumption and guarantee')):
                try: v = value(x.get_expr(), env); v = v['b'] if isinstance(v, dict) else v; res.append(prove(f'{tag}: {nm}', list(R.pc), v == w))
                except S.Bad as e: say(nm, False, e)
                say(f'{nm}: type and links', T.is_bool_type(RAW(x.get_expr(), '__dict__')['type']) and x in RAW(x.get_expr(), '__dict__')['parents'])
            say('the three formulas have different names', len({x.symbol for x in f}) == 3 and all('con' in x.symbol for x in f))
    finally: un()
    return dict(tag=tag, res=res, paths=n, fns={'c2po.desugar.resolve_contracts': len(res), 'c2po.cpt.Program.replace_spec': 0}, wall=time.time()-t0)
# ------------------------------------------------------------------ accesses
def accjob(what, *a):
    un = patched(); res = []; n = 0; t0 = time.time(); tag = f"{what} {' '.join(map(str, a))}"; bnd = what in ('member', 'call', 'slice'); fn = None
    try:
        def body(R):
            nonlocal fn
            ctx = cpt.Context(); sort = 'B'
            if what == 'member':
                k, i, where = a; ms = [P.hole('B', f'm{j}') for j in range(k)]
                nm = [f'n{j}' for j in range(k)]
                st = reg(cpt.Struct(LOC, 'St', {x: j for j, x in enumerate(nm)}, ms)); st.type = T.StructType('St'); f = reg(cpt.StructAccess(LOC, st, nm[i])); f.type = T.BoolType(); want = ms[i]; fn = 'resolve_struct_accesses'
            elif what == 'call':
                k = a[0]; ms = [P.hole('B', f'm{j}') for j in range(k)]; nm = [f'n{j}' for j in range(k)]
                ctx.structs = {'Other': {'n0': T.BoolType()}, 'St': {x: T.BoolType() for x in nm}}; f = reg(cpt.FunctionCall(LOC, 'St', list(ms))); f.type = T.StructType('St'); fn = 'convert_function_calls_to_structs'
                def want(g): return isinstance(g, cpt.Struct) and g.symbol == 'St' and all(g.get_member(x) is m for x, m in zip(nm, ms)) and list(g.members) == nm and all(g in RAW(m, '__dict__')['parents'] for m in ms)
            elif what == 'enum':
                cs = {x: {y: cpt.Constant(LOC, P.SymInt(Int(f'{x}{y}'))) for y in ('A', 'B')} for x in ('E', 'H')}; ctx.enums = cs; fn = 'resolve_enum_references'
                t = T.EnumType(a[0])
                if a[1] == 'signal': f = reg(cpt.Signal(LOC, 's', t)); want = f
                elif a[1] == 'variable': f = var('v', t); want = f
                else: f = var(a[1], t); want = cs[a[0]][a[1]]
            elif what == 'index':
                nn = Int('size'); R.assume(nn >= 1); i = Int('i'); R.assume(i >= 0)
                arr = reg(cpt.ArrayExpression(LOC, [])); arr.children = Elems('el', nn, 'B'); arr.type = T.ArrayType(T.BoolType(), size=P.SymInt(nn)); f = reg(cpt.ArrayIndex(LOC, arr, P.SymInt(i))); f.type = T.BoolType(); fn = 'resolve_array_accesses'
                want = lambda g: False if not P.is_hole(g) or not R.valid(And(i < nn)) else g is arr.children._at(P.SymInt(i))
            elif what == 'slice':
                k, i, j = a; ms = [P.hole('B', f'm{x}') for x in range(k)]; fn = 'resolve_array_accesses'
                arr = reg(cpt.ArrayExpression(LOC, list(ms))); arr.type = T.ArrayType(T.BoolType(), size=k); f = reg(cpt.ArraySlice(LOC, arr, i, j)); f.type = T.ArrayType(T.BoolType(), size=j-i+1)
                want = lambda g: type(g) is cpt.ArrayExpression and [id(x) for x in g.children] == [id(x) for x in ms[i:j+1]] and all(g in RAW(x, '__dict__')['parents'] for x in g.children) and g.type.size == j-i+1
            elif what == 'compare':
                nn = Int('size'); R.assume(nn >= 1); fn = 'unroll_array_accesses'; op = P.REL[a[0]]; s = a[1]
                l, r = (reg(cpt.ArrayExpression(LOC, [])) for _ in 'lr'); l.children, r.children = Elems('l', nn, s), Elems('r', nn, s)
                f = reg(cpt.Operator(LOC, op, [l, r])); f.engine = T.R2U2Engine.BOOLEANIZER; f.type = T.BoolType(); want = None
            ps = parents(f)
            rc = getattr(D, fn)(Prog(f, ps), ctx, {})
            return f, ps, want, rc, ctx
        for R, out in P.explore(body, 4000, 100):
            n += 1; say = lambda nm, ok, why=None: res.append((f'{tag}: {nm}', 'proved' if ok else 'refuted', 0.0, None if ok else str(why)))
            if isinstance(out, Exception): res.append((f'{tag}: completes', 'refuted', 0.0, f'{type(out).__name__}: {out}')); continue
            f, ps, want, rc, ctx = out; got = places(ps, f)
            if got is None or any(g is not got[0] for g in got): say('every place gets the same replacement', False); continue
            g = got[0]
            if what == 'index' and not R.valid(Int('i') < Int('size')):
                say('an index out of bounds is refused', rc is command.ReturnCode.ERROR or ctx.status is False); continue
            say('succeeds', rc is command.ReturnCode.SUCCESS and ctx.status)
            if what == 'compare':
                todo = [g]; ands = []; bad = None
                if isinstance(g, cpt.Operator) and g.operator is K.LOGICAL_AND: ands = list(list.__iter__(g.children))
                else: ands = [g]
                okc = {1: 1, 2: 2}.get(next((k for k in (1, 2) if R.valid(Int('size') == k)), 0), 3)
                ok = len(ands) == okc and (len(ands) > 1) == (g is not ands[0])
                for j, x in enumerate(ands):
                    ok = ok and isinstance(x, cpt.Operator) and x.operator is P.REL[a[0]] and len(x.children) == 2
                    if not ok: break
                    p, q = x.children
                    ok = P.is_hole(p) and P.is_hole(q) and RAW(p, '__dict__')['name'][1:] == RAW(q, '__dict__')['name'][1:] and RAW(p, '__dict__')['name'][0] == 'l' and RAW(q, '__dict__')['name'][0] == 'r' and RAW(p, '__dict__')['many'] == (j == 2)
                    ok = ok and (RAW(p, '__dict__')['name'] == f'l[{j}]' if j < 2 else True) and x in RAW(p, '__dict__')['parents'] and (x is g or g in RAW(x, '__dict__')['parents'])
                say('the conjunction of the comparisons of the members', ok, P.text(g)); say('parent links', linked(ps, g))
                continue
            ok = want(g) if callable(want) else g is want
            say('the replacement is the one denoted', ok, P.text(g)); say('parent links', linked(ps, g))
            if what in ('member',): say('its type is kept', T.is_bool_type(RAW(g, '__dict__')['type']))
    finally: un()
    r = dict(tag=tag, res=[] if bnd else res, paths=n, fns={f'c2po.desugar.{fn}': len(res)}, wall=time.time()-t0)
    if bnd: r['bres'] = res
    return r
def job(args):
    try:
        r = {'a': aggjob, 'k': copyjob, 'd': defjob, 'c': conjob, 'x': accjob}[args[0]](*args[1:])
        return {**dict(covers={}, err=None), **r}
    except (P.Reach, P.Timeout) as e: return dict(tag=str(args), res=[], paths=0, covers={}, wall=0, err=str(e), fns={})
def copyjobs(how):
    P.ARITIES[:] = [2, 3]; P.MANY[0] = False
    js = [('k', k, s, how) for s in 'BIF' for k in P.kinds(s)] + [('k', k, 'B', how) for k in SUGAR if not (how == 'rename' and k[0] in ('formula', 'contract', 'specs', 'symtemp'))]
    return [('pdes', j) for j in js]
def jobs(prop='C05', tier='quick'):
    js = [('a', op, n) for op in AG for n in (1, 2, 3, 'many')]
    js += [('d', c) for c in ('definition', 'label', 'neither', 'bound, like a definition', 'bound, like a label', 'alias', 'alias of an alias')]
    js += [('c', p, b, a) for p in (False, True) for b in (0, 1, 2) for a in (0, 1)]
    js += [('x', 'member', k, i, 'program') for k in range(1, 6) for i in range(k)] + [('x', 'call', k) for k in range(1, 6)] + [('x', 'index')]
    js += [('x', 'enum', e, s) for e in 'EH' for s in ('A', 'B', 'signal', 'variable')] + [('x', 'slice', k, i, j) for k in range(1, 6) for i in range(k) for j in range(i, k)]
    js += [('x', 'compare', o, s) for o in P.REL for s in 'BI']
    return [('pdes', j) for j in js] + copyjobs('rename')
if __name__ == '__main__':
    import sys
    from multiprocessing import Pool
    with Pool(8) as p:
        t0 = time.time(); tot = bad = bt = 0
        for r in p.imap_unordered(job, [j[1] for j in jobs() if len(sys.argv) < 2 or sys.argv[1] in str(j[1])]):
            tot += len(r['res']); rr = r['res'] + r.get('bres', []); nb = [x for x in rr if x[1] != 'proved']; bad += len(nb); bt += len(r.get('bres', []))
            if nb or r['err'] or not rr: print(r['tag'], r['paths'], len(rr), r['err'])
            for x in nb[:3]: print('   ', str(x)[:300])
        print(tot, bt, bad, time.time()-t0)
