"""C11: what is printed is read back, and operators bind as documented.
Structural induction over the printed expression. For every node kind the real printing code writes the node with ghost operands (an operand is visited only through
its own printing: the accesses to it are those of printing it alone). The text is cut by the real lexer; obligations on the token expressions (z3, regular languages)
show that this cut does not depend on the texts of operands, names and numbers. The tokens drive the real LR tables, operands counting as `expr` read by hypothesis,
from every state and for every following token in which an expression is needed (closure over all kinds and sections); the real grammar actions build the result,
which is compared with the node, all numbers symbolic.
Precedence: in every state after an operator and its operands, with every operator following, the table reduces or shifts as the documented order says."""
import sys, os, time, re, itertools
import psym as P, pmap
from z3 import *
cpt = P.cpt; K = P.K; LOC = P.LOC
import c2po.types as T, c2po.parse_c2po as PC, c2po.parse_mltl as PM
S = StringSort(); FULL = Full(ReSort(S)); NONE = Empty(ReSort(S))
# ------------------------------------------------------------------ ghost operands
TRACE = None
class Ghost(cpt.Variable):
    """an arbitrary expression"""
    def __getattribute__(s, a):
        if TRACE is not None and not a.startswith('__'): TRACE.setdefault(id(s), []).append(a)
        return object.__getattribute__(s, a)
    __hash__ = object.__hash__
    def __eq__(s, o): return s is o
def isinst(x, c):
    if type(x) is Ghost and TRACE is not None: TRACE.setdefault(id(x), []).append(c)
    return P.builtins.isinstance(x, c)
class Num(str): pass
def toint(x, *a):
    if type(x) is Num: return P.SymInt(x.t)
    if type(x) is P.SymInt: return x
    return int(x, *a)
NAMES = ['Sy_7', 'sIg8', 'laB9_', 'mEm', 'fUn_', 'w2']
class Lang: pass
LX = {}
def lang(which):
    if which in LX: return LX[which]
    L = Lang(); L.name = which; L.mod, L.lexer, L.parser = (PC, PC.C2POLexer, PC.C2POParser) if which == 'c2po' else (PM, PM.MLTLLexer, PM.MLTLParser)
    pat = L.lexer._master_re.pattern; nm = re.findall(r'(?:^|\|)\(\?P<(\w+)>', pat); ps = [x[:-1] for x in re.split(r'(?:^|\|)\(\?P<\w+>', pat)[1:]]
    L.order = nm; L.re = {n: pmap.regex(p) for n, p in zip(nm, ps)}; L.any = Union(*L.re.values()); L.lr = L.parser._lrtable; L.prods = L.parser._grammar.Productions
    L.num = Union(Re('0'), Concat(Option(Re('-')), Range('1', '9'), Star(Range('0', '9')))); L.nat = Union(Re('0'), Concat(Range('1', '9'), Star(Range('0', '9'))))
    al = Union(Range('a', 'z'), Range('A', 'Z'), Re('_')); L.sym = Concat(al, Star(Union(al, Range('0', '9')))); L.dec = Concat(Option(Re('-')), Plus(Range('0', '9')), Re('.'), Plus(Range('0', '9')))
    L.atom = Concat(Re('a'), L.nat); LX[which] = L; return L
EM = {}
def empty(r):
    k = r.sexpr()
    if k not in EM:
        s = Solver(); s.set('timeout', 20000); x = String('x'); s.add(InRe(x, r)); c = s.check(); EM[k] = True if c == unsat else (s.model()[x], ) if c == sat else None
    return EM[k]
class Tok:
    lineno = 1; index = end = 0
    def __init__(s, type, value=None, cls=None): s.type, s.value, s.cls = type, value, cls
    def __repr__(s): return f'{s.type}'
def cut(L, text, ghosts):
    """tokens of a printed text; placeholders carry the class of words they stand for"""
    back = {}; src = text
    for i, (t, z) in enumerate(list(P.R.toks.values()) if P.R else []):
        if t in src: d = f'70{i}1'; back[d] = z; src = src.replace(t, d)
    lx = L.lexer('f'); out = []
    for t in lx.tokenize(src):
        w = Tok(t.type, t.value); w.index, w.end = t.index, t.end
        if t.value in ghosts: w.type, w.value, w.cls = '%', ghosts[t.value], 'ghost'
        elif t.type == 'NUMERAL' and t.value in back:
            w.value = Num(t.value); w.value.t = back[t.value]; w.cls = 'nat' if not P.R.sat(back[t.value] < 0) else 'num'
        elif L.name == 'mltl' and t.type == 'TL_ATOMIC': w.cls = 'atom'
        elif t.type == 'SYMBOL' and t.value in NAMES: w.cls = 'sym'
        elif t.type == 'DECIMAL': w.cls = 'dec'
        out.append(w)
    return src, out, lx.status if hasattr(lx, 'status') else True
def first(L, F, w):
    if w.cls == 'ghost': return F['first']
    return {'nat': Range('0', '9'), 'num': Union(Re('-'), Range('0', '9')), 'dec': Union(Re('-'), Range('0', '9')), 'sym': Union(Range('a', 'z'), Range('A', 'Z'), Re('_')), 'atom': Re('a')}[w.cls]
def words(L, F, w):
    if w.cls == 'ghost': return F['last']
    return {'nat': L.nat, 'num': L.num, 'dec': L.dec, 'sym': L.sym, 'atom': L.atom}[w.cls]
def joins(L, W, fol):
    """some word of W followed by fol (classes of characters) may be cut elsewhere; None: undecided"""
    c = W
    for f in fol:
        c = Concat(c, f); a = empty(Intersect(Concat(c, FULL), L.any))
        if a is True: return False
        b = empty(Intersect(c, L.any))
        if b is not True: return b if b else None
    return a
def seams(L, F, src, toks):
    """obligations: each placeholder is cut off where it ends and begins"""
    res = []; at = {t.index: t for t in toks}
    def follow(i):
        o = []
        while i < len(src) and len(o) < 4:
            w = at.get(i)
            if w is not None and w.cls: o.append(first(L, F, w)); break
            o.append(Re(src[i]))
            if src[i] in ' \t\n': break
            i += 1
        return o
    for i, t in enumerate(toks):
        if t.cls and t.end < len(src): res.append((f'{t.cls} ends before {src[t.end:t.end+2]!r}', joins(L, words(L, F, t), follow(t.end))))
        if not t.cls and i+1 < len(toks) and toks[i+1].cls and toks[i+1].index == t.end: res.append((f'{t.value!r} ends before {toks[i+1].cls}', joins(L, Re(t.value), follow(t.end))))
    return res
# ------------------------------------------------------------------ LR driver (the loop of sly.Parser.parse, with ghost operands)
class Bad(Exception): pass
def drive(L, s, toks, la, firsts, parser=None, need=None):
    """reads toks from state s with la following; the final value; need collects (state, following token) of each ghost"""
    lr = L.lr; states, syms, i, seq = [s], [None], 0, []; ps = None
    if parser is not None: ps = PC.sly.yacc.YaccProduction(None); ps._stack = syms
    for _ in range(20000):
        st = states[-1]; t = toks[i] if i < len(toks) else Tok(la)
        if i == len(toks) and len(states) == 2 and la != '$accept' and lr.lr_goto.get(s, {}).get('expr') == st and syms[1].type == 'expr' and not (st in lr.defaulted_states): return syms[1].value, seq
        if t.type == '%':
            g = lr.lr_goto.get(st, {}).get('expr')
            if g is not None:
                nx = toks[i+1].type if i+1 < len(toks) else la
                if nx == '%': raise Bad('two operands with nothing between them')
                if need is not None: need.add((st, nx))
                states.append(g); syms.append(Tok('expr', t.value)); i += 1; continue
            acts = {lr.defaulted_states[st]} if st in lr.defaulted_states else {lr.lr_action[st].get(f) for f in firsts}
            if len(acts) != 1: raise Bad(f'what comes before {t.value} depends on it')
            a = acts.pop()
            if a is None or a >= 0: raise Bad('an operand where none is expected')
        else: a = lr.defaulted_states[st] if st in lr.defaulted_states else lr.lr_action[st].get('$end' if t.type == '$accept' else t.type)
        if a is None: raise Bad(f'syntax error at {t.type}')
        if a > 0:
            if i >= len(toks): raise Bad(f'{la} is taken as part of the text')
            states.append(a); syms.append(t); i += 1
        elif a < 0:
            p = L.prods[-a]; n = p.len
            if n > len(states) - 1: raise Bad('the context is changed')
            seq.append(-a); v = None
            if parser is not None:
                ps._namemap = p.namemap; ps._slice = syms[-n:] if n else []; v = p.func(parser, ps)
            if n: del states[-n:]; del syms[-n:]
            g = lr.lr_goto[states[-1]].get(p.name)
            if g is None: raise Bad('the context is changed')
            states.append(g); syms.append(Tok(p.name, v))
        else: return syms[-1].value, seq
    raise Bad('the parser does not stop')
# ------------------------------------------------------------------ node kinds
UN = [K.LOGICAL_NEGATE, K.BITWISE_NEGATE, K.ARITHMETIC_NEGATE, K.ARITHMETIC_SQRT, K.ARITHMETIC_ABS]
BI = [K.LOGICAL_IMPLIES, K.LOGICAL_EQUIV, K.BITWISE_OR, K.BITWISE_XOR, K.BITWISE_AND, K.SHIFT_LEFT, K.SHIFT_RIGHT, K.EQUAL, K.NOT_EQUAL, K.GREATER_THAN, K.LESS_THAN,
      K.GREATER_THAN_OR_EQUAL, K.LESS_THAN_OR_EQUAL, K.ARITHMETIC_SUBTRACT, K.ARITHMETIC_DIVIDE, K.ARITHMETIC_MODULO, K.ARITHMETIC_POWER]
NARY = [K.LOGICAL_AND, K.LOGICAL_OR, K.LOGICAL_XOR, K.ARITHMETIC_ADD, K.ARITHMETIC_MULTIPLY]
TU = [K.GLOBAL, K.FUTURE, K.HISTORICAL, K.ONCE]; TB = [K.UNTIL, K.RELEASE, K.SINCE, K.TRIGGER]
FLOATS = [0.0, 1.5, -0.25, 1e-7, -2.5e-9, 1e16, 1.2345678901234567e22, 123456789.125, 5e-324, 1.7976931348623157e308, 0.1, 3.0]
def nat(nm): x = P.SymInt(Int(P.R.fresh(nm))); P.R.assume(x.t >= 0); return x
def anyint(nm): return P.SymInt(Int(P.R.fresh(nm)))
def op(k, *c): return cpt.Operator(LOC, k, list(c))
def temp(k, *c):
    return getattr(cpt.TemporalOperator, {K.GLOBAL: 'Global', K.FUTURE: 'Future', K.HISTORICAL: 'Historical', K.ONCE: 'Once', K.UNTIL: 'Until', K.RELEASE: 'Release', K.SINCE: 'Since', K.TRIGGER: 'Trigger'}[k])(LOC, nat('lb'), nat('ub'), *c)
def agg(k, g):
    v = cpt.Variable(LOC, NAMES[0])
    return cpt.SetAggregation(LOC, k, v, g[0], *((None, g[1]) if len(g) == 2 else (g[1], g[2])))
def kinds_c2po():
    """name: (number of operands, node from its operands, what is read back or None for the node itself, text or None for the printed one)"""
    d = {}
    for b in (True, False): d[str(b)] = (0, lambda g, b=b: cpt.Constant(LOC, b))
    def integer(g): c = cpt.Constant(LOC, 5); c.value = anyint('n'); c.symbol = str(c.value); return c
    d['integer'] = (0, integer)
    for f in FLOATS: d[f'float {f}'] = (0, lambda g, f=f: cpt.Constant(LOC, f))
    d['TAU'] = (0, lambda g: cpt.CurrentTimestamp(LOC)); d['variable'] = (0, lambda g: cpt.Variable(LOC, NAMES[0])); d['signal'] = (0, lambda g: cpt.Signal(LOC, NAMES[1], T.BoolType()))
    d['index'] = (1, lambda g: cpt.ArrayIndex(LOC, g[0], anyint('i'))); d['slice'] = (1, lambda g: cpt.ArraySlice(LOC, g[0], anyint('i'), anyint('j'))); d['member'] = (1, lambda g: cpt.StructAccess(LOC, g[0], NAMES[3]))
    for n in range(5):
        d[f'array of {n}'] = (n, lambda g: cpt.ArrayExpression(LOC, g)); d[f'call of {n}'] = (n, lambda g: cpt.FunctionCall(LOC, NAMES[4], g))
    for k in cpt.SetAggregationKind: d[k.value] = (2 if k in (cpt.SetAggregationKind.FOR_EACH, cpt.SetAggregationKind.FOR_SOME) else 3, lambda g, k=k: agg(k, g))
    for k in UN: d[f'{k.name}'] = (1, lambda g, k=k: op(k, *g))
    for k in BI:
        if k: d[f'{k.name} '] = (2, lambda g, k=k: op(k, *g))
    d['prev'] = (2, lambda g: cpt.Operator.PreviousFunction(LOC, *g))
    for k in NARY:
        for n in (2, 3, 4, 5): d[f'{k.name} {n}'] = (n, lambda g, k=k: op(k, *g))
    for k in TU: d[k.name] = (1, lambda g, k=k: temp(k, *g))
    for k in TB: d[k.name] = (2, lambda g, k=k: temp(k, *g))
    d['atomic'] = (1, lambda g: cpt.Atomic(LOC, g[0]), lambda g, n: g[0])
    d['atomic of an operator'] = (1, lambda g: cpt.Atomic(LOC, op(K.LOGICAL_NEGATE, *g)), lambda g, n: op(K.LOGICAL_NEGATE, *g))
    for k in list(d):       # operands that are operators themselves
        if d[k][0] and len(d[k]) == 2 and not k[-1] in '45': d[k + ' of operators'] = (d[k][0], lambda g, m=d[k][1]: m([op(K.LOGICAL_NEGATE, x) for x in g]))
    d['array element'] = (0, lambda g: cpt.Signal(LOC, f'{NAMES[0]}[3]', T.BoolType()), lambda g, n: cpt.ArrayIndex(LOC, cpt.Variable(LOC, NAMES[0]), 3))
    return d
def texts_c2po():
    """forms that are read but not printed"""
    d = {}
    for k in TU: d[f'{k.name} short'] = (1, lambda g, k=k: f'{k.value}[{nat("ub")}] {g[0]}', lambda g, t: shortint(k, t, g))
    d['parentheses'] = (1, lambda g: f'({g[0]})', lambda g, t: g[0])
    return d
def kinds_mltl():
    d = {}
    for b in (True, False): d[str(b)] = (0, lambda g, b=b: cpt.Constant(LOC, b))
    d['LOGICAL_NEGATE'] = (1, lambda g: op(K.LOGICAL_NEGATE, *g))
    for k in (K.LOGICAL_IMPLIES, K.LOGICAL_EQUIV): d[k.name] = (2, lambda g, k=k: op(k, *g))
    for k in (K.LOGICAL_AND, K.LOGICAL_OR):
        for n in (2, 3, 4, 5): d[f'{k.name} {n}'] = (n, lambda g, k=k: op(k, *g))
    for k in TU: d[k.name] = (1, lambda g, k=k: temp(k, *g))
    for k in TB: d[k.name] = (2, lambda g, k=k: temp(k, *g))
    return d
class OneSpec:
    def __init__(s, e): s.e = e
    def get_specs(s): return [cpt.Formula(LOC, '__f0__', 0, s.e)]
class Ctx: pass
def show(L, node, ghosts):
    """the real printing code on the node"""
    global TRACE
    if L.name == 'c2po':
        TRACE = {}
        try: t = cpt.to_infix_str(node); tr = TRACE
        finally: TRACE = None
        for g in ghosts.values():
            TRACE = {}
            try: cpt.to_infix_str(g); alone = TRACE.get(id(g), [])
            finally: TRACE = None
            if tr.get(id(g)) and tr[id(g)] != alone: raise P.Reach('the printing code looks into an operand')
        return t
    c = Ctx(); c.atomic_id_map = {g: k for k, g in enumerate(ghosts.values(), 90)}
    t = cpt.to_mltl_std(OneSpec(node), c)
    if not t.endswith('\n'): raise Bad('a formula is not ended')
    return t[:-1]
def mk(L, n):
    if L.name == 'c2po':
        g = [Ghost(LOC, f'Gh0st_{i}') for i in range(n)]; return g, {x.symbol: x for x in g}
    g = [Ghost(LOC, f'g{i}') for i in range(n)]; return g, {f'a{90+i}': x for i, x in enumerate(g)}
FLAT = {K.LOGICAL_AND, K.LOGICAL_OR, K.LOGICAL_XOR, K.ARITHMETIC_ADD, K.ARITHMETIC_MULTIPLY}
def flat(e):
    if type(e) is cpt.Operator and e.operator in FLAT:
        o = []
        for i, c in enumerate(e.children):
            o += flat(c) if i == 0 and type(c) is cpt.Operator and c.operator == e.operator else [c]
        return o
    return e.children
def diff(a, b, goals):
    """None, or how b differs from a; equalities of numbers go to goals"""
    if type(a) is Ghost or type(b) is Ghost: return None if a is b else f'operand {a} became {b}'
    ta, tb = type(a), type(b)
    if ta is cpt.Struct: ta = cpt.FunctionCall
    if ta is not tb: return f'{ta.__name__} became {tb.__name__}'
    def eq(x, y, w):
        if type(x) is P.SymInt or type(y) is P.SymInt:
            if not (P.num(x) and P.num(y)): return f'{w}: {x!r} became {y!r}'
            goals.append(P.term(x) == P.term(y)); return None
        return None if type(x) is type(y) and x == y else f'{w}: {x!r} became {y!r}'
    if isinstance(a, cpt.Constant): return eq(a.value, b.value, 'value')
    for f in ('operator', 'index', 'start', 'stop', 'member'):
        if hasattr(a, f) or hasattr(b, f):
            r = eq(getattr(a, f, None), getattr(b, f, None), f)
            if r: return r
    if isinstance(a, cpt.TemporalOperator):
        r = eq(a.interval.lb, b.interval.lb, 'lower bound') or eq(a.interval.ub, b.interval.ub, 'upper bound')
        if r: return r
    if isinstance(a, (cpt.Variable, cpt.Signal, cpt.FunctionCall, cpt.Struct, cpt.Formula, cpt.Contract)) and a.symbol != b.symbol: return f'{a.symbol} became {b.symbol}'
    if isinstance(a, cpt.SetAggregation):
        if a.bound_var.symbol != b.bound_var.symbol: return 'another bound variable'
        x, y = [[e.get_set(), e.get_num(), e.get_expr()] for e in (a, b)]
    else: x, y = flat(a), flat(b)
    if len(x) != len(y): return f'{len(x)} operands became {len(y)}'
    for p, q in zip(x, y):
        if p is None or q is None:
            if p is not q: return 'number of an aggregation'
            continue
        r = diff(p, q, goals)
        if r: return r
def patched(L):
    un = [P.patch(L.mod, int=toint), P.patch(cpt, isinstance=isinst)]
    return lambda: [u() for u in un]
def parser(L, mt=-1): p = L.parser('f', mt); p.literals = {NAMES[1]: cpt.Signal}; return p
def template(L, spec, R):
    """node, ghosts, text, tokens of a kind"""
    n, make = spec[0], spec[1]; g, gh = mk(L, n); node = make(g); text = show(L, node, gh); src, toks, ok = cut(L, text, gh)
    return node, g, src, toks, ok
def closure(L, kinds, roots):
    """every (state, following token) in which an expression is read, starting from the sections; the problems met"""
    if not any('expr' in g for g in L.lr.lr_goto.values()): raise P.Reach('the grammar has no nonterminal expr')
    T_ = {}
    for k, sp in kinds.items():
        try:
            for R, out in P.explore(lambda R: template(L, sp, R)): T_[k] = out
        except P.Reach as e: T_[k] = e
    bad = {k: t for k, t in T_.items() if isinstance(t, Exception)}; T_ = {k: t for k, t in T_.items() if k not in bad}
    firsts = {'TL_ATOMIC'} if L.name == 'mltl' else set(); chars = []; last = []
    for k, (node, g, src, toks, ok) in T_.items():
        if toks[0].type != '%': firsts.add(toks[0].type)
    F = {}
    al = [first(L, F, t[3][0]) if t[3][0].cls and t[3][0].cls != 'ghost' else Re(t[2][t[3][0].index]) for t in T_.values() if t[3][0].cls != 'ghost']
    zl = [words(L, F, t[3][-1]) if t[3][-1].cls and t[3][-1].cls != 'ghost' else Re(t[3][-1].value) for t in T_.values() if t[3][-1].cls != 'ghost']
    if L.name == 'mltl': al.append(Re('a')); zl.append(L.atom)
    uniq = lambda l: list({x.sexpr(): x for x in l}.values())
    un = lambda l: l[0] if len(l) == 1 else Union(*l)
    F = dict(first=un(uniq(al)), last=un(uniq(zl)))
    need = set(); probs0 = []
    for toks in roots:
        try: drive(L, 0, toks, '$accept', firsts, None, need)
        except Bad as e: probs0.append(('sections', 0, ' '.join(t.type for t in toks)[:200], str(e)))
    todo = set(need); seen = set(); probs = probs0; seqs = {}
    leaf = [Tok('TL_ATOMIC')] if L.name == 'mltl' else None
    while todo:
        s, la = todo.pop()
        if (s, la) in seen: continue
        seen.add((s, la))
        for k, (node, g, src, toks, ok) in list(T_.items()) + ([('atom', (None, None, None, leaf, True))] if leaf else []):
            nd = set()
            try: _, sq = drive(L, s, toks, la, firsts, None, nd); seqs.setdefault(k, {}).setdefault(tuple(sq), (s, la)); probs.append((k, s, la, None))
            except Bad as e: probs.append((k, s, la, str(e)))
            todo |= nd - seen
    T_.update(bad); return T_, firsts, F, seen, probs, seqs
# ------------------------------------------------------------------ sections
def sections(n, mix):
    """programs whose sections hold n entries each, with ghost expressions"""
    G = [Ghost(LOC, f'Gh0st_{i}') for i in range(60)]; it = iter(G); nx = lambda: next(it); num = itertools.count()
    def formula(lab): i = next(num); return cpt.Formula(LOC, NAMES[2] + str(i) if lab else f'__f{i}__', i, nx())
    def contract(): i = next(num); next(num); next(num); return cpt.Contract(LOC, 'k' + NAMES[2] + str(i), i, i+1, i+2, nx(), nx())
    def specs(): return [contract() if (i + mix) % 3 == 2 else formula((i + mix) % 2 == 0) for i in range(n)]
    ty = [T.BoolType(), T.IntType(), T.FloatType(), T.StructType('St_1'), T.ArrayType(T.BoolType(), size=7), T.ArrayType(T.StructType('St_1')), T.ArrayType(T.ArrayType(T.IntType(), size=2), size=3)]
    decls = lambda p: [cpt.VariableDeclaration(LOC, [f'{p}{i}_{j}' for j in range(1 + (i + mix) % 3)], ty[(i + mix) % len(ty)]) for i in range(n)]
    st = lambda: cpt.StructSection(LOC, [cpt.StructDefinition(LOC, f'St_{i}', decls(f'm{i}')) for i in range(n)])
    en = lambda: cpt.EnumSection(LOC, [cpt.EnumDefinition(LOC, f'En_{i}', [cpt.Definition(LOC, f'e{i}{j}', nx()) for j in range(1 + (n - 1 + i) % 3)]) for i in range(n)])
    inp = lambda: cpt.InputSection(LOC, decls('v')); de = lambda: cpt.DefineSection(LOC, [cpt.Definition(LOC, f'd{i}', nx()) for i in range(n)])
    ft = lambda: cpt.FutureTimeSpecSection(LOC, specs()); pt = lambda: cpt.PastTimeSpecSection(LOC, specs())
    order = [[st, en, inp, de, ft, pt], [inp, de, inp, pt, ft, pt, de, ft], [en, de, st, ft], [ft], [pt, ft, ft], [st, inp, en, en, st, de, de, pt]][mix % 6]
    return cpt.Program(LOC, [f() for f in order]), {g.symbol: g for g in G}
def diffsec(a, b, goals):
    if type(a) is not type(b): return f'{type(a).__name__} became {type(b).__name__}'
    if isinstance(a, cpt.Expression):
        if isinstance(a, (cpt.Formula, cpt.Contract)):
            if a.symbol != b.symbol: return f'{a.symbol} became {b.symbol}'
            for f in ('formula_number', 'formula_numbers'):
                if getattr(a, f, None) != getattr(b, f, None): return f'number of {a.symbol}'
        return diff(a, b, goals)
    if isinstance(a, (list, tuple)):
        if len(a) != len(b): return f'{len(a)} entries became {len(b)}'
        return next((r for r in (diffsec(x, y, goals) for x, y in zip(a, b)) if r), None)
    if isinstance(a, T.Type): return None if str(a) == str(b) and type(a) is type(b) and getattr(a, 'size', None) == getattr(b, 'size', None) else f'type {a} became {b}'
    if isinstance(a, (str, int)): return None if a == b else f'{a} became {b}'
    for f in ('sections', 'struct_defs', 'enum_defs', 'signal_decls', 'defines', 'specs', 'var_decls', 'var_defs', 'variables', 'type', 'symbol', 'expr'):
        if hasattr(a, f) or hasattr(b, f):
            r = diffsec(getattr(a, f, None), getattr(b, f, None), goals)
            if r: return r
def sectok(L, n, mix):
    pr, gh = sections(n, mix); text = str(pr); return pr, gh, *cut(L, text, gh)
def rootsof(L):
    if L.name == 'c2po':
        g = {f'Gh0st_{i}': f'g{i}' for i in range(20)}; o = []
        for pre in ('', 'STRUCT S1: {a: bool;}; T1: {b,c: int; d: S1[];};\n', 'INPUT a, b: bool; c: int;\n'):
            for t in ('ENUM E: {A: Gh0st_0, B: Gh0st_1, C: Gh0st_2}; F1: {A};', 'DEFINE a := Gh0st_0; b := Gh0st_1; c := Gh0st_2;', *(f'{k} {x}Gh0st_0; {y}Gh0st_1; {z}Gh0st_2; kk: Gh0st_3 => Gh0st_4; jj: Gh0st_5 => Gh0st_6; {x}Gh0st_7;' for k in ('FTSPEC', 'PTSPEC') for x in ('', 'l: ') for y in ('', 'm: ') for z in ('', 'n: '))): o += [cut(L, pre + t, g)[1], cut(L, pre + t + '\nFTSPEC Gh0st_8;', g)[1]]
        return o
    X = lambda: Tok('%', 'x'); return [[t for _ in range(n) for t in (X(), Tok('NEWLINE', '\n'))] for n in (1, 2, 3)]
# ------------------------------------------------------------------ precedence
LEVELS = {'c2po': [['LOG_IMPL', 'LOG_XOR', 'LOG_IFF'], ['LOG_OR'], ['LOG_AND'], ['TL_UNTIL', 'TL_RELEASE', 'TL_SINCE', 'TL_TRIGGER'], ['TL_GLOBAL', 'TL_FUTURE', 'TL_HIST', 'TL_ONCE'], ['BW_OR'], ['BW_XOR'], ['BW_AND'], ['REL_EQ', 'REL_NEQ'],
                   ['REL_GT', 'REL_LT', 'REL_GTE', 'REL_LTE'], ['BW_SHIFT_LEFT', 'BW_SHIFT_RIGHT'], ['ARITH_ADD', 'ARITH_SUB'], ['ARITH_MUL', 'ARITH_DIV', 'ARITH_MOD', 'ARITH_POW'], ['LOG_NEG', 'BW_NEG', 'neg'], ['LBRACK', 'DOT']],
          'mltl': [['LOG_IMPL', 'LOG_IFF'], ['LOG_OR'], ['LOG_AND'], ['TL_UNTIL', 'TL_RELEASE', 'TL_SINCE', 'TL_TRIGGER'], ['LOG_NEG', 'TL_GLOBAL', 'TL_FUTURE', 'TL_HIST', 'TL_ONCE']]}
PREFIX = {'TL_GLOBAL', 'TL_FUTURE', 'TL_HIST', 'TL_ONCE', 'LOG_NEG', 'BW_NEG', 'neg'}; TEMP = {'TL_UNTIL', 'TL_RELEASE', 'TL_SINCE', 'TL_TRIGGER', 'TL_GLOBAL', 'TL_FUTURE', 'TL_HIST', 'TL_ONCE'}
def walk(L, s, types):
    """state reached from s by shifting tokens and nonterminals"""
    st = s
    for t in types:
        if t in ('expr', 'interval'): st = L.lr.lr_goto.get(st, {}).get(t)
        else:
            a = L.lr.lr_action.get(st, {}).get(t); st = a if a and a > 0 else None
        if st is None: return None
    return st
def precjob(which, op1):
    L = lang(which); t0 = time.time(); res = []; lv = {o: i for i, l in enumerate(LEVELS[which]) for o in l}; K_ = kinds_c2po() if which == 'c2po' else kinds_mltl()
    un = patched(L)
    try: *_, seen, probs, seqs = closure(L, K_, rootsof(L))
    finally: un()
    mid = ['interval'] if op1 in TEMP else []; tok1 = 'ARITH_SUB' if op1 == 'neg' else op1; path = ([tok1] if op1 in PREFIX else ['expr', tok1]) + mid + ['expr']
    states = {}
    for s, la in seen:
        st = walk(L, s, path)
        if st is not None: states.setdefault(st, s)
    if not states: res.append((f'{op1}: can be used', 'failed', 0, 'no state reads it'))
    for st in sorted(states):
        for op2, l2 in lv.items():
            if op2 in PREFIX: continue
            a = L.lr.defaulted_states[st] if st in L.lr.defaulted_states else L.lr.lr_action[st].get(op2)
            want = 'reduces' if lv[op1] >= l2 else 'shifts'; got = 'refuses' if a is None else 'shifts' if a > 0 else 'reduces'
            ok = got == want and (got == 'shifts' or L.prods[-a].len == len(path))
            res.append((f'{op1} then {op2} in state {st}: {want}', 'proved' if ok else 'failed', 0, None if ok else f'{got} ({ex(op1, op2)})'))
    return dict(tag=f'{which}: {op1} binds as documented', res=res, paths=len(states), wall=time.time()-t0, fns={f'c2po.parse_{which}.{L.parser.__name__} (LR tables)': len(res)}, err=None)
TXT = {'LOG_IMPL': '->', 'LOG_XOR': 'xor', 'LOG_IFF': '<->', 'LOG_OR': '||', 'LOG_AND': '&&', 'BW_OR': '|', 'BW_XOR': '^', 'BW_AND': '&', 'REL_EQ': '==', 'REL_NEQ': '!=', 'REL_GT': '>', 'REL_LT': '<', 'REL_GTE': '>=', 'REL_LTE': '<=', 'BW_SHIFT_LEFT': '<<', 'BW_SHIFT_RIGHT': '>>',
       'ARITH_ADD': '+', 'ARITH_SUB': '-', 'ARITH_MUL': '*', 'ARITH_DIV': '/', 'ARITH_MOD': '%', 'ARITH_POW': 'pow', 'LOG_NEG': '!', 'BW_NEG': '~', 'neg': '-', 'LBRACK': '[0]', 'DOT': '.m', 'TL_UNTIL': 'U[1]', 'TL_RELEASE': 'R[1]', 'TL_SINCE': 'S[1]', 'TL_TRIGGER': 'T[1]', 'TL_GLOBAL': 'G[1]', 'TL_FUTURE': 'F[1]', 'TL_HIST': 'H[1]', 'TL_ONCE': 'O[1]'}
def ex(a, b): return (f'{TXT[a]} x' if a in PREFIX else f'x {TXT[a]} y') + f' {TXT[b]}' + ('' if b in ('LBRACK', 'DOT') else ' z')
# ------------------------------------------------------------------ jobs
def kindjob(which, names):
    L = lang(which); t0 = time.time(); res = []; un = patched(L)
    try:
        K_ = kinds_c2po() if which == 'c2po' else kinds_mltl(); T_, firsts, F, seen, probs, seqs = closure(L, K_, rootsof(L))
        err = None
        if names[0] in ('True', 'LOGICAL_NEGATE'): res += [(f'sections: {t}', 'failed', 0, e) for k, s, t, e in probs if k == 'sections']
        for k in names:
            if isinstance(T_[k], Exception):
                if isinstance(T_[k], P.Reach): err = f'{k}: not expressible: {T_[k]}'
                else: res.append((f'{k}: is printed', 'failed', 0, f'{type(T_[k]).__name__}: {T_[k]}'))
                continue
            mine = [p for p in probs if p[0] == k]
            for _, s, la, e in mine: res.append((f'{k}: read back in state {s} before {la}', 'proved' if e is None else 'failed', 0, None if e is None else f'{T_[k][2]!r}: {e}'))
            node, g, src, toks, ok = T_[k]; res.append((f'{k}: the text has legal characters', 'proved' if ok else 'failed', 0, None if ok else src))
            for n, j in seams(L, F, src, toks):
                if j is None: raise P.Reach(f'{k}: {n} undecided')
                res.append((f'{k}: {n}', 'proved' if j is False else 'failed', 0, None if j is False else f'{src!r}: cut elsewhere for {j}'))
            sp = K_[k]
            for sq, (s, la) in list(seqs.get(k, {}).items()):
                for R, out in P.explore(lambda R: once(L, sp, s, la, firsts)):
                    if isinstance(out, Exception):
                        res.append((f'{k}: the actions build it', 'failed', 0, f'{type(out).__name__}: {out}')); continue
                    d, goals, st, src2 = out; res.append((f'{k}: same operator, operands and names', 'proved' if d is None else 'failed', 0, d and f'{src2!r}: {d}'))
                    for x in goals:
                        v = R.valid(x); res.append((f'{k}: same numbers', 'proved' if v else 'failed', 0, None if v else f'{src2!r}: {x}'))
                    res.append((f'{k}: accepted', 'proved' if st else 'failed', 0, None if st else src2))
    finally: un()
    fn = 'c2po.cpt.to_infix_str' if which == 'c2po' else 'c2po.cpt.to_mltl_std'; half = len(res)
    return dict(tag=f'{which}: ' + ', '.join(names), res=res, paths=len(seen), wall=time.time()-t0, fns={fn: half, f'c2po.parse_{which}.{L.parser.__name__}': half, f'c2po.parse_{which}.{L.lexer.__name__}': half}, err=err)
def once(L, sp, s, la, firsts):
    node, g, src, toks, ok = template(L, sp, P.R); p = parser(L)
    v, _ = drive(L, s, toks, la, firsts, p); goals = []
    want = sp[2](g, node) if len(sp) > 2 else node
    return diff(want, v, goals), goals, p.status, src
def wordjob(which):
    """each class of words is one token of its type"""
    L = lang(which); t0 = time.time(); res = []
    for cls, ty in ([('num', 'NUMERAL'), ('dec', 'DECIMAL'), ('sym', 'SYMBOL')] if which == 'c2po' else [('nat', 'NUMERAL'), ('atom', 'TL_ATOMIC')]):
        W = getattr(L, cls)
        def say(n, r):
            a = empty(r)
            if a is None: raise P.Reach(f'{cls}: {n} undecided')
            res.append((f'{cls}: {n}', 'proved' if a is True else 'failed', 0, None if a is True else str(a)))
        say(f'every one is a {ty}', Intersect(W, Complement(L.re[ty])))
        for t in L.order:
            if t == ty: break
            say(f'none begins with a {t}', Intersect(W, Concat(L.re[t], FULL)))
    lx = L.lexer('f'); bad = list(lx.tokenize('@')); res.append(('an illegal character is no part of any word', 'proved' if empty(Intersect(Re('@'), L.any)) is True else 'failed', 0, None))
    return dict(tag=f'{which}: words', res=res, paths=1, wall=time.time()-t0, fns={f'c2po.parse_{which}.{L.lexer.__name__}': len(res)}, err=None)
def secjob(n, mix):
    L = lang('c2po'); t0 = time.time(); bres = []; un = patched(L)
    try:
        *_, F, seen, probs, seqs = (lambda x: (x[2], x[3], x[4], x[5]))(closure(L, kinds_c2po(), rootsof(L)))
        pr, gh, src, toks, ok = sectok(L, n, mix); firsts = set(); say = lambda nm, o, w=None: bres.append((nm, 'proved' if o else 'failed', 0, None if o else str(w)[:300]))
        say('legal characters', ok, src)
        for nm, j in seams(L, F, src, toks):
            if j is None: raise P.Reach(nm)
            say(nm, j is False, (src, j))
        p = L.parser('f', -1); goals = []
        try: v, _ = drive(L, 0, toks, '$accept', {'SYMBOL', 'LPAREN', 'NUMERAL', 'DECIMAL', 'LBRACE', 'TL_TRUE'}, p); d = diffsec(pr.sections, v, goals)
        except Bad as e: d = str(e)
        say('every section is read back', d is None, f'{d}: {src}'); say('accepted', p.status)
    finally: un()
    return dict(tag=f'sections of {n} entries, arrangement {mix}', res=[], bres=bres, paths=1, wall=time.time()-t0, fns={'c2po.cpt.Program.__str__': len(bres), 'c2po.parse_c2po.C2POParser': len(bres)}, err=None)
def readjob():
    """forms that are read but not printed: short intervals, the mission time, parentheses"""
    t0 = time.time(); res = []
    for which in ('c2po', 'mltl'):
        L = lang(which); un = patched(L)
        try:
            K_ = kinds_c2po() if which == 'c2po' else kinds_mltl(); T_, firsts, F, seen, probs, seqs = closure(L, K_, rootsof(L))
            gname = 'Gh0st_%d' if which == 'c2po' else 'a9%d'
            for k in TU + TB:
                for form in ('short', 'mission', 'both', 'no mission'):
                    def body(R, k=k, form=form):
                        g = [Ghost(LOC, gname % i) for i in range(1 if k in TU else 2)]; gh = {x.symbol: x for x in g}; a, b = nat('a'), nat('b'); mt = -1 if form == 'no mission' else nat('m')
                        iv = {'short': f'[{b}]', 'mission': '[M]', 'both': f'[{a},M]', 'no mission': '[M]'}[form]; lo, hi = {'short': (0, b), 'mission': (0, mt), 'both': (a, mt), 'no mission': (0, mt)}[form]
                        text = f'{k.value}{iv} {g[0].symbol}' if k in TU else f'{g[0].symbol} {k.value}{iv} {g[1].symbol}'
                        src, toks, ok = cut(L, text, gh); p = parser(L, mt); s, la = walkstart(L, seen); v, _ = drive(L, s, toks, la, firsts, p)
                        sym = v.operator is k and [c for c in v.children] == g and [v.interval.lb, v.interval.ub]; return sym, lo, hi, p.status, src, form
                    for R, out in P.explore(body):
                        if isinstance(out, Exception): res.append((f'{which}: {k.name} {form}', 'failed', 0, f'{type(out).__name__}: {out}')); continue
                        sym, lo, hi, st, src, form_ = out
                        if form == 'no mission': res.append((f'{which}: {k.name}[M] without a mission time is refused', 'proved' if not st else 'failed', 0, src)); continue
                        ok = bool(sym) and R.valid(And(P.term(sym[0]) == P.term(lo), P.term(sym[1]) == P.term(hi))) and st
                        res.append((f'{which}: {k.name} with {form} interval', 'proved' if ok else 'failed', 0, None if ok else f'{src}: {sym}'))
            for s, la in sorted(seen):
                try: v, _ = drive(L, s, [Tok('LPAREN', '('), Tok('%', 'x'), Tok('RPAREN', ')')], la, firsts, parser(L)); e = None if v == 'x' else v
                except Bad as e_: e = str(e_)
                res.append((f'{which}: parentheses in state {s} before {la}', 'proved' if e is None else 'failed', 0, e))
        finally: un()
    bres = []
    for n in (1, 2, 3, 4):
        for pat in range(2**n):
            given = [bool(pat >> i & 1) for i in range(n)]; pr = PC.C2POParser('f', -1); cnt = itertools.count()
            want = [40 + i if g else next(cnt) for i, g in enumerate(given)]
            r = pr.parse(PC.C2POLexer('f').tokenize('ENUM E: {' + ', '.join(f'A{i}' + (f': {40+i}' if g else '') for i, g in enumerate(given)) + '};'))
            got = [(d.symbol, getattr(d.expr, 'value', None)) for d in r[0].enum_defs[0].var_defs] if r else None
            ok = got == [(f'A{i}', w) for i, w in enumerate(want)]; bres.append((f'enumeration of {n} members, values given to {given}', 'proved' if ok else 'failed', 0, None if ok else str(got)))
    return dict(tag='short intervals, mission time, parentheses', res=res, bres=bres, paths=1, wall=time.time()-t0, fns={'c2po.parse_c2po.C2POParser': len(res), 'c2po.parse_mltl.MLTLParser': len(res)}, err=None)
def walkstart(L, seen): return next((s, la) for s, la in sorted(seen) if la in ('SEMI', 'NEWLINE'))
def mltljob(n):
    """a list of formulas: one line each, in order, atomics mapped to their numbers"""
    L = lang('mltl'); t0 = time.time(); bres = []; say = lambda nm, o, w=None: bres.append((nm, 'proved' if o else 'failed', 0, None if o else str(w)[:300]))
    ids = [3, 0, 12, 3, 7][:n]; c = Ctx(); gs = [Ghost(LOC, f'g{i}') for i in range(n)]; c.atomic_id_map = dict(zip(gs, ids)); con = cpt.Contract(LOC, 'k', 50, 51, 52, gs[0], gs[0])
    class Pr:
        def get_specs(s):
            l = [cpt.Formula(LOC, f'l{i}', i, g) for i, g in enumerate(gs)]; return l[:1] + [con] + l[1:]
    try: text = cpt.to_mltl_std(Pr(), c)
    except P.Reach: raise
    except Exception as e: text = None; say('a program with contracts is printed', False, f'{type(e).__name__}: {e}')
    r = None
    if text is not None: lx = L.lexer('f'); p = L.parser('f', -1); r = p.parse(lx.tokenize(text)); say('accepted', p.status and r, text)
    if r:
        pr, m = r; say('one formula per formula, in order', [s.get_expr().symbol for s in pr.get_specs()] == [f'a{i}' for i in ids], text); say('numbered', [s.formula_number for s in pr.get_specs()] == list(range(n))); say('each atomic is its column', m == {f'a{i}': i for i in ids}, m)
        d = [x for s in pr.sections if isinstance(s, cpt.InputSection) for v in s.signal_decls for x in v.variables]; say('each is declared once', sorted(d) == sorted({f'a{i}' for i in ids}), d)
    return dict(tag=f'mltl: {n} formulas', res=[], bres=bres, paths=1, wall=time.time()-t0, fns={'c2po.cpt.to_mltl_std': len(bres)}, err=None)
def job(a):
    try: return {'kind': kindjob, 'word': wordjob, 'sec': secjob, 'prec': precjob, 'read': readjob, 'mltl': mltljob}[a[0]](*a[1:])
    except P.Reach as e: return dict(tag=str(a)[:80], res=[], paths=0, fns={}, wall=0, err=f'not expressible: {e}')
    except Exception as e: return dict(tag=str(a)[:80], res=[], paths=0, fns={}, wall=0, err=f'{type(e).__name__}: {e}')
def jobs(prop='C11', tier='quick'):
    js = [('word', w) for w in ('c2po', 'mltl')] + [('read',)]
    for w, ks in (('c2po', list(kinds_c2po())), ('mltl', list(kinds_mltl()))): js += [('kind', w, ks[i::8]) for i in range(8)]
    js += [('sec', n, m) for n in (1, 2, 3) for m in range(6)] + [('mltl', n) for n in (1, 2, 3, 5)]
    js += [('prec', w, o) for w in LEVELS for l in LEVELS[w] for o in l if o not in ('LBRACK', 'DOT')]
    return [('pround', j) for j in js]
if __name__ == '__main__':
    t0 = time.time(); tot = bad = 0
    from multiprocessing import Pool
    with Pool(8) as p:
        for r in p.imap_unordered(job, [j[1] for j in jobs()]):
            rr = r['res'] + r.get('bres', []); nb = [x for x in rr if x[1] != 'proved']; tot += len(rr); bad += len(nb)
            if nb or r.get('err') or not rr: print(r['tag'], r.get('err'), round(r['wall'], 1))
            for x in nb[:3]: print('   ', str(x)[:400])
    print(tot, bad, time.time()-t0)
