"""C07: the SMT encodings mean what MLTL means, and answers are passed on unchanged.
node     one node of any kind with arbitrary operands and bounds: the real encoder writes it, the text is read (own reader of SMT-LIB terms); the functions of the
         operands are made uninterpreted once they are shown to mean the operands, and the function of the node is proved to mean the node at every time k
         and for every length. UFLIA: the documented finite-trace semantics; QF_UFLIA: traces cut off at their end (see known findings), Until bounded in width
length   the length the non-strict query uses suffices for the formula (cplen of UFLIA, delay + 1 of QF_UFLIA); lemma: from there on all semantics agree
bv       QF_BV: bounded in bounds and width, all traces
answer   run_smt_solver with stand-in solvers; check_sat and check_equiv with every combination of answers (bounded)"""
import sys, os, io, time, itertools, contextlib, tempfile, stat, shutil
from z3 import *
import psym as P
from psym import cpt, K, LOC
from c2po import sat, types as T, log, stats as ST
from pdel import prove
B, I = T.BoolType(), T.IntType()
# ------------------------------------------------------------------ reading SMT-LIB
def sexps(s):
    out = [[]]; i = 0
    while i < len(s):
        c = s[i]
        if c.isspace(): i += 1
        elif c == '(': out.append([]); i += 1
        elif c == ')': x = out.pop(); out[-1].append(x); i += 1
        elif c == '|': j = s.index('|', i+1); out[-1].append(s[i:j+1]); i = j+1
        elif c == ';': i = (s + '\n').index('\n', i)
        else:
            j = i
            while j < len(s) and not s[j].isspace() and s[j] not in '()|': j += 1
            out[-1].append(s[i:j]); i = j
    if len(out) != 1: raise ValueError('unbalanced SMT-LIB text')
    return out[0]
class Script:
    """declarations, definitions and assertions of a script; functions can be replaced by uninterpreted ones"""
    def __init__(s, text, toks):
        s.toks = toks; s.decl, s.defs, s.asserts, s.ok, s.unint, s.rng = {}, {}, [], False, {}, {}
        for c in sexps(text):
            if c[0] == 'declare-fun':
                if c[1] in s.decl or c[1] in s.defs: raise ValueError(f'{c[1]} is declared twice')
                s.decl[c[1]] = (c[2], c[3])
            elif c[0] == 'define-fun':
                key = c[1]
                if key in s.defs or (key in s.decl and len(s.decl[key][0]) == len(c[2])): raise ValueError(f'{key} is defined twice')
                s.check(c[4], {p[0] for p in c[2]}); s.defs[key] = (c[2], c[3], c[4])
            elif c[0] == 'assert': s.check(c[1], set()); s.asserts.append(c[1])
            elif c[0] == 'check-sat': s.ok = True
            elif c[0] not in ('set-logic', 'set-info', 'set-option'): raise P.Reach(f'command {c[0]}')
    def check(s, t, bound):
        """every name is defined before it is used"""
        if isinstance(t, str):
            if not (t in bound or t in s.decl or t in s.defs or t in s.toks or t in OPS or t.lstrip('-').isdigit() or t in ('true', 'false', '_', 'extract') or t.startswith('bv') or t in ('Int', 'Bool')): raise ValueError(f'{t} is used before it is defined')
            return
        if t and t[0] in ('forall', 'exists'): return s.check(t[2], bound | {v[0] for v in t[1]})
        for x in t: s.check(x, bound)
    def sort(s, x): return {'Int': IntSort(), 'Bool': BoolSort(), 'Real': RealSort()}[x] if isinstance(x, str) else BitVecSort(int(x[2]))
    def fun(s, n, args):
        if n in s.unint: return s.unint[n](*args)
        if n in s.decl and len(s.decl[n][0]) == len(args):
            a, r = s.decl[n]; return Function(n, *[s.sort(x) for x in a], s.sort(r))(*args) if a else Const(n, s.sort(r))
        if n in s.defs:
            ps, r, body = s.defs[n]
            if len(ps) != len(args): raise ValueError(f'{n}: wrong number of arguments')
            return s.term(body, {p[0]: a for p, a in zip(ps, args)})
        raise ValueError(f'{n} is not declared')
    def term(s, t, env):
        if isinstance(t, str):
            if t in env: return env[t]
            if t in s.toks: return s.toks[t]
            if t in ('true', 'false'): return BoolVal(t == 'true')
            if t.lstrip('-').isdigit(): return IntVal(int(t))
            return s.fun(t, [])
        h = t[0]
        if isinstance(h, list):
            if h[:2] == ['_', 'extract']: return Extract(int(h[2]), int(h[3]), s.term(t[1], env))
            raise P.Reach(f'term {h}')
        if h == '_' and t[1].startswith('bv'): return BitVecVal(int(t[1][2:]), int(t[2]))
        if h in ('forall', 'exists'):
            vs = [Const(f'{v[0]}!{next(FRESH)}', s.sort(v[1])) for v in t[1]]; b = s.term(t[2], {**env, **{v[0]: c for v, c in zip(t[1], vs)}}); return (ForAll if h == 'forall' else Exists)(vs, b)
        if h in ('and', 'or') and s.rng:                     # a list written by a loop over a ghost range: all of its elements
            out = []
            for x in t[1:]:
                g = [r for r in s.rng if uses(x, r)]
                if not g: out.append(s.term(x, env)); continue
                lo, hi = s.rng[g[0]]; v = Int(f'r!{next(FRESH)}'); b = s.term(x, {**env, g[0]: v}); out.append(ForAll([v], Implies(And(lo <= v, v < hi), b)) if h == 'and' else Exists([v], And(lo <= v, v < hi, b)))
            return (And if h == 'and' else Or)(*out)
        if h in OPS:
            a = [s.term(x, env) for x in t[1:]]
            if not a: raise ValueError(f'{h} without operands')
            return OPS[h](*a)
        return s.fun(h, [s.term(x, env) for x in t[1:]])
FRESH = itertools.count()
def uses(t, n): return t == n if isinstance(t, str) else any(uses(x, n) for x in t)
def fold(f): return lambda *a: a[0] if len(a) == 1 else fold(f)(f(a[0], a[1]), *a[2:])
OPS = {'and': And, 'or': Or, 'not': Not, '=>': Implies, 'xor': Xor, '=': lambda a, b: a == b, 'distinct': lambda a, b: a != b, '<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b,
       '+': fold(lambda a, b: a + b), '*': fold(lambda a, b: a * b), '-': lambda *a: -a[0] if len(a) == 1 else fold(lambda x, y: x - y)(*a), 'div': lambda a, b: a / b, 'mod': lambda a, b: a % b, 'ite': If,
       'bvand': fold(lambda a, b: a & b), 'bvor': fold(lambda a, b: a | b), 'bvnot': lambda a: ~a, 'bvxnor': lambda a, b: ~(a ^ b), 'bvxor': fold(lambda a, b: a ^ b), 'bvshl': lambda a, b: a << b, 'bvlshr': LShR, 'bvugt': UGT, 'bvuge': UGE, 'bvult': ULT, 'bvule': ULE}
# ------------------------------------------------------------------ semantics
def qvar(): return Int(f't!{next(FRESH)}')
def tdiv(a, b): return If(a >= 0, a / b, -((-a) / b))
def tmod(a, b): return If(a >= 0, a % b, -((-a) % b))
REL = {K.EQUAL: lambda a, b: a == b, K.NOT_EQUAL: lambda a, b: a != b, K.GREATER_THAN: lambda a, b: a > b, K.GREATER_THAN_OR_EQUAL: lambda a, b: a >= b, K.LESS_THAN: lambda a, b: a < b, K.LESS_THAN_OR_EQUAL: lambda a, b: a <= b}
ARI = {K.ARITHMETIC_ADD: lambda a, b: a + b, K.ARITHMETIC_SUBTRACT: lambda a, b: a - b, K.ARITHMETIC_MULTIPLY: lambda a, b: a * b, K.ARITHMETIC_DIVIDE: tdiv, K.ARITHMETIC_MODULO: tmod}
def meaning(op, c, k, ln, lb, ub, how):
    """truth of op at time k of a trace of length ln; c: functions time -> term. how: 'doc' documented, 'cut' operands only inside the trace, 'inf' no end"""
    if op in ARI and len(c) == 2: return ARI[op](c[0](k), c[1](k))
    if op == K.ARITHMETIC_NEGATE: return -c[0](k)
    if op in REL: r = REL[op](c[0](k), c[1](k)); return r if how == 'inf' else And(k < ln, r)
    if op == K.LOGICAL_NEGATE: return Not(c[0](k))
    if op == K.LOGICAL_AND: return And(*[x(k) for x in c])
    if op == K.LOGICAL_OR: return Or(*[x(k) for x in c])
    if op == K.LOGICAL_IMPLIES: return Implies(c[0](k), c[1](k))
    if op in (K.LOGICAL_EQUIV,): return c[0](k) == c[1](k)
    i, j = qvar(), qvar(); inr = lambda v: And(lb + k <= v, v <= ub + k, BoolVal(True) if how != 'cut' else v < ln); started = BoolVal(True) if how == 'inf' else ln > lb + k
    if op == K.GLOBAL: return Or(Not(started), ForAll([i], Implies(inr(i), c[0](i))))
    if op == K.FUTURE: return And(started, Exists([i], And(inr(i), c[0](i))))
    if op == K.UNTIL: return And(started, Exists([i], And(inr(i), c[1](i), ForAll([j], Implies(And(lb + k <= j, j < i), c[0](j))))))
    if op == K.RELEASE: return Or(Not(started), ForAll([i], Implies(inr(i), Or(c[1](i), Exists([j], And(lb + k <= j, j < i, c[0](j)))))))
    raise KeyError(op)
TU, TB = [K.GLOBAL, K.FUTURE], [K.UNTIL, K.RELEASE]
MK = {K.GLOBAL: cpt.TemporalOperator.Global, K.FUTURE: cpt.TemporalOperator.Future, K.UNTIL: cpt.TemporalOperator.Until, K.RELEASE: cpt.TemporalOperator.Release}
def sig(n, t=B): s = cpt.Signal(LOC, n, t); s.type = t; return s
def mk(op, kids, lb=None, ub=None, t=B):
    n = MK[op](LOC, lb, ub, *kids) if op in MK else cpt.Operator(LOC, op, kids, set_parents=False); n.type = t; return n
def ctx(signals):
    c = cpt.Context(); c.signals = dict(signals); return c
SIGS = {'a': B, 'b': B, 'c': B, 'd': B, 'u': I, 'v': I, 'e0': B}
# operands: what they are and what they mean
OPERANDS = {'signal': lambda n: (sig(n), lambda f, k, ln, how: And(k < ln, f(k)) if how != 'inf' else f(k)),
            'true': lambda n: (mkc(True), lambda f, k, ln, how: BoolVal(True)), 'false': lambda n: (mkc(False), lambda f, k, ln, how: BoolVal(False)),
            'not': lambda n: (mk(K.LOGICAL_NEGATE, [sig(n)]), lambda f, k, ln, how: Not(And(k < ln, f(k))) if how == 'doc' else And(k < ln, Not(f(k)))),
            'shared': lambda n: (mk(K.LOGICAL_AND, [S_A, S_A]), None)}
S_A = None
def mkc(v): c = cpt.Constant(LOC, v); c.type = B if isinstance(v, bool) else I; return c
ENC = {'uflia': sat.to_uflia_smtlib2, 'qf_uflia': sat.to_qf_uflia_smtlib2, 'qf_bv': sat.to_qf_bv_smtlib2}
class GhostRange:
    """range(lb, ub) of any length: a loop over it runs once for an arbitrary element"""
    def __init__(s, lo, hi): s.lo, s.hi = lo, hi
    def __iter__(s):
        v = Int(f'elem{len(RANGES)}'); P.R.assume(And(P.term(s.lo) <= v, v < P.term(s.hi))); RANGES.append((v, P.term(s.lo), P.term(s.hi))); yield P.SymInt(v)
RANGES = []
def ghostrange(*a):
    if not any(type(x) is P.SymInt for x in a): return range(*a)
    if len(a) == 1: a = (0,) + a
    if len(a) != 2: raise P.Reach('range with a step')
    return GhostRange(*a)
def encode(th, e, c, strict):
    un = P.patch(sat, range=ghostrange); RANGES.clear(); old = log.error, log.warning, log.debug; msgs = []
    sat.log.error = lambda m, *a: msgs.append(str(m)); sat.log.warning = lambda *a: None; sat.log.debug = lambda *a: None
    try: t = ENC[th](e, c, strict)
    finally: un(); sat.log.error, sat.log.warning, sat.log.debug = old
    return t, msgs
def script(text):
    toks = {k: t for k, t in P.R.toks.values()}; s = Script(text, toks)
    for v, lo, hi in RANGES:
        for k, t in list(toks.items()):
            if eq(t, v): s.rng[k] = (lo, hi); del toks[k]
    for k, t in toks.items():                          # compound terms of a ghost element, `i + 1`
        for v, lo, hi in RANGES:
            if v.sexpr() in t.sexpr(): raise P.Reach('arithmetic on the element of a range')
    return s
def root(s):
    """the function the query asks at time zero, and its length argument"""
    a = s.asserts[-1]
    if isinstance(a, list) and len(a) == 3 and a[0] in s.defs and a[1] == '0': return a[0], a[2]
    raise P.Reach(f'query {a}')
def called(t, s): return set() if isinstance(t, str) else {x for x in [t[0]] if isinstance(x, str) and x in s.defs} | {y for x in t[1:] for y in called(x, s)} | (called(t[0], s) if isinstance(t[0], list) else set())
KINDS = {'uflia': [(k, n) for k in (K.LOGICAL_AND, K.LOGICAL_OR) for n in (1, 2, 3, 4)] + [(K.LOGICAL_NEGATE, 1), (K.LOGICAL_IMPLIES, 2), (K.LOGICAL_EQUIV, 2)] + [(k, 1) for k in TU] + [(k, 2) for k in TB]}
KINDS['qf_uflia'] = [x for x in KINDS['uflia'] if x[0] != K.RELEASE]
def nodejob(th, op, n, strict):
    """one node, its operands arbitrary"""
    t0 = time.time(); res = []; bres = []; paths = 0; how = 'doc' if th == 'uflia' else 'cut'; nm = f'{op.value} of {n}' + (' strict' if strict else '')
    ints = op in ARI or op == K.ARITHMETIC_NEGATE or op in REL; boolrel = False
    widths = [None] if not (th == 'qf_uflia' and op == K.UNTIL) else [(l, l + w) for l in (0, 1, 3) for w in range(6)]
    combos = [('signal',) * n] + [('signal',) * i + (o,) + ('signal',) * (n - i - 1) for i in range(n) for o in ('true', 'false', 'not')] if not ints else [('int',) * n] + ([('signal',) * n] if op in (K.EQUAL, K.NOT_EQUAL) else [])
    names = 'abcd'; fs = [Function(f'f_{x}', IntSort(), BoolSort()) for x in names]; fi = [Function(f'f_{x}', IntSort(), IntSort()) for x in 'uv']
    for wd in widths:
        for combo in combos:
            def body(R):
                isint = combo[0] == 'int'
                kids = [sig('uv'[i], I) for i in range(n)] if isint else [OPERANDS[o](names[i])[0] for i, o in enumerate(combo)]
                lb = ub = None
                if op in MK:
                    lb, ub = (P.SymInt(Int('lb')), P.SymInt(Int('ub'))) if wd is None else wd
                    if wd is None: R.assume(And(0 <= Int('lb'), Int('lb') <= Int('ub')))
                e = mk(op, kids, lb, ub, I if op in ARI or op == K.ARITHMETIC_NEGATE else B)
                q = e if e.type == B else mk(K.GREATER_THAN, [e, sig('u', I)])       # a number is asked through a comparison
                w = P.SymInt(Int('wpd')); R.assume(Int('wpd') >= 0); q.wpd = w
                t, msgs = encode(th, q, ctx(SIGS), strict)
                if not t: return 'refused: ' + '; '.join(msgs)
                s = script(t); 
                if not s.ok: return 'no check-sat'
                r, la = root(s); k, ln = Int('k'), Int('len'); pre = list(R.pc)
                if e is not q:                                                         # the function of the number: the one called that mentions not only u
                    cs = sorted(called(s.defs[r][2], s), key=lambda f: -sum(1 for _ in str(s.fun(f, [k, ln]))))
                    r2 = cs[0]; pre = pre + [k < ln]
                else: r2 = r
                env = {s.defs[r2][0][0][0]: k, s.defs[r2][0][1][0]: ln}; cs = sorted(called(s.defs[r2][2], s)); L, U = (P.term(lb), P.term(ub)) if op in MK else (None, None)
                def attempt(general):
                    """general: operands are any functions (those found for them, or not mentioned at all); else they are what they are here"""
                    childs = []; hyp = []; s.unint.clear()
                    for i, o in enumerate(combo):
                        m = OPERANDS[o](names[i])[1] if o != 'int' else None
                        if general and o in ('signal', 'int', 'not'):
                            A = Function(f'any_{i}', IntSort(), IntSort(), IntSort() if o == 'int' else BoolSort())
                            for f in mine[i]: s.unint[f] = A
                            childs.append(lambda t, A=A: A(t, ln))
                            if how == 'cut' and o != 'int': v = qvar(); hyp.append(ForAll([v], Implies(v >= ln, Not(A(v, ln)))))
                        else: childs.append((lambda t, i=i: fi[i](t)) if o == 'int' else (lambda t, i=i, m=m: m(fs[i], t, ln, how)))
                    got = s.term(s.defs[r2][2], env); want = meaning(op, childs, k, ln, L, U, how)
                    if how == 'cut' and e is q: goals = [('inside the trace', [k >= 0, k < ln], got == want), ('beyond the end', [k >= ln], Not(got))]
                    else: goals = [('at every time', [k >= 0], got == want)]
                    return [prove(f'{th}: {nm} over {combo}' + (f' [{wd[0]},{wd[1]}]' if wd else '') + f': {g}', pre + hyp + p, goal) for g, p, goal in goals]
                mine = []
                for i, o in enumerate(combo):                                          # the functions of the operands mean the operands: then any function will do
                    m = OPERANDS[o](names[i])[1] if o != 'int' else None; want = fi[i](k) if o == 'int' else m(fs[i], k, ln, how)
                    mine.append([f for f in cs if len(s.defs[f][0]) == 2 and o in ('signal', 'int', 'not') and prove('', R.pc + [k >= 0] + ([k < ln] if how == 'cut' and o not in ('int',) else []), s.fun(f, [k, ln]) == want if (s.sort(s.defs[f][1]) == (IntSort() if o == 'int' else BoolSort())) else BoolVal(False))[1] == 'proved'])
                out = attempt(True)
                if any(x[1] != 'proved' for x in out):
                    o2 = attempt(False)
                    if all(x[1] == 'proved' for x in o2) and not all(mine): bres.extend(o2); out = []        # operands without functions of their own: bounded
                s.unint.clear()
                # the query
                la_ = s.term(la, {})
                if strict: out.append(prove(f'{th}: {nm}: any length may be chosen', R.pc, BoolVal(is_const(la_) and la_.decl().kind() == Z3_OP_UNINTERPRETED and len(s.asserts) == len([x for x in s.asserts if not uses(x, la) or x is s.asserts[-1]]))))
                elif th == 'qf_uflia': out.append(prove(f'{th}: {nm}: length asked exceeds the delay', R.pc, la_ >= Int('wpd') + 1))
                return out
            for R, o in P.explore(body):
                paths += 1
                if isinstance(o, Exception): res.append((f'{th}: {nm} over {combo}', 'failed', 0, f'{type(o).__name__}: {o}'))
                elif isinstance(o, str): res.append((f'{th}: {nm} over {combo} is encoded', 'failed', 0, o))
                else: (bres if wd else res).extend(o)
    return dict(tag=f'{th} {nm}', res=res, bres=bres, paths=paths, wall=time.time()-t0, fns={f'c2po.sat.{ENC[th].__name__}': len(res)}, err=None)
def leafjob(th):
    """constants, signals; names declared once; several nodes; the same operand twice"""
    t0 = time.time(); res = []
    k, ln = Int('k'), Int('len'); how = 'doc' if th == 'uflia' else 'cut'
    fa, fb = (Function(f'f_{x}', IntSort(), BoolSort()) for x in 'ab')
    A = lambda f: (lambda t, l: And(t < l, f(t)))
    def neg(x): return (lambda t, l: Not(x(t, l)))
    a, b = sig('a'), sig('b'); a2 = sig('a'); na = mk(K.LOGICAL_NEGATE, [a]); G = mk(K.GLOBAL, [a], 1, 3); F = mk(K.FUTURE, [a], 1, 3); G2 = mk(K.GLOBAL, [a], 1, 4)
    def G_(lb, ub, x, l): return lambda t: meaning(K.GLOBAL, [lambda v: x(v, l)], t, l, IntVal(lb), IntVal(ub), how)
    cases = {'true': (mkc(True), lambda t, l: BoolVal(True)), 'false': (mkc(False), lambda t, l: BoolVal(False)), 'signal': (a, A(fa)), 'a signal named like a subformula': (sig('e0'), A(Function('f_e0', IntSort(), BoolSort()))),
             'two nodes for one signal': (mk(K.LOGICAL_AND, [a, a2]), A(fa)), 'the same node twice': (mk(K.LOGICAL_OR, [na, na]), neg(A(fa))), 'a && !a': (mk(K.LOGICAL_AND, [a, na]), lambda t, l: BoolVal(False)),
             'bounds differ': (mk(K.LOGICAL_IMPLIES, [G, G2]), lambda t, l: Implies(G_(1, 3, A(fa), l)(t), G_(1, 4, A(fa), l)(t))), 'operators differ': (mk(K.LOGICAL_EQUIV, [G, F]), lambda t, l: G_(1, 3, A(fa), l)(t) == meaning(K.FUTURE, [lambda v: A(fa)(v, l)], t, l, IntVal(1), IntVal(3), how)),
             'different signals': (mk(K.LOGICAL_EQUIV, [a, b]), lambda t, l: A(fa)(t, l) == A(fb)(t, l)),
             'atomic': (atomic(a), A(fa)), 'the atomic and its signal': (mk(K.LOGICAL_EQUIV, [atomic(a), a]), lambda t, l: BoolVal(True)),
             'different numbers': (mk(K.LOGICAL_OR, [mk(K.EQUAL, [sig('u', I), mkc(3)]), mk(K.EQUAL, [sig('u', I), mkc(30)])]), lambda t, l: And(t < l, Or(Function('f_u', IntSort(), IntSort())(t) == 3, Function('f_u', IntSort(), IntSort())(t) == 30))),
             'a negative number': (mk(K.EQUAL, [sig('u', I), mkc(-7)]), lambda t, l: And(t < l, Function('f_u', IntSort(), IntSort())(t) == -7))}
    for nm, (e, want) in cases.items():
        for strict in (False, True):
            def body(R):
                e.wpd = 4; t, msgs = encode(th, e, ctx(SIGS), strict)
                if not t: return 'refused: ' + '; '.join(msgs)
                s = script(t); r, la = root(s); got = s.fun(r, [k, ln]); return [prove(f'{th}: {nm}' + (', strict' if strict else ''), [k >= 0, k < ln] if how == 'cut' else [k >= 0], got == want(k, ln))]
            for R, o in P.explore(body):
                if isinstance(o, Exception): res.append((f'{th}: {nm}', 'failed', 0, f'{type(o).__name__}: {o}'))
                elif isinstance(o, str): res.append((f'{th}: {nm} is encoded', 'failed', 0, o))
                else: res += o
    return dict(tag=f'{th} leaves', res=res, paths=len(cases)*2, wall=time.time()-t0, fns={f'c2po.sat.{ENC[th].__name__}': len(res)}, err=None)
def atomic(x): n = cpt.Atomic(LOC, 'a0', x) if False else _atomic(x); n.type = B; return n
def _atomic(x):
    import inspect
    ps = list(inspect.signature(cpt.Atomic.__init__).parameters)[1:]; return cpt.Atomic(LOC, x) if len(ps) == 2 else cpt.Atomic(*[LOC if p == 'loc' else x if 'child' in p or 'operand' in p or 'expr' in p else 'a0' for p in ps])
def lenjob():
    """cplen of the UFLIA encoding is long enough: more than the delay of the formula, operands of any length"""
    t0 = time.time(); res = []; paths = 0
    for op, n in KINDS['uflia'] + [(K.EQUAL, 2)]:
        def body(R):
            d = [Int(f'd{i}') for i in range(n)]; R.assume(And(*[x >= 0 for x in d]))
            if op in REL: kids = [sig('u', I), sig('v', I)]; need = IntVal(0)
            else: kids = [mk(K.FUTURE, [sig('abcd'[i])], P.SymInt(IntVal(0)), P.SymInt(d[i])) for i in range(n)]; need = d[0]
            for x in d[1:]: need = If(x > need, x, need) if op not in REL else need
            lb = ub = None
            if op in MK: lb, ub = P.SymInt(Int('lb')), P.SymInt(Int('ub')); R.assume(And(0 <= Int('lb'), Int('lb') <= Int('ub'))); need = need + Int('ub') if len(d) < 2 else If(d[0] - 1 > d[1], d[0] - 1, d[1]) + Int('ub')
            e = mk(op, kids, lb, ub); t, msgs = encode('uflia', e, ctx(SIGS), False)
            if not t: return 'refused: ' + '; '.join(msgs)
            s = script(t); r, la = root(s); return [prove(f'uflia: length asked for {op.value} of {n}', R.pc, s.term(la, {}) >= need + 1)]
        for R, o in P.explore(body):
            paths += 1
            if isinstance(o, Exception): res.append((f'uflia: length of {op.value}', 'failed', 0, f'{type(o).__name__}: {o}'))
            elif isinstance(o, str): res.append((f'{op.value} is encoded', 'failed', 0, o))
            else: res += o
    return dict(tag='uflia length', res=res, paths=paths, wall=time.time()-t0, fns={'c2po.sat.to_uflia_smtlib2': len(res)}, err=None)
def lemmajob():
    """a trace longer than the delay: the semantics agree (so the answers of the encodings do)"""
    t0 = time.time(); res = []
    for how in ('doc', 'cut'):
        for op, n in KINDS['uflia'] + [(r, 2) for r in REL]:
            k, ln, lb, ub = Int('k'), Int('len'), Int('lb'), Int('ub'); d = [Int(f'd{i}') for i in range(n)]; hyp = [k >= 0, 0 <= lb, lb <= ub] + [x >= 0 for x in d]; C, D = [], []
            for i in range(n):
                s = IntSort() if op in REL else BoolSort(); f, g = Function(f'x{i}', IntSort(), s), Function(f'y{i}', IntSort(), s); v = qvar(); hyp.append(ForAll([v], Implies(And(v >= 0, v + d[i] < ln), f(v) == g(v)), patterns=[f(v), g(v)])); C.append(f); D.append(g)
            w = Int('w'); hyp += [w >= (ub if op in MK else 0) + x for x in d] + [k + w < ln]
            res.append(prove(f'lemma: {op.value} of {n}: {how} semantics is that of endless traces once the trace is longer than the delay', hyp, meaning(op, C, k, ln, lb, ub, how) == meaning(op, D, k, ln, lb, ub, 'inf')))
    return dict(tag='lemma: long traces', res=res, paths=len(res), wall=time.time()-t0, fns={'lemma': len(res)}, err=None)
# ------------------------------------------------------------------ QF_BV, bounded
def bvref(e, k, w, f):
    """meaning at time k of a trace of length w, computed"""
    if isinstance(e, cpt.Constant): return BoolVal(bool(e.value))
    if isinstance(e, cpt.Signal): return f(e.symbol, k)
    if isinstance(e, cpt.Atomic): return bvref(e.children[0], k, w, f)
    o = e.operator; c = e.children
    if o == K.LOGICAL_NEGATE: return Not(bvref(c[0], k, w, f))
    if o == K.LOGICAL_AND: return And(*[bvref(x, k, w, f) for x in c])
    if o == K.LOGICAL_OR: return Or(*[bvref(x, k, w, f) for x in c])
    if o == K.LOGICAL_EQUIV: return bvref(c[0], k, w, f) == bvref(c[1], k, w, f)
    l, u = e.interval.lb, e.interval.ub; ts = [t for t in range(k + l, min(k + u, w - 1) + 1)]
    if o == K.GLOBAL: return And(*[bvref(c[0], t, w, f) for t in ts])
    if o == K.FUTURE: return Or(*[bvref(c[0], t, w, f) for t in ts])
    if o == K.UNTIL: return Or(*[And(bvref(c[1], t, w, f), *[bvref(c[0], x, w, f) for x in range(k + l, t)]) for t in ts])
    raise KeyError(o)
def bvjob(part, tier):
    t0 = time.time(); bres = []; a, b, c = sig('a'), sig('b'), sig('c'); N = lambda x: mk(K.LOGICAL_NEGATE, [x]); cases = []
    ivs = [(l, u) for l in range(0, 5) for u in range(l, 9)] + [(0, 15), (0, 16), (3, 20), (0, 31), (1, 33)] + ([(0, 63), (0, 64), (2, 90)] if tier == 'thorough' else [])
    for l, u in ivs:
        for x in (0, 1, 3):
            cases += [(mk(K.GLOBAL, [a], l, u), u + x), (mk(K.FUTURE, [a], l, u), u + x)] + ([(mk(K.UNTIL, [a, b], l, u), u + x)] if u <= 20 else [])
            if u <= 8: cases += [(N(mk(K.GLOBAL, [N(a)], l, u)), u + x), (mk(K.UNTIL, [mkc(True), b], l, u), u + x), (mk(K.UNTIL, [N(a), mk(K.LOGICAL_AND, [a, b])], l, u), u + x)]
    for w in range(0, 5):
        cases += [(x, w) for x in (mkc(True), mkc(False), a, N(a), atomic(a), mk(K.LOGICAL_EQUIV, [a, b]), mk(K.LOGICAL_EQUIV, [N(a), a]))] + [(mk(o, [a, b, c, N(a)][:n]), w) for o in (K.LOGICAL_AND, K.LOGICAL_OR) for n in (1, 2, 3, 4) if n > 1]
    for l, u in [(0, 1), (0, 3), (1, 2), (2, 5)]:
        g = mk(K.GLOBAL, [mk(K.FUTURE, [a], l, u)], u - l, u); cases += [(g, 2*u), (g, 2*u + 1), (mk(K.LOGICAL_AND, [g, mk(K.FUTURE, [a], l, u)]), 2*u), (mk(K.UNTIL, [mk(K.FUTURE, [a], l, u), mk(K.GLOBAL, [b], 0, u)], l, u), 2*u)]
    for n, (e, wpd) in enumerate(cases):
        if n % 8 != part: continue
        for strict in (False, True):
            P.R = P.Run([], time.time() + 1000); nm = f'qf_bv{", strict" if strict else ""}: {cpt.to_infix_str(e)} over {wpd + 1} steps'
            try:
                e.wpd = wpd; t, msgs = encode('qf_bv', e, ctx({'a': B, 'b': B, 'c': B}), strict)
                if not t: bres.append((nm, 'failed', 0, 'refused: ' + '; '.join(msgs))); continue
                s = Script(t, {}); w = wpd + 1; got = And(*[s.term(x, {}) for x in s.asserts]); bits = {x: BitVec(f'f_{x}', w) for x in 'abc'}
                f = lambda x, k: Extract(w-1-k, w-1-k, bits[x]) == 1
                want = Or(*[bvref(e, k, w, f) for k in range(w)]) if strict else bvref(e, 0, w, f)
                if not s.ok: bres.append((nm, 'failed', 0, 'no check-sat')); continue
                bres.append(prove(nm, [], got == want))
            except P.Reach as x: bres.append((nm, 'unknown', 0, str(x)))
            except Exception as x: bres.append((nm, 'failed', 0, f'{type(x).__name__}: {x}'))
    return dict(tag=f'qf_bv {part}', res=[], bres=bres, paths=len(bres), wall=time.time()-t0, fns={'c2po.sat.to_qf_bv_smtlib2': len(bres)}, err=None)
# ------------------------------------------------------------------ answers
SOLVER = '''#!/bin/sh
%s
printf '%%s' '%s'
printf '%%s' '%s' >&2
exit %d
'''
def quiet(fn, *a):
    old = {x: getattr(log, x) for x in ('error', 'warning', 'debug', 'internal')}
    for x in old: setattr(log, x, lambda *a, **k: None)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out): r = fn(*a)
    finally:
        for x, f in old.items(): setattr(log, x, f)
    return r, out.getvalue()
def runjob(solver_):
    """stand-in solvers: sat and unsat are reported only if the solver said so and ended well"""
    t0 = time.time(); bres = []; d = tempfile.mkdtemp(prefix='c07_'); old = os.environ['PATH']
    outs = [('sat\n', 'sat'), ('unsat\n', 'unsat'), ('unknown\n', None), ('', None), ('timeout\n', None), ('(error "out of memory")\n', None), ('(error "line 3 column 8: unexpected")\n', None), ('(error "std::bad_alloc")', None)]
    try:
        for solver in (solver_,):
            for out, ans in outs:
                for err in ('', '(error "out of memory")', 'Out of memory', 'std::bad_alloc'):
                    for rc in (0, 1, 101, 16, 6, 'kill', 'slow'):
                        if err and rc not in (1, 101): continue
                        if rc == 'slow' and (solver != 'z3' or out not in ('sat\n', 'unsat\n')): continue
                        p = os.path.join(d, solver)
                        with open(p, 'w') as f: f.write(SOLVER % ('sleep 5' if rc == 'slow' else '', out.replace('\n', ''), err, rc if isinstance(rc, int) else 0) if rc != 'kill' else f"#!/bin/sh\nprintf '%s' '{out.strip()}'\nkill -9 $$\n")
                        os.chmod(p, 0o755); os.environ['PATH'] = d + ':/usr/bin:/bin' if False else d
                        with open(p) as f: txt = f.read()
                        with open(p, 'w') as f: f.write(txt.replace('sleep 5', '/bin/sleep 5'))
                        st = ST.Stats(); r, _ = quiet(sat.run_smt_solver, '(check-sat)', sat.SMTTheory.UFLIA, 1 if rc == 'slow' else 20, 0, st)
                        os.remove(p); got = r.value if r in (sat.SatResult.SAT, sat.SatResult.UNSAT) else None; want = ans if rc == 0 else None
                        ok = got == want and (want is not None or rc == 0 or not sat.check_sat_result(r))
                        bres.append((f'{solver} prints {out!r} and {err!r}, ends with {rc}: {want or "no answer"}', 'proved' if ok else 'failed', 0, None if ok else str(r)))
        r, _ = quiet(sat.run_smt_solver, '(check-sat)', sat.SMTTheory.UFLIA, 5, 0, ST.Stats()); bres.append(('no solver: no answer', 'proved' if not sat.check_sat_result(r) else 'failed', 0, str(r)))
    finally: os.environ['PATH'] = old; shutil.rmtree(d)
    return dict(tag=f'answers of {solver_}', res=[], bres=bres, paths=len(bres), wall=time.time()-t0, fns={'c2po.sat.run_smt_solver': len(bres), 'c2po.sat.check_sat_result': len(bres)}, err=None)
def prog(n, contract=None):
    fs = [cpt.Formula(LOC, f'l{i}', i, sig('abcd'[i])) for i in range(n)]
    if contract is not None: fs.insert(contract, cpt.Contract(LOC, 'k', 90, 91, 92, sig('a'), sig('b')))
    return cpt.Program(LOC, [cpt.FutureTimeSpecSection(LOC, fs)])
def cmdjob(which, n):
    """every combination of answers and failures of n queries"""
    from c2po import command
    t0 = time.time(); bres = []; RES = list(sat.SatResult) + [None]; OKR = command.ReturnCode.SUCCESS
    nq = n + (n > 1) if which == 'check_sat' else n - 1
    for contract in ([None, 0, 1] if n <= 2 else [None]):
        if which == 'check_equiv' and contract == 1: continue
        for rs in itertools.product(RES, repeat=nq):
            for pr in (True, False):
                p = prog(n, contract); c = ctx({x: B for x in 'abcd'}); asked = []; it = iter(rs); cur = [None]
                def fake_smt(e, ctx_, th, strict):
                    cur[0] = next(it); asked.append((e, th, strict)); return None if cur[0] is None else 'TEXT'
                def fake_eq(e1, e2, ctx_, th, strict): return fake_smt((e1, e2), ctx_, th, strict)
                def fake_run(t, th, *a): return cur[0]
                un = P.patch(sat, to_smt=fake_smt, run_smt_solver=fake_run, to_smt_equiv=fake_eq); nm = f'{which} of {n}' + (f' and a contract at {contract}' if contract is not None else '') + f', answers {[r.value if r else "not encoded" for r in rs]}' + (', printed' if pr else '')
                try: rc, out = quiet(getattr(sat, which), p, c, {'theory': 'uflia', 'strict': False, 'print': pr, 'quiet': not pr, 'smt_max_time': 5, 'smt_max_memory': 0})
                except Exception as x: bres.append((nm, 'failed', 0, f'{type(x).__name__}: {x}')); continue
                finally: un()
                lines = [l for l in out.split('\n') if l]; bad = [r for r in rs[:len(asked)] if r is None or not r in (sat.SatResult.SAT, sat.SatResult.UNSAT, sat.SatResult.UNKNOWN)]
                good = []
                if which == 'check_sat':
                    labels = [f'l{i}' for i in range(n)] + ['program']
                    for l in lines:
                        lab, _, v = l.rpartition(' : '); i = labels.index(lab) if lab in labels else -1
                        good.append(0 <= i < len(asked) and rs[i] is not None and rs[i].value == v)
                    # each query asks for its own formula
                    for i, (e, th, st) in enumerate(asked):
                        good.append((e.symbol == 'abcd'[i]) if i < n else (cpt.is_operator(e, K.LOGICAL_AND) and [x.symbol for x in e.children] == list('abcd'[:n])))
                    if pr and not bad: good.append(len(lines) == nq)
                else:
                    pairs = [(e[0].symbol, e[1].symbol) for e, *_ in asked]; good.append(pairs == [('abcd'[i], 'abcd'[i+1]) for i in range(nq)])
                    want = 'not-equiv' if sat.SatResult.SAT in rs else 'equiv' if all(r is sat.SatResult.UNSAT for r in rs) else 'unknown'
                    if pr: good.append(lines == [want])
                good.append((rc is OKR) == (not bad))
                ok = all(good); bres.append((nm, 'proved' if ok else 'failed', 0, None if ok else f'{rc} {lines} {good}'))
    return dict(tag=f'{which} of {n}', res=[], bres=bres, paths=len(bres), wall=time.time()-t0, fns={f'c2po.sat.{which}': len(bres)}, err=None)
def tosmtjob():
    """to_smt: the delays are brought up to date before the encoder reads them; the equivalence query is the negated equivalence"""
    t0 = time.time(); bres = []; seen = []
    def stub(e, c, strict): seen.append((e, strict, [(x, x.wpd) for x in cpt.postorder(e, c)])); return 'T'
    for th, fn in (('uflia', 'to_uflia_smtlib2'), ('qf_uflia', 'to_qf_uflia_smtlib2'), ('qf_bv', 'to_qf_bv_smtlib2')):
        for strict in (False, True):
            e = mk(K.UNTIL, [mk(K.FUTURE, [sig('a')], 1, 4), mk(K.LOGICAL_NEGATE, [mk(K.GLOBAL, [sig('b')], 0, 7)])], 2, 3)
            for x in cpt.postorder(e, ctx({})): x.wpd = -5
            seen.clear(); un = P.patch(sat, **{fn: stub})
            try: r, _ = quiet(sat.to_smt, e, ctx({'a': B, 'b': B}), sat.SMTTheory(th), strict)
            finally: un()
            ok = r == 'T' and len(seen) == 1 and seen[0][0] is e and seen[0][1] == strict and e.wpd == 10; bres.append((f'to_smt {th} strict={strict}: delay known', 'proved' if ok else 'failed', 0, None if ok else str((r, e.wpd))))
    a, b = sig('a'), sig('b'); seen.clear(); un = P.patch(sat, to_smt=lambda e, *a: seen.append(e) or 'T')
    try: r, _ = quiet(sat.to_smt_equiv, a, b, ctx({'a': B, 'b': B}), sat.SMTTheory.UFLIA, False)
    finally: un()
    e = seen[0] if seen else None; ok = r == 'T' and cpt.is_operator(e, K.LOGICAL_NEGATE) and cpt.is_operator(e.children[0], K.LOGICAL_EQUIV) and list(e.children[0].children) in ([a, b], [b, a]) and e.type == B and e.children[0].type == B
    bres.append(('to_smt_equiv asks for the negated equivalence', 'proved' if ok else 'failed', 0, None if ok else str(e)))
    return dict(tag='to_smt', res=[], bres=bres, paths=len(bres), wall=time.time()-t0, fns={'c2po.sat.to_smt': len(bres), 'c2po.sat.to_smt_equiv': 1}, err=None)
def job(a):
    try: return {'node': nodejob, 'leaf': leafjob, 'len': lenjob, 'lemma': lemmajob, 'bv': bvjob, 'run': runjob, 'cmd': cmdjob, 'smt': tosmtjob}[a[0]](*a[1:])
    except P.Reach as e: return dict(tag=str(a)[:80], res=[], paths=0, fns={}, wall=0, err=f'not expressible: {e}')
    except Exception as e: return dict(tag=str(a)[:80], res=[], paths=0, fns={}, wall=0, err=f'{type(e).__name__}: {e}')
def jobs(prop='C07', tier='quick'):
    js = [('run', s) for s in ('z3', 'cvc5', 'yices-smt2', 'mathsat', 'bitwuzla')] + [('lemma',), ('len',), ('smt',)] + [('bv', i, tier) for i in range(8)] + [('cmd', 'check_sat', n) for n in (1, 2)] + [('cmd', 'check_equiv', n) for n in (2, 3, 4)]
    for th in ('uflia', 'qf_uflia'): js += [('leaf', th)] + [('node', th, op, n, st) for op, n in KINDS[th] + [(r, 2) for r in REL] + [(r, 2) for r in ARI] + [(K.ARITHMETIC_NEGATE, 1)] for st in (False, True)]
    return [('psat', j) for j in js]
if __name__ == '__main__':
    t0 = time.time(); tot = bad = 0
    from multiprocessing import Pool
    with Pool(8) as p:
        for r in p.imap_unordered(job, [j[1] for j in jobs()]):
            rr = r['res'] + r.get('bres', []); nb = [x for x in rr if x[1] != 'proved']; tot += len(rr); bad += len(nb)
            if nb or r.get('err') or not rr or r['wall'] > 20: print(r['tag'], r.get('err'), round(r['wall'], 1), len(nb))
            for x in nb[:3]: print('   ', str(x)[:400])
    print(tot, bad, time.time()-t0)
