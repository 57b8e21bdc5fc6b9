"""MLTL meaning of (symbolic) expression trees, and validity of equivalences for all bounds, subtrees, traces and times."""
import itertools, random, math, hashlib
from z3 import *
import psym as P
from psym import cpt, K, RAW
TRUE, FALSE = ('c', True), ('c', False)
class Bad(Exception): pass            # the tree is not a well-formed expression
_fs = {}
def fun(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _fs: _fs[k] = Function('·'.join(k), *sorts)
    return _fs[k]
I, B, F = IntSort(), BoolSort(), RealSort()
SORT = {'B': B, 'I': I, 'F': F}
def tm(x):
    try: return P.term(x)
    except P.Reach: raise Bad(f'interval bound {x!r}')
def sem(n, view='now', depth=0):
    """meaning of node n; view 'then' = as the tree was when it was given to the code, 'now' = as it is"""
    if depth > 60: raise Bad('cyclic or endless expression')
    n = P.rep(n)
    if not isinstance(n, cpt.Expression): raise Bad(f'operand is {type(n).__name__}')
    if P.is_hole(n): return ('p', RAW(n, '__dict__')['name'], RAW(n, '__dict__')['sort'], RAW(n, '__dict__')['many'])
    s = P.R.init[id(n)] if view == 'then' and id(n) in P.R.init else P.snap(n)
    ch = [sem(c, view, depth+1) for c in s['children']]
    cls, op = s['cls'], s['op']
    if issubclass(cls, cpt.Constant):
        v = s['value']
        if isinstance(v, bool): return ('c', v)
        return ('k', v)
    if cls in (cpt.Signal, cpt.Variable): return ('p', s['symbol'], P.sort_of(n), False)
    if cls is cpt.CurrentTimestamp: return ('tau',)
    if cls is cpt.Atomic:
        if len(ch) != 1: raise Bad('atomic')
        return ch[0]
    if cls in (cpt.Formula, cpt.SpecificationSet): return ('list', (s['symbol'], s['fnum']), ch)
    if not issubclass(cls, cpt.Operator): raise P.Reach(f'meaning of {cls.__name__}')
    def need(k):
        if len(ch) != k: raise Bad(f"operator {op.name} with {len(ch)} operands")
    if op is K.LOGICAL_NEGATE: need(1); return ('not', ch[0])
    if op is K.LOGICAL_AND or op is K.LOGICAL_OR:
        if len(ch) < 1: raise Bad('no operands')
        return ('and' if op is K.LOGICAL_AND else 'or', ch)
    if op is K.LOGICAL_IMPLIES: need(2); return ('or', [('not', ch[0]), ch[1]])
    if op is K.LOGICAL_EQUIV: need(2); return ('iff', ch[0], ch[1])
    if op is K.LOGICAL_XOR:
        r = ch[0]
        for c in ch[1:]: r = ('not', ('iff', r, c))
        return r
    if op in (K.GLOBAL, K.FUTURE, K.HISTORICAL, K.ONCE, K.UNTIL, K.RELEASE, K.SINCE, K.TRIGGER):
        iv = s['interval']
        if iv is None: raise Bad('temporal operator without interval')
        l, u = tm(iv.lb), tm(iv.ub)
        if op in (K.GLOBAL, K.FUTURE, K.HISTORICAL, K.ONCE):
            need(1); return ({K.GLOBAL: 'box', K.FUTURE: 'dia', K.HISTORICAL: 'hist', K.ONCE: 'once'}[op], l, u, ch[0])
        need(2); return ({K.UNTIL: 'U', K.RELEASE: 'R', K.SINCE: 'S', K.TRIGGER: 'T'}[op], l, u, ch[0], ch[1])
    if op is K.PREVIOUS: need(2); return ('prev', ch[0], ch[1])
    if op in (K.ARITHMETIC_ADD, K.ARITHMETIC_MULTIPLY): return ('seq', op.value, P.sort_of(n), flat(op.value, P.sort_of(n), ch))
    if op in (K.EQUAL, K.NOT_EQUAL, K.BITWISE_AND, K.BITWISE_OR, K.BITWISE_XOR): ch = sorted(ch, key=show)
    return ('uf', op.name + str(len(ch)), 'B' if cpt_rel(op) else P.sort_of(n), ch)
def flat(o, srt, ch):
    """+ and * are associative and commutative (two's complement; floating point treated as mathematical numbers)"""
    out = []
    for c in ch:
        if c[0] == 'seq' and c[1] == o: out += c[3]
        else: out.append(c)
    return sorted(out, key=show)
def cpt_rel(op): return op in (K.EQUAL, K.NOT_EQUAL, K.GREATER_THAN, K.LESS_THAN, K.GREATER_THAN_OR_EQUAL, K.LESS_THAN_OR_EQUAL)
DUAL = {'and': 'or', 'or': 'and', 'box': 'dia', 'dia': 'box', 'hist': 'once', 'once': 'hist', 'U': 'R', 'R': 'U', 'S': 'T', 'T': 'S'}
def has_many(s):
    if s[0] == 'p': return s[3]
    return any(has_many(x) for x in subs(s))
def subs(s):
    k = s[0]
    if k in ('not',): return [s[1]]
    if k in ('and', 'or'): return list(s[1])
    if k in ('iff', 'prev'): return [s[1], s[2]]
    if k in ('box', 'dia', 'hist', 'once'): return [s[3]]
    if k in ('U', 'R', 'S', 'T'): return [s[3], s[4]]
    if k in ('seq', 'uf'): return list(s[3])
    if k == 'list': return list(s[2])
    return []
def norm(s, neg=False, run=None):
    """negation normal form, with nested intervals merged ([l1,u1] of [l2,u2] is [l1+l2,u1+u2] when both are non-empty: lemma 'sum of intervals')"""
    k = s[0]
    if k == 'c': return ('c', s[1] != neg)
    if k == 'not': return norm(s[1], not neg, run)
    if k in ('and', 'or'):
        k = DUAL[k] if neg else k
        out = []
        for x in s[1]:
            x = norm(x, neg, run)
            if x[0] == k: out += x[1]
            elif x == ('c', k == 'and'): pass
            else: out.append(x)
        if any(x == ('c', k == 'or') for x in out): return ('c', k == 'or')
        if not out: return ('c', k == 'and')
        return out[0] if len(out) == 1 and not has_many(out[0]) else (k, out)
    if k in ('box', 'dia', 'hist', 'once'):
        k = DUAL[k] if neg else k
        return mkbox(k, s[1], s[2], norm(s[3], neg, run), run)
    if k in ('U', 'R', 'S', 'T'):
        k = DUAL[k] if neg else k
        a, b = norm(s[3], neg, run), norm(s[4], neg, run)
        if a == ('c', k in 'US'): return mkbox({'U': 'dia', 'R': 'box', 'S': 'once', 'T': 'hist'}[k], s[1], s[2], b, run)
        return (k, s[1], s[2], a, b)
    if k == 'iff':
        a, b = norm(s[1], False, run), norm(s[2], False, run)
        return ('not', ('iff', a, b)) if neg else ('iff', a, b)
    if k == 'uf' and s[1] in ('EQUAL2', 'NOT_EQUAL2') and s[3][0][0] != 'k' and bool_sem(s[3][0]) and bool_sem(s[3][1]):
        return norm(('iff', s[3][0], s[3][1]), neg != (s[1] == 'NOT_EQUAL2'), run)
    if k == 'uf': s = ('uf', s[1], s[2], [norm(x, False, run) for x in s[3]])
    elif k == 'seq': s = ('seq', s[1], s[2], [norm(x, False, run) for x in s[3]])
    elif k == 'prev': s = ('prev', norm(s[1], False, run), norm(s[2], False, run))
    elif k == 'list': return ('list', s[1], [norm(x, False, run) for x in s[2]])
    return ('not', s) if neg else s
def bool_sem(s):
    if s[0] in ('p',): return s[2] == 'B'
    if s[0] in ('uf', 'seq'): return s[2] == 'B'
    if s[0] == 'prev': return bool_sem(s[2])
    return s[0] not in ('k', 'tau')
def mkbox(k, l, u, x, run):
    ok = lambda a, b: run is not None and run.valid(a <= b)
    if run is not None and run.valid(And(l == 0, u == 0)): return x
    if x[0] == 'c':
        if x[1] == (k in ('box', 'hist')): return x
        if k in ('box', 'dia') and ok(l, u): return x
    if x[0] == 'and' and k in ('box', 'hist') or x[0] == 'or' and k in ('dia', 'once'):
        if not has_many(x): return norm((x[0], [mkbox(k, l, u, y, run) for y in x[1]]), False, run)
    if x[0] == k and k in ('box', 'dia') and ok(l, u) and ok(x[1], x[2]): return mkbox(k, simplify(l + x[1]), simplify(u + x[2]), x[3], run)
    if run is not None and k in ('box', 'dia') and (x[0] in ('box', 'dia')) and x[0] != k:
        if run.valid(l == u): return mkbox(x[0], simplify(l + x[1]), simplify(u + x[2]), x[3], run)
        if run.valid(x[1] == x[2]): return mkbox(k, simplify(l + x[1]), simplify(u + x[2]), x[3], run)
    return (k, l, u, x)
_v = itertools.count()
def z(s, t, elem=None):
    """the value of s at time t, as a z3 term (elem: which of arbitrarily many operands)"""
    k = s[0]
    if k == 'c': return BoolVal(s[1])
    if k == 'k':
        v = s[1]
        if isinstance(v, P.FloatTok): return Const('fc_' + v.n, F)
        if isinstance(v, float): return RealVal(repr(v))
        return P.term(v)
    if k == 'tau': return t
    if k == 'p':
        if s[3]: return fun(s[1], I, I, SORT[s[2]])(elem, t)
        return fun(s[1], I, SORT[s[2]])(t)
    if k == 'not': return Not(z(s[1], t, elem))
    if k in ('and', 'or'):
        out = []
        for x in s[1]:
            if has_many(x) and elem is None:
                e = Int(f'e{next(_v)}'); b = z(x, t, e)
                out.append(ForAll([e], b) if k == 'and' else Exists([e], b))
            else: out.append(z(x, t, elem))
        return And(*out) if k == 'and' else Or(*out)
    if k == 'iff': return z(s[1], t, elem) == z(s[2], t, elem)
    if k == 'prev':
        return If(t == 0, z(s[1], t, elem), z(s[2], t - 1, elem))
    if k in ('uf', 'seq'):
        if any(has_many(x) for x in s[3]) and elem is None:
            # a variadic operator over arbitrarily many operands: an uninterpreted function of the named ones and of a name for the family
            fam = '|'.join(show(x) for x in s[3] if has_many(x)); a = [z(x, t) for x in s[3] if not has_many(x)]
            return fun('many_' + s[1] + fam, *[x.sort() for x in a], I, SORT[s[2]])(*a, t)
        a = [z(x, t, elem) for x in s[3]]
        if k == 'seq':
            r = a[0]
            for x in a[1:]: r = fun('op' + s[1], r.sort(), x.sort(), SORT[s[2]])(r, x)
            return r
        return fun('uf_' + s[1], *[x.sort() for x in a], SORT[s[2]])(*a)
    l, u = s[1], s[2]
    i = Int(f'i{next(_v)}')
    if k == 'box': return ForAll([i], Implies(And(t + l <= i, i <= t + u), z(s[3], i, elem)))
    if k == 'dia': return Exists([i], And(t + l <= i, i <= t + u, z(s[3], i, elem)))
    if k == 'hist': return ForAll([i], Implies(And(0 <= i, t - u <= i, i <= t - l), z(s[3], i, elem)))
    if k == 'once': return Exists([i], And(0 <= i, t - u <= i, i <= t - l, z(s[3], i, elem)))
    j = Int(f'j{next(_v)}'); a, b = s[3], s[4]
    if k == 'U': return Exists([i], And(t + l <= i, i <= t + u, z(b, i, elem), ForAll([j], Implies(And(t + l <= j, j < i), z(a, j, elem)))))
    if k == 'R': return ForAll([i], Implies(And(t + l <= i, i <= t + u), Or(z(b, i, elem), Exists([j], And(t + l <= j, j < i, z(a, j, elem))))))
    if k == 'S': return Exists([i], And(0 <= i, t - u <= i, i <= t - l, z(b, i, elem), ForAll([j], Implies(And(i < j, j <= t - l), z(a, j, elem)))))
    if k == 'T': return ForAll([i], Implies(And(0 <= i, t - u <= i, i <= t - l), Or(z(b, i, elem), Exists([j], And(i < j, j <= t - l, z(a, j, elem))))))
    raise Bad(f'meaning {k}')
def zw(s, t, memo):
    """the value of s at time t when every interval has a known width: quantifier-free, the times are linear terms"""
    t = simplify(t); key = (id(s), t.sexpr())
    if key in memo: return memo[key]
    k = s[0]; f = lambda x, y: zw(x, y, memo)
    if k == 'c': r = BoolVal(s[1])
    elif k == 'p' and not s[3]: r = fun(s[1], I, SORT[s[2]])(t)
    elif k == 'not': r = Not(f(s[1], t))
    elif k in ('and', 'or'): r = (And if k == 'and' else Or)(*[f(x, t) for x in s[1]])
    elif k == 'iff': r = f(s[1], t) == f(s[2], t)
    elif k in ('box', 'dia', 'U', 'R'):
        w = simplify(s[2] - s[1])
        if not is_int_value(w): raise Bad('width')
        r = BoolVal(k in ('box', 'R'))
        for d in range(w.as_long(), -1, -1):
            at = t + s[1] + d
            if k == 'box': r = And(f(s[3], at), r)
            elif k == 'dia': r = Or(f(s[3], at), r)
            elif k == 'U': r = Or(f(s[4], at), And(f(s[3], at), r))
            else: r = And(f(s[4], at), Or(f(s[3], at), r))
    else: r = z(s, t)
    memo[key] = r
    return r
def equal_w(run, old, new, timeout=15000):
    if alike(old, new, run): return 'proved', None
    t = Int('t'); s = Solver(); s.set('timeout', timeout); s.add(run.pc)
    s.add(t >= 0, zw(old, t, {}) != zw(new, t, {}))
    r = s.check()
    return ('proved', None) if r == unsat else ('refuted', s.model()) if r == sat else ('unknown', None)
def show(s):
    k = s[0]
    if k == 'c': return str(s[1]).lower()
    if k == 'k': return str(s[1])
    if k == 'p': return s[1]
    if k == 'tau': return 'TAU'
    if k == 'not': return '!' + show(s[1])
    if k in ('and', 'or'): return '(' + (' && ' if k == 'and' else ' || ').join(show(x) for x in s[1]) + ')'
    if k == 'iff': return f'({show(s[1])} <-> {show(s[2])})'
    if k in ('uf', 'seq'): return f"{s[1]}({','.join(show(x) for x in s[3])})"
    if k == 'prev': return f'prev({show(s[1])},{show(s[2])})'
    if k == 'list': return f"[{s[1]} {','.join(show(x) for x in s[2])}]"
    n = {'box': 'G', 'dia': 'F', 'hist': 'H', 'once': 'O'}.get(k, k)
    iv = f'{n}[{simplify(s[1])},{simplify(s[2])}]'
    return f'{iv}({show(s[3])})' if k in ('box', 'dia', 'hist', 'once') else f'({show(s[3])} {iv} {show(s[4])})'
def alike(a, b, run):
    """equal by structure, with bounds equal under the path condition"""
    if a[0] != b[0]: return False
    if a[0] == 'p': return a == b
    if a[0] == 'c': return a[1] == b[1]
    if a[0] == 'k':
        if isinstance(a[1], float) or isinstance(b[1], float): return str(a[1]) == str(b[1]) and type(a[1]) is type(b[1])
        return run.valid(P.term(a[1]) == P.term(b[1]))
    if a[0] in ('uf', 'seq', 'list') and a[1:-1] != b[1:-1]: return False
    if a[0] in ('box', 'dia', 'hist', 'once', 'U', 'R', 'S', 'T') and not run.valid(And(a[1] == b[1], a[2] == b[2])): return False
    x, y = subs(a), subs(b)
    return len(x) == len(y) and all(alike(p, q, run) for p, q in zip(x, y))
def equal(run, old, new, timeout=15000):
    """('proved'|'refuted'|'unknown', model or None): old and new have the same value at every time, on the current path"""
    if alike(old, new, run): return 'proved', None
    if old[0] == 'list' or new[0] == 'list':
        if old[0] != new[0] or old[1] != new[1] or len(old[2]) != len(new[2]): return 'refuted', None
        for x, y in zip(old[2], new[2]):
            r = equal(run, x, y, timeout)
            if r[0] != 'proved': return r
        return 'proved', None
    a, b = norm(old, False, run), norm(new, False, run)
    if alike(a, b, run): return 'proved', None
    t = Int('t')
    za, zb = z(a, t), z(b, t)
    if za.sort() != zb.sort(): return 'refuted', None
    s = Solver(); s.set('timeout', timeout); s.add(run.pc); s.add(t >= 0, za != zb)
    r = s.check()
    if r == unsat: return 'proved', None
    return ('refuted', s.model()) if r == sat else ('unknown', None)
# ------------------------------------------------------------------ concrete evaluation (replay)
def ev(s, t, streams, env):
    """value of s at time t; env: z3 term -> int; streams: name,t -> value"""
    k = s[0]
    if k == 'c': return s[1]
    if k == 'k': return env(P.term(s[1])) if not isinstance(s[1], float) else 0.5
    if k == 'tau': return t
    if k == 'p': return streams(s[1], s[2], t)
    if k == 'not': return not ev(s[1], t, streams, env)
    if k == 'and': return all(ev(x, t, streams, env) for x in s[1])
    if k == 'or': return any(ev(x, t, streams, env) for x in s[1])
    if k == 'iff': return bool(ev(s[1], t, streams, env)) == bool(ev(s[2], t, streams, env))
    if k == 'prev': return ev(s[1], 0, streams, env) if t == 0 else ev(s[2], t-1, streams, env)
    if k in ('uf', 'seq'):
        a = [ev(x, t, streams, env) for x in s[3]]
        if s[1] in ('EQUAL2', 'NOT_EQUAL2'): return (a[0] == a[1]) == (s[1] == 'EQUAL2')
        if k == 'seq': return sum(a) if s[1] == '+' else math.prod(a)
        h = int(hashlib.md5(repr((s[1], a)).encode()).hexdigest(), 16)
        return bool(h & 1) if s[2] == 'B' else h % 7
    l, u = env(s[1]), env(s[2])
    if k in ('box', 'dia'):
        v = (ev(s[3], i, streams, env) for i in range(t+l, t+u+1)); return all(v) if k == 'box' else any(v)
    if k in ('hist', 'once'):
        v = (ev(s[3], i, streams, env) for i in range(max(0, t-u), t-l+1)); return all(v) if k == 'hist' else any(v)
    if k in 'UR':
        r = k == 'R'
        for i in range(t+u, t+l-1, -1):
            a, b = ev(s[3], i, streams, env), ev(s[4], i, streams, env)
            r = (b or (a and r)) if k == 'U' else (b and (a or r))
        return bool(r)
    r = k == 'T'
    for i in range(max(0, t-u), t-l+1):
        a, b = ev(s[3], i, streams, env), ev(s[4], i, streams, env)
        r = (b or (a and r)) if k == 'S' else (b and (a or r))
    return bool(r)
def lemmas():
    """facts the normaliser uses, proved for all values"""
    l1, u1, l2, u2, k, i, j = Ints('l1 u1 l2 u2 k i j')
    out = []
    def pr(name, *cs):
        s = Solver(); s.set('timeout', 20000); s.add(*cs); import time; t = time.time(); r = s.check()
        out.append((name, 'proved' if r == unsat else 'refuted' if r == sat else 'unknown', time.time()-t, None))
    pre = [l1 <= u1, l2 <= u2]
    w = If(l1 >= k - u2, l1, k - u2)
    pr('lemma sum of intervals: every k in [l1+l2,u1+u2] is i+j with i in [l1,u1], j in [l2,u2]', *pre, l1 + l2 <= k, k <= u1 + u2, Not(And(l1 <= w, w <= u1, l2 <= k - w, k - w <= u2)))
    pr('lemma sum of intervals: i in [l1,u1] and j in [l2,u2] give i+j in [l1+l2,u1+u2]', l1 <= i, i <= u1, l2 <= j, j <= u2, Not(And(l1 + l2 <= i + j, i + j <= u1 + u2)))
    p, q = Function('p', I, B), Function('q', I, B); n, l, u, t = Ints('n l u t')
    bx = lambda f: ForAll([i], Implies(And(t + l <= i, i <= t + u), f(i)))
    pr('lemma box distributes over and', bx(lambda x: And(p(x), q(x))) != And(bx(p), bx(q)))
    pr('lemma constant under a non-empty interval', l <= u, bx(lambda x: BoolVal(False)))
    pr('lemma box over a point interval', l <= u, bx(lambda x: p(x + n)) != ForAll([i], Implies(And(t + l + n <= i, i <= t + u + n), p(i))))
    return out
