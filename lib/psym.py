"""Symbolic execution of C2PO's own Python code.
The code that runs is the code in /repo (imported on every run).  Its inputs are symbolic: interval bounds are SymInt (z3
terms; a comparison forks the path), and subtrees are Holes: lazily initialised nodes that stand for *any* expression of a sort
and turn into a node of one kind (one path per kind) only when the code looks at them.  Every path is explored; the obligations
of a property are discharged by z3 for each path, for all bounds, subtrees, traces and times."""
import sys, os, time, builtins, itertools
from z3 import *
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'compiler'))
from c2po import cpt, log, types as ctypes_
import c2po
log.set_quiet()
LOC = log.FileLocation('f', 1)
K = cpt.OperatorKind

class Infeasible(Exception): pass
class Reach(Exception): pass          # the code does something the symbolic values do not support
class Timeout(Exception): pass

R = None                              # the current run
class Run:
    def __init__(self, trail, deadline):
        self.trail = list(trail); self.pos = 0; self.alts = []; self.solver = Solver(); self.solver.set('timeout', 5000)
        self.pc = []; self.n = itertools.count(); self.init = {}; self.nodes = []; self.toks = {}; self.deadline = deadline; self.uses = set()
        self.terms = []
    def assume(self, c): self.pc.append(c); self.solver.add(c)
    def sat(self, c):
        self.solver.push(); self.solver.add(c); r = self.solver.check(); self.solver.pop()
        return r != unsat
    def valid(self, c): return not self.sat(Not(c))
    def choose(self, conds):
        """One index of conds (None = no condition); the other feasible ones become further paths."""
        if time.time() > self.deadline: raise Timeout('path exploration took too long')
        if self.pos < len(self.trail): i = self.trail[self.pos]
        else:
            feas = [i for i, c in enumerate(conds) if c is None or self.sat(c)]
            if not feas: raise Infeasible
            i = feas[0]
            for j in feas[1:]: self.alts.append(self.trail[:self.pos] + [j])
            self.trail.append(i)
        self.pos += 1
        if conds[i] is not None: self.assume(conds[i])
        return i
    def fresh(self, name): return f'{name}{next(self.n)}'

def explore(body, cap=60000, secs=400):
    """Runs body() once per path; yields (run, result or exception)."""
    global R
    todo = [[]]; n = 0; deadline = time.time() + secs
    while todo:
        tr = todo.pop(); R = Run(tr, deadline); n += 1
        if n > cap: raise Timeout(f'more than {cap} paths')
        try: out = body(R)
        except Infeasible: todo += R.alts; continue
        except (Reach, Timeout): raise
        except RecursionError as e: raise Reach('recursion on a symbolic tree')
        except Exception as e: out = e
        todo += R.alts
        yield R, out

# ------------------------------------------------------------------ integers
def term(x):
    if isinstance(x, SymInt): return x.t
    if isinstance(x, bool): return IntVal(int(x))
    if isinstance(x, int): return IntVal(x)
    raise Reach(f'integer expected, got {type(x).__name__}')
class SymBool:
    def __init__(self, t): self.t = t
    def __bool__(self):
        s = simplify(self.t)
        if is_true(s): return True
        if is_false(s): return False
        return R.choose([self.t, Not(self.t)]) == 0
    def __and__(self, o): return SymBool(And(self.t, o.t if isinstance(o, SymBool) else BoolVal(bool(o))))
    def __or__(self, o): return SymBool(Or(self.t, o.t if isinstance(o, SymBool) else BoolVal(bool(o))))
    def __invert__(self): return SymBool(Not(self.t))
def num(x): return isinstance(x, (int, SymInt))
class SymInt(int):
    """An int whose value is a z3 term.  The int value proper is a marker far outside any range (a leak is then loud)."""
    def __new__(cls, t):
        s = simplify(t)
        if is_int_value(s): return s.as_long()
        o = int.__new__(cls, 10**30 + len(R.terms)); o.t = t; R.terms.append(o); return o
    def _b(f):
        def g(s, o): return SymInt(f(s.t, term(o))) if num(o) else NotImplemented
        return g
    def _r(f):
        def g(s, o): return SymInt(f(term(o), s.t)) if num(o) else NotImplemented
        return g
    def _c(f):
        def g(s, o): return SymBool(f(s.t, term(o))) if num(o) else NotImplemented
        return g
    __add__ = _b(lambda a, b: a + b); __radd__ = _r(lambda a, b: a + b)
    __sub__ = _b(lambda a, b: a - b); __rsub__ = _r(lambda a, b: a - b)
    __mul__ = _b(lambda a, b: a * b); __rmul__ = _r(lambda a, b: a * b)
    __lt__ = _c(lambda a, b: a < b); __le__ = _c(lambda a, b: a <= b); __gt__ = _c(lambda a, b: a > b); __ge__ = _c(lambda a, b: a >= b)
    def __eq__(s, o): return SymBool(s.t == term(o)) if num(o) else False
    def __ne__(s, o): return SymBool(s.t != term(o)) if num(o) else True
    def __hash__(s): return 0
    def __neg__(s): return SymInt(-s.t)
    def __pos__(s): return s
    def __abs__(s): return SymInt(If(s.t >= 0, s.t, -s.t))
    def __bool__(s): return bool(SymBool(s.t != 0))
    def __str__(s): return tok(s.t)
    def __repr__(s): return tok(s.t)
    def __format__(s, spec):
        if spec.strip('<>^ 0123456789'): raise Reach('formatted symbolic integer')
        return tok(s.t)
    def __index__(s): raise Reach('symbolic integer used as an index')
    def __int__(s): return s
    def _no(*a): raise Reach('operation on a symbolic integer')
    __floordiv__ = __rfloordiv__ = __truediv__ = __rtruediv__ = __mod__ = __rmod__ = __pow__ = __rpow__ = _no
    __lshift__ = __rlshift__ = __rshift__ = __rrshift__ = __and__ = __rand__ = __or__ = __ror__ = __xor__ = __rxor__ = __invert__ = _no
    __divmod__ = __rdivmod__ = __float__ = __round__ = __trunc__ = bit_length = to_bytes = _no
def tok(t):
    s = simplify(t)
    if is_int_value(s): return str(s)
    k = s.sexpr()
    if k not in R.toks: R.toks[k] = (f'‹{len(R.toks)}›', t)
    return R.toks[k][0]
def untok(s):
    """the z3 term a printed integer stands for"""
    s = str(s).strip()
    for k, t in R.toks.values():
        if k == s: return t
    try: return IntVal(int(s))
    except ValueError: return None

def symrange(*a):
    if not any(isinstance(x, SymInt) for x in a): return builtins.range(*a)
    raise Reach('loop over a symbolic range')
def symlen(x):
    if isinstance(x, Kids) and x.many: return x.length()
    if hasattr(type(x), 'symlength'): return x.symlength()
    return builtins.len(x)
class Kids(list):
    """Operand list of an operator with any number (>= 3) of operands: two named ones and one that stands for each of the rest."""
    many = False
    def length(self):
        if not hasattr(self, 'n'): self.n = Int(R.fresh('arity')); R.assume(self.n >= 3)
        return SymInt(self.n)
    def _g(self, i):
        if self.many and not (type(i) is int and 0 <= i < 2): raise Reach('position in an operand list of any length')
        return i
    def __getitem__(self, i): return list.__getitem__(self, self._g(i))
    def __setitem__(self, i, v): return list.__setitem__(self, self._g(i), v)
    def __delitem__(self, i): return list.__delitem__(self, self._g(i))
    def _no(self, *a, **k): raise Reach('edit of an operand list of any length')
    insert = pop = sort = remove = _no

# ------------------------------------------------------------------ trees
RAW = object.__getattribute__
PLAIN = {'allow', 'loc', 'parents', 'replacement', 'type', 'scq_size', 'scq', 'replace', '__dict__', 'sort', 'name', 'rep', 'many', 'wpd', 'bpd', '__hash__', '__eq__',
         '__str__', '__repr__', '__format__', 'get_siblings', 'has_only_tl_parents', 'copy_attrs', '__class__'}
class Hole(cpt.Expression):
    """Any expression of a sort ('B' Boolean, 'I' integer, 'F' floating point)."""
    def __getattribute__(self, a):
        if type(self) is not Hole or a in PLAIN: return RAW(self, a)
        force(self)
        return getattr(self, a)
    def __setattr__(self, a, v):
        if type(self) is Hole and a not in PLAIN: force(self)
        object.__setattr__(self, a, v)
TYPE = {'B': ctypes_.BoolType, 'I': ctypes_.IntType, 'F': ctypes_.FloatType}
def hole(sort, name=None, many=False):
    h = Hole.__new__(Hole); d = RAW(h, '__dict__')
    n = name or R.fresh('h')
    b, w = Int(n + '_bpd'), Int(n + '_wpd')
    d.update(allow=None, loc=LOC, sort=sort, name=n, rep=None, many=many, parents=set(), replacement=None, type=TYPE[sort](), scq_size=-1, scq=(-1, -1), symbol=n)
    d['bpd'] = SymInt(b); d['wpd'] = SymInt(w); R.assume(b <= w)
    R.nodes.append(h)
    return h
def is_hole(n): return type(n) is Hole
def rep(n):
    while RAW(n, '__dict__').get('rep') is not None: n = RAW(n, '__dict__')['rep']
    return n

UN, BI = ('%',), ('%', '%')
TEMP = {'G': K.GLOBAL, 'F': K.FUTURE, 'H': K.HISTORICAL, 'O': K.ONCE, 'U': K.UNTIL, 'R': K.RELEASE, 'S': K.SINCE, 'T': K.TRIGGER}
REL = {'==': K.EQUAL, '!=': K.NOT_EQUAL, '>': K.GREATER_THAN, '<': K.LESS_THAN, '>=': K.GREATER_THAN_OR_EQUAL, '<=': K.LESS_THAN_OR_EQUAL}
LOG2 = {'xor': K.LOGICAL_XOR, '->': K.LOGICAL_IMPLIES, '<->': K.LOGICAL_EQUIV}
ARI = {'-': K.ARITHMETIC_SUBTRACT, '/': K.ARITHMETIC_DIVIDE, 'pow': K.ARITHMETIC_POWER}
INT2 = {'&': K.BITWISE_AND, '|': K.BITWISE_OR, '^': K.BITWISE_XOR, '<<': K.SHIFT_LEFT, '>>': K.SHIFT_RIGHT, '%': K.ARITHMETIC_MODULO}
MULTI = {'&&': K.LOGICAL_AND, '||': K.LOGICAL_OR, '+': K.ARITHMETIC_ADD, '*': K.ARITHMETIC_MULTIPLY}
ARITIES = [2, 3, 4]; MANY = [False]
def kinds(sort):
    """The node kinds of a sort in a type-checked, desugared program."""
    ks = []
    multi = lambda o, s: ks.extend([(o, n, s) for n in ARITIES] + ([(o, 'many', s)] if MANY[0] else []))
    if sort == 'B':
        ks += [('const', True), ('const', False), ('signal',), ('atomic', 'B')]
        ks += [('!',)]
        multi('&&', 'B'); multi('||', 'B')
        ks += [(o,) for o in LOG2] + [(o,) for o in TEMP]
        ks += [(o, s) for o in REL for s in 'BIF' if s != 'B' or o in ('==', '!=')]
        ks += [('prev',)]
    else:
        ks += [('const', None), ('signal',)]
        if sort == 'I': ks += [('tau',)] + [(o,) for o in INT2] + [('~',)]
        multi('+', sort); multi('*', sort)
        ks += [(o,) for o in ARI] + [('neg',), ('abs',), ('prev',)] + ([('sqrt',)] if sort == 'F' else [])
    return ks
def make(h, kind):
    """turns the hole h into a node of the kind"""
    d = RAW(h, '__dict__'); sort = d['sort']; k = kind[0]; name = d['name']
    kid = itertools.count()
    def child(s, many=False): return hole(s, f'{name}.{next(kid)}', many)
    ch = []; cls = cpt.Operator; op = None; ext = {}
    eng = ctypes_.R2U2Engine
    if k == 'const':
        cls = cpt.Constant
        v = kind[1] if sort == 'B' else SymInt(Int(name + '_v')) if sort == 'I' else FloatTok(name)
        ext = dict(value=v, symbol=str(v), engine=eng.TEMPORAL_LOGIC if sort == 'B' else eng.BOOLEANIZER, bpd=0, wpd=0)
        d['type'] = TYPE[sort](True)
    elif k == 'signal': cls = cpt.Signal; ext = dict(symbol='s_' + name, signal_id=-1, engine=eng.NONE, bpd=0, wpd=0)
    elif k == 'tau': cls = cpt.CurrentTimestamp; ext = dict(symbol='TAU', engine=eng.BOOLEANIZER, bpd=0, wpd=0)
    elif k == 'atomic': cls = cpt.Atomic; ch = [child(kind[1])]; ext = dict(symbol='', engine=eng.BOOLEANIZER, bpd=0, wpd=0)
    elif k == '!': op = K.LOGICAL_NEGATE; ch = [child('B')]
    elif k in MULTI and len(kind) == 3:
        op = MULTI[k]
        if kind[1] == 'many': ch = Kids([child(kind[2]), child(kind[2]), child(kind[2], True)]); ch.many = True
        else: ch = [child(kind[2]) for _ in range(kind[1])]
    elif k in LOG2: op = LOG2[k]; ch = [child('B'), child('B')]
    elif k in TEMP:
        cls = cpt.TemporalOperator; op = TEMP[k]; ch = [child('B')] if k in 'GFHO' else [child('B'), child('B')]
        lb, ub = SymInt(Int(name + '_lb')), SymInt(Int(name + '_ub'))
        R.assume(And(lb.t >= 0, lb.t <= ub.t)); ext = dict(interval=cpt.ConcreteInterval(lb, ub))
    elif k in REL: op = REL[k]; ch = [child(kind[1]), child(kind[1])]
    elif k in ARI: op = ARI[k]; ch = [child(sort), child(sort)]
    elif k in INT2: op = INT2[k]; ch = [child('I'), child('I')]
    elif k == '~': op = K.BITWISE_NEGATE; ch = [child('I')]
    elif k in ('neg', 'abs', 'sqrt'): op = {'neg': K.ARITHMETIC_NEGATE, 'abs': K.ARITHMETIC_ABS, 'sqrt': K.ARITHMETIC_SQRT}[k]; ch = [child(sort)]
    elif k == 'prev': op = K.PREVIOUS; ch = [child(sort), child(sort)]
    else: raise Reach(f'kind {kind}')
    if op is not None:
        sym = op.value
        if k in TEMP: sym = f'{op.value}[{lb},{ub}]'
        ext.update(operator=op, symbol=sym)
        ext['engine'] = eng.TEMPORAL_LOGIC if (k in TEMP or k in LOG2 or k in ('!', '&&', '||')) else eng.BOOLEANIZER
    d.update(ext); d['children'] = ch; d['kind'] = kind
    for c in ch: RAW(c, '__dict__')['parents'].add(h)
    object.__setattr__(h, '__class__', cls)
    R.init[id(h)] = snap(h)
    R.nodes.append(h)
class FloatTok(float):
    def __new__(cls, n): o = float.__new__(cls, 0.123456789); o.n = n; return o
    def __str__(s): return '‹f:' + s.n + '›'
    __repr__ = __str__
    def __format__(s, spec): return str(s)
    def _c(s, o): return SymBool(Bool(R.fresh('fcmp')))
    __lt__ = __le__ = __gt__ = __ge__ = _c
    def __eq__(s, o): return s is o or SymBool(Bool(R.fresh('fcmp')))
    def __hash__(s): return 0
def snap(n):
    """the structure of a node: everything its meaning depends on"""
    d = RAW(n, '__dict__')
    ch = d.get('children', [])
    return dict(cls=type(n), op=d.get('operator'), children=list.__getitem__(ch, slice(None)) if isinstance(ch, list) else list(ch), many=getattr(ch, 'many', False),
                interval=d.get('interval'), value=d.get('value'), symbol=d.get('symbol'), fnum=d.get('formula_number'))
def force(h, only=None):
    if type(h) is not Hole: return
    r = RAW(h, '__dict__')['rep']
    if r is not None:
        r = rep(r)
        if type(r) is Hole: force(r, only)
        like(h, r); return
    if RAW(h, '__dict__')['many']: raise Reach('a look into one of arbitrarily many operands')
    ks = allowed(h)
    make(h, ks[R.choose([None]*len(ks))] if len(ks) > 1 else ks[0])
def allowed(h):
    d = RAW(h, '__dict__')
    if d['allow'] is None: d['allow'] = kinds(d['sort'])
    return d['allow']
def split(h, pred):
    """whether the hole is of a kind that satisfies pred: at most two paths, the kind itself stays open"""
    r = rep(h)
    if type(r) is not Hole:
        i = R.init.get(id(r)) or snap(r); return pred(i['cls'], i['op'])
    if RAW(r, '__dict__')['many']: raise Reach('a look into one of arbitrarily many operands')
    ks = allowed(r); yes = [k for k in ks if pred(*what(k))]; no = [k for k in ks if not pred(*what(k))]
    if not yes or not no: return bool(yes)
    ans = R.choose([None, None]) == 0
    RAW(r, '__dict__')['allow'] = yes if ans else no
    return ans
def what(kind):
    """class and operator of a kind"""
    k = kind[0]
    if k in ('const', 'signal', 'tau', 'atomic'): return {'const': cpt.Constant, 'signal': cpt.Signal, 'tau': cpt.CurrentTimestamp, 'atomic': cpt.Atomic}[k], None
    if k in TEMP: return cpt.TemporalOperator, TEMP[k]
    if k in MULTI and len(kind) == 3: return cpt.Operator, MULTI[k]
    return cpt.Operator, {**LOG2, **REL, **ARI, **INT2, '!': K.LOGICAL_NEGATE, '~': K.BITWISE_NEGATE, 'neg': K.ARITHMETIC_NEGATE, 'abs': K.ARITHMETIC_ABS, 'sqrt': K.ARITHMETIC_SQRT, 'prev': K.PREVIOUS}[k]
def like(h, r):
    """h is a node with the same print as r: same kind, operands with the same print"""
    i = R.init.get(id(r)) or snap(r); d = RAW(h, '__dict__'); rd = RAW(r, '__dict__')
    ch = []
    for j, c in enumerate(i['children']):
        x = hole(sort_of(c), f"{d['name']}.{j}"); RAW(x, '__dict__')['rep'] = c; ch.append(x)
        RAW(x, '__dict__')['parents'].add(h)
    for k in ('operator', 'interval', 'value', 'symbol', 'engine', 'kind', 'signal_id'):
        if k in rd: d[k] = rd[k]
    d['children'] = ch
    object.__setattr__(h, '__class__', i['cls']); R.init[id(h)] = snap(h); R.nodes.append(h)
def sort_of(n):
    d = RAW(n, '__dict__')
    if 'sort' in d: return d['sort']
    t = d['type']
    return 'F' if isinstance(t, ctypes_.FloatType) else 'I' if isinstance(t, ctypes_.IntType) else 'B'

# ------------------------------------------------------------------ printing (contract of to_infix_str/to_prefix_str: equal text, equal expression; proved under C03 and C11)
class SymStr(str):
    def __new__(cls, node, how):
        o = str.__new__(cls, how + ':' + text(node)); o.node = node; o.how = how; return o
    def __eq__(s, o):
        if isinstance(o, SymStr): return same(s.node, o.node)
        if isinstance(o, str): return str.__eq__(s, o)
        return NotImplemented
    def __ne__(s, o): r = s.__eq__(o); return r if r is NotImplemented else not r
    def __hash__(s): return 0
def text(n, depth=0):
    if is_hole(n): return RAW(rep(n), '__dict__').get('name', '?')
    d = RAW(n, '__dict__')
    if depth > 40: return '...'
    ch = d.get('children', [])
    s = d.get('symbol', '')
    if isinstance(n, cpt.Formula): return f"{s}: {text(ch[0], depth+1)}"
    if isinstance(n, cpt.Constant): return str(s).lower()
    if not ch: return str(s)
    return '(' + str(s) + ' ' + ' '.join(text(c, depth+1) for c in list.__iter__(ch)) + ')'
def same(a, b):
    """forks on whether two expressions print alike; afterwards they are the same expression"""
    a, b = rep(a), rep(b)
    if a is b: return True
    if is_hole(a) or is_hole(b):
        if sort_of(a) != sort_of(b): return False
        if is_hole(a) and RAW(a, '__dict__')['many'] or is_hole(b) and RAW(b, '__dict__')['many']: raise Reach('print of arbitrarily many operands')
        if inside(a, b) or inside(b, a): return False
        if R.choose([None, None]) == 1: return False
        h, o = (a, b) if is_hole(a) else (b, a)
        RAW(h, '__dict__')['rep'] = o
        return True
    x, y = snap(a), snap(b)
    if x['cls'] is not y['cls'] or x['op'] is not y['op'] or len(x['children']) != len(y['children']): return False
    if x['cls'] is cpt.Constant:
        if type(x['value']) is not type(y['value']) and not (num(x['value']) and num(y['value'])): return False
        return bool(x['value'] == y['value'])
    if not x['children']: return x['symbol'] == y['symbol'] if not str(x['symbol']).startswith('s_') else R.choose([None, None]) == 0 and unify_sig(a, b)
    if (x['interval'] is None) != (y['interval'] is None): return False
    if x['interval'] is not None and not (bool(x['interval'].lb == y['interval'].lb) and bool(x['interval'].ub == y['interval'].ub)): return False
    if x['fnum'] != y['fnum']: return False
    return all(same(p, q) for p, q in zip(x['children'], y['children']))
def unify_sig(a, b):
    x, y = RAW(a, '__dict__'), RAW(b, '__dict__')
    y['symbol'] = x['symbol']; R.init[id(b)]['symbol'] = x['symbol']
    return True
def inside(a, b):
    """whether hole a occurs in b"""
    if is_hole(b): return False
    return any(rep(c) is a or inside(a, rep(c)) for c in RAW(b, '__dict__').get('children', []))

# ------------------------------------------------------------------ patching the imported modules (contracts in place of callees)
def patch(mod, **kw):
    old = {k: mod.__dict__.get(k, _MISSING) for k in kw}
    mod.__dict__.update(kw)
    return lambda: [mod.__dict__.__setitem__(k, v) if v is not _MISSING else mod.__dict__.pop(k, None) for k, v in old.items()]
_MISSING = object()
def patch_dict(d, **kw): d.update(kw)
class Program:
    """A program of which one node is visited: the passes' loops handle one arbitrary node per iteration, in any order."""
    is_dummy = False; is_well_typed = True; total_scq_size = -1; definitions = []; sections = []
    def __init__(self, focal, specs=()):
        self.focal = focal; self.specs = list(specs)
        self.ft_spec_set = FakeSet(focal); self.pt_spec_set = FakeSet(None)
    def postorder(self, ctx=None): return iter([self.focal])
    preorder = postorder; postorder_with_definitions = postorder
    def get_specs(self): return self.specs
    def __repr__(self): return 'program'
    __str__ = __repr__
class FakeSet:
    def __init__(self, focal): self.focal = focal; self.children = []
    def get_specs(self): return []
    def __repr__(self): return 'specs'
    __str__ = __repr__
def symmax(*a, **k): return _mm(True, a, k)
def symmin(*a, **k): return _mm(False, a, k)
def _mm(mx, a, k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if k.get('key') is not None or not any(isinstance(x, SymInt) for x in xs): return (builtins.max if mx else builtins.min)(*([xs] if builtins.len(a) == 1 else a), **k)
    r = xs[0]
    for x in xs[1:]:
        p, q = term(r), term(x)
        r = SymInt(If(q > p, q, p) if mx else If(q < p, q, p))
    return r
def symsum(xs, start=0):
    for x in xs: start = start + x
    return start
def symisinstance(x, c):
    if type(x) is Hole:
        if builtins.isinstance(x, c): return True           # by its class alone: any expression
        return split(x, lambda cls, op: issubclass(cls, c))
    return builtins.isinstance(x, c)
def symtype(*a):
    if len(a) == 1: force(a[0])
    return builtins.type(*a)
BUILTINS = dict(isinstance=symisinstance, len=symlen, range=symrange, max=symmax, min=symmin)
def contract_infix(start): return SymStr(start, 'infix')
def contract_prefix(start, with_internal_labels=False): return SymStr(start, 'prefix')
IS_OPERATOR = cpt.is_operator
def contract_is_operator(expr, operator):
    """contract of cpt.is_operator (proved on every kind): an Operator whose operator is the given one"""
    if type(expr) is Hole: return split(expr, lambda cls, op: op is operator)
    return IS_OPERATOR(expr, operator)
def patch_all(*mods, printing=True):
    un = [patch(m, **BUILTINS) for m in {id(m): m for m in list(mods) + [m for n, m in list(sys.modules.items()) if n.startswith('c2po.')]}.values()]
    un.append(patch(cpt, is_operator=contract_is_operator))
    if printing: un.append(patch(cpt, to_infix_str=contract_infix, to_prefix_str=contract_prefix))
    return lambda: [u() for u in un]

def postorder(start, context=None):
    """contract of cpt.postorder: the nodes, operands first; a hole stands for a subtree that is handled on its own"""
    stack = [(False, x) for x in ([start] if builtins.isinstance(start, cpt.Expression) else list(start))]; seen = set()
    while stack:
        done, x = stack.pop()
        if type(x) is Hole: continue
        if done: yield x; continue
        if id(x) in seen: continue
        seen.add(id(x)); stack.append((True, x))
        for c in reversed(list(list.__iter__(RAW(x, '__dict__')['children']))): stack.append((False, c))
def contract_deepcopy(start, context=None, memo=None):
    """contract of cpt.deepcopy_expr (C10): a copy with the same meaning that shares no node"""
    memo = {} if memo is None else memo
    def cp(x):
        if id(x) in memo: return memo[id(x)]
        d = RAW(x, '__dict__')
        if type(x) is Hole:
            n = hole(d['sort'], R.fresh('copy'), d['many']); RAW(n, '__dict__')['rep'] = x
        else:
            n = object.__new__(type(x)); n.__dict__.update(d); n.__dict__['parents'] = set(); n.__dict__['replacement'] = None
            ch = [cp(c) for c in list.__iter__(d['children'])]; k = builtins.type(d['children'])(ch)
            if getattr(d['children'], 'many', False): k.many = True
            n.__dict__['children'] = k
            for c in ch: RAW(c, '__dict__')['parents'].add(n)
        memo[id(x)] = n
        return n
    return cp(start)
