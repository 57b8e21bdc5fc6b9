"""C12: from a name in the map file or trace header to the index in the binary.
line     one arbitrary line of a map file (z3 string) over an arbitrary mapping so far: the real parse_map_file (its empty display made a ghost mapping)
range    array ranges and several lines: bounded enumeration on the real code;  header: a trace header of up to five names, any names (bounded in number)
assign   assign_signal_ids, has_valid_signal_mapping, has_atomic_consistent_signal_mapping: step contracts per visited node over an arbitrary mapping
atomics  compute_atomics per visited node over an arbitrary atomic table: the counter of the running frame is arbitrary within its invariant
guards   assemble emits only after both mapping checks answered yes.   generate: generate_map of up to five variables (bounded in number)
The load instruction of a signal carries its column, of an atomic its identifier: step contracts of C06 (pasm), repeated under this property."""
import ast, inspect, time, types as pytypes, sys, ctypes, re as RE, itertools, builtins
from z3 import *
import psym as P
from psym import cpt, LOC
from c2po import map as MAP, trace as TRC, atomics as ATM, assemble as ASM, command, types as T, util, log
from pdel import prove
import psym
# ------------------------------------------------------------------ strings
class ZS(str):
    """a text of which only a z3 term is known"""
    def __new__(cls, t): o = str.__new__(cls, f'‹text {t.sexpr()[:30]}›'); o.t = t; return o
    def split(s, sep=None, maxsplit=-1):
        if not isinstance(sep, str) or type(sep) is ZS or builtins.len(sep) != 1 or maxsplit >= 0: raise P.Reach('split of a text')
        def flat(t): return [y for x in t.children() for y in flat(x)] if is_app_of(t, Z3_OP_SEQ_CONCAT) else [t]
        out, cur = [], []
        for t in flat(s.t):                  # texts between the separators, if it is known where these are
            if is_string_value(t):
                ps = t.as_string().split(sep); cur += [StringVal(ps[0])] if ps[0] else []
                for x in ps[1:]: out.append(cur); cur = [StringVal(x)] if x else []
            elif P.R.valid(Not(Contains(t, StringVal(sep)))): cur.append(t)
            else: raise P.Reach('split of a text')
        return [ZS(StringVal('') if not c else c[0] if builtins.len(c) == 1 else Concat(*c)) for c in out + [cur]]
    def rsplit(s, *a): raise P.Reach('text operation')
    def _strip(s, *a):
        if a: raise P.Reach('strip')
        nows = Diff(AllChar(ReSort(StringSort())), WS)
        if P.R.valid(InRe(s.t, Union(Re(''), nows, Concat(nows, Full(ReSort(StringSort())), nows)))): return s
        m = String(P.R.fresh('stripped')); l, r = String(P.R.fresh('sp')), String(P.R.fresh('sp')); W = Star(WS)
        P.R.assume(And(s.t == Concat(l, m, r), InRe(l, W), InRe(r, W), Not(InRe(m, Union(Concat(Plus(WS), Full(ReSort(StringSort()))), Concat(Full(ReSort(StringSort())), Plus(WS)))))))
        return ZS(m)
    strip = _strip
    def startswith(s, p, *a):
        if a or not isinstance(p, str) or type(p) is ZS: raise P.Reach('startswith')
        return P.SymBool(PrefixOf(StringVal(p), s.t))
    def endswith(s, p, *a):
        if a or not isinstance(p, str) or type(p) is ZS: raise P.Reach('endswith')
        return P.SymBool(SuffixOf(StringVal(p), s.t))
    def __contains__(s, x): return bool(P.SymBool(Contains(s.t, zt(x))))
    def find(s, x, *a):
        if a: raise P.Reach('find')
        return P.SymInt(IndexOf(s.t, zt(x), 0))
    def __eq__(s, o): return P.SymBool(s.t == zt(o)) if isinstance(o, str) else False
    def __ne__(s, o): return P.SymBool(s.t != zt(o)) if isinstance(o, str) else True
    def __hash__(s): return 0
    def __add__(s, o): return ZS(Concat(s.t, zt(o)))
    def __radd__(s, o): return ZS(Concat(zt(o), s.t))
    def __getitem__(s, i):
        if isinstance(i, slice) and i.step is None:
            a = IntVal(0) if i.start is None else P.term(i.start); b = Length(s.t) if i.stop is None else P.term(i.stop)
            P.R.assume(And(a >= 0, b >= 0)) if not all(isinstance(x, int) and not isinstance(x, P.SymInt) and x >= 0 for x in (i.start or 0, i.stop or 0)) else None
            return ZS(SubString(s.t, a, b - a))
        raise P.Reach('character of a text')
    def __bool__(s): return bool(P.SymBool(s.t != StringVal('')))
    def isdigit(s): return P.SymBool(InRe(s.t, Plus(DIG)))
    def _no(*a, **k): raise P.Reach('text operation')
    __len__ = __iter__ = __mul__ = __mod__ = lower = upper = replace = partition = rpartition = lstrip = rstrip = index = rfind = join = format = encode = _no
    __str__ = lambda s: s
    def __format__(s, spec): return str.__str__(s)
def zt(x): return x.t if type(x) is ZS else StringVal(x) if isinstance(x, str) else (_ for _ in ()).throw(P.Reach('text expected'))
WS = Union(*[Re(c) for c in ' \t']); DIG = Range('0', '9')
def regex(pat):
    """z3 regular expression of a pattern of the re module (the forms used in c2po)"""
    import re._parser as sp, re._constants as C
    CAT = {C.CATEGORY_DIGIT: DIG, C.CATEGORY_SPACE: WS, C.CATEGORY_WORD: Union(Range('a', 'z'), Range('A', 'Z'), DIG, Re('_'))}
    anych = Diff(AllChar(ReSort(StringSort())), Re('\n'))
    def one(op, av):
        if op is C.LITERAL: return Re(chr(av))
        if op is C.NOT_LITERAL: return Diff(AllChar(ReSort(StringSort())), Re(chr(av)))
        if op is C.ANY: return anych
        if op is C.IN:
            neg = av[0][0] is C.NEGATE; u = [CAT[b] if a is C.CATEGORY else Range(chr(b[0]), chr(b[1])) if a is C.RANGE else Re(chr(b)) for a, b in av if a is not C.NEGATE]
            u = u[0] if builtins.len(u) == 1 else Union(*u)
            return Diff(AllChar(ReSort(StringSort())), u) if neg else u
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, body = av; x = seq(body)
            if hi is C.MAXREPEAT: return Star(x) if lo == 0 else Plus(x) if lo == 1 else Concat(*[x] * lo, Star(x))
            return Option(x) if (lo, hi) == (0, 1) else Loop(x, lo, hi)
        if op is C.SUBPATTERN: return seq(av[3])
        if op is C.BRANCH: return Union(*[seq(x) for x in av[1]])
        raise P.Reach(f'regular expression with {op}')
    def seq(l):
        l = [one(*x) for x in l]
        return Re('') if not l else l[0] if builtins.len(l) == 1 else Concat(*l)
    try: return seq(sp.parse(pat))
    except (KeyError, TypeError) as e: raise P.Reach(f'regular expression {pat}')
class Match:
    def _no(self, *a): raise P.Reach('groups of a match')
    group = groups = __getitem__ = start = end = span = groupdict = _no
    def __bool__(self): return True
class Rx:
    """the re module on symbolic texts"""
    def __init__(self, pat=None): self.pat = pat
    def _go(self, how, pat, s, fl=0):
        if type(s) is not ZS: return getattr(RE, how)(pat, s, fl)
        if fl: raise P.Reach('flags of a regular expression')
        r = regex(pat); any_ = Full(ReSort(StringSort()))
        if how == 'match': r = Concat(r, any_)
        elif how == 'search': r = Concat(any_, r, any_)
        return Match() if P.R.choose([InRe(s.t, r), Not(InRe(s.t, r))]) == 0 else None
    def match(self, *a): return self._go('match', *(a if self.pat is None else (self.pat, *a)))
    def fullmatch(self, *a): return self._go('fullmatch', *(a if self.pat is None else (self.pat, *a)))
    def search(self, *a): return self._go('search', *(a if self.pat is None else (self.pat, *a)))
    def compile(self, pat, fl=0): return Rx(pat)
    def __getattr__(self, k): raise P.Reach(f're.{k}')
def toint(x, *a):
    if type(x) is not ZS: return int(x, *a)
    if a: raise P.Reach('int of a text')
    s = x.strip()
    if P.R.choose([InRe(s.t, Plus(DIG)), Not(InRe(s.t, Plus(DIG)))]) == 1:
        if P.R.choose([InRe(s.t, Concat(Union(Re('+'), Re('-')), Plus(DIG))), Not(InRe(s.t, Concat(Union(Re('+'), Re('-')), Plus(DIG))))]) == 0: raise P.Reach('number with a sign')
        raise ValueError('invalid literal for int()')
    return P.SymInt(StrToInt(s.t))
def ifalse(x, c):
    if c is str and type(x) is ZS: return True
    return builtins.isinstance(x, c)
# ------------------------------------------------------------------ ghost mapping
class Mapping:
    """a mapping with arbitrary contents; what is written is remembered in order"""
    def __init__(self): self.put = []; self.know = {}
    def key(self, k): return ('z', k.t.get_id()) if type(k) is ZS else ('s', k) if isinstance(k, str) else ('o', id(k))
    def has(self, k):
        for x, v in reversed(self.put):
            if x is k or (isinstance(x, str) and isinstance(k, str) and bool(x == k)): return True
        e = self.know.setdefault(self.key(k), [None, None, k])
        if e[0] is None: e[0] = P.R.choose([None, None]) == 0
        return e[0]
    __contains__ = has
    def __getitem__(self, k):
        if not self.has(k): raise KeyError(k)
        for x, v in reversed(self.put):
            if x is k or (isinstance(x, str) and isinstance(k, str) and bool(x == k)): return v
        e = self.know[self.key(k)]
        if e[1] is None: e[1] = self.fresh()
        return e[1]
    def fresh(self): t = Int(P.R.fresh('col')); P.R.assume(t >= 0); return P.SymInt(t)
    def get(self, k, d=None): return self[k] if self.has(k) else d
    def __setitem__(self, k, v): self.put.append((k, v))
    def update(self, o):
        for k, v in (o.items() if hasattr(o, 'items') else o): self[k] = v
    def setdefault(self, k, d=None):
        if not self.has(k): self[k] = d
        return self[k]
    def copy(self): return self
    def _no(self, *a, **k): raise P.Reach('mapping operation')
    __iter__ = keys = values = items = __len__ = pop = __delitem__ = clear = __bool__ = __eq__ = _no
    __hash__ = object.__hash__
class Displays(ast.NodeTransformer):
    n = 0
    def visit_Expr(self, node):                # log.debug lines are dropped
        self.generic_visit(node); return ast.copy_location(ast.Pass(), node) if ast.unparse(node).startswith('log.debug(') else node
    def visit_Dict(self, node):
        if node.keys: return node
        Displays.n += 1; return ast.copy_location(ast.Call(ast.Name('__ghost', ast.Load()), [], []), node)
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == 'dict' and not node.args and not node.keywords: Displays.n += 1; node.func.id = '__ghost'
        return node
def ghosted(mod, fn, **ns):
    """the functions of mod with empty dictionary displays made ghost mappings; nothing else is changed"""
    tree = ast.parse(inspect.getsource(mod)); Displays.n = 0
    fs = [Displays().visit(f) for f in tree.body if isinstance(f, (ast.FunctionDef, ast.Assign, ast.AnnAssign)) and not (isinstance(f, ast.Assign) and 'command' in ast.unparse(f).lower())]
    m = ast.Module(fs, []); ast.fix_missing_locations(m); g = dict(mod.__dict__); g.update(ns)
    exec(compile(m, mod.__file__, 'exec'), g)
    return g[fn]
class Lines:
    """the lines of a file: one arbitrary line"""
    def __init__(self, l): self.l = l
    def __iter__(self): return iter(self.l)
    def index(self, x): return P.SymInt(Int(P.R.fresh('at')))
    def symlength(self): t = Int(P.R.fresh('lines')); P.R.assume(t >= 1); return P.SymInt(t)
    def __getitem__(self, i):
        if isinstance(i, slice): return self
        if i == 0: return self.l[0]
        raise P.Reach('line by number')
class Content:
    def __init__(self, ls): self.ls = ls
    def splitlines(self, *a): return Lines(self.ls)
    def split(self, sep=None): return Lines(self.ls) if sep == '\n' else (_ for _ in ()).throw(P.Reach('split of a file'))
class Quiet:
    def __getattr__(self, k):
        if k == 'FileLocation': return lambda *a: None
        return lambda *a, **kw: P.R.__dict__.setdefault('said', []).append(k)
class Ctx: pass
def zlen(x): return x.symlength() if isinstance(x, Lines) else builtins.len(x)
NAME = regex(r'[a-zA-Z_][a-zA-Z0-9_\[\]\.]*'); RANGE = regex(r'[a-zA-Z_][a-zA-Z0-9_\[\]\.]*\.\.[a-zA-Z0-9_\[\]\.]*')
FORM = Concat(NAME, Re(':'), Plus(DIG))
def world(missing):
    c = Ctx(); c.signal_mapping = None; c.map_filename = None; c.trace_filename = None; c.trace_length = -1
    calls = []
    def assign(p, ctx, m): calls.append(m); return list(missing)
    return c, calls, assign
def linejob(kind):
    """one arbitrary line"""
    res = []; n = 0; t0 = time.time(); tag = f'parse_map_file, {kind}'
    def body(R):
        R.solver.set('timeout', 20000); L = String('line'); line = ZS(L); nm, dg = String('name'), String('digits'); L = Concat(nm, StringVal(':'), dg); line = ZS(L); o = {'filename': 'f'}
        R.assume(InRe(nm, Intersect(NAME, Complement(Concat(Full(ReSort(StringSort())), Re('..'), Full(ReSort(StringSort()))))))); R.assume(InRe(dg, Plus(DIG)))
        missing = ['m'] if R.choose([None, None]) else []; ctx, calls, assign = world(missing); fake = pytypes.SimpleNamespace(**{**cpt.__dict__, 'assign_signal_ids': assign})
        f = ghosted(MAP, 'parse_map_file', __ghost=Mapping, re=Rx(), int=toint, len=zlen, cpt=fake, log=Quiet(), isinstance=ifalse, util=pytypes.SimpleNamespace(read_file=lambda p: Content([line])))
        r = f(None, ctx, o); m = ctx.signal_mapping
        ok = isinstance(m, Mapping) and builtins.len(m.put) == 1 and calls == [m]
        return [('the name gets the number as its column', And(zt(m.put[0][0]) == nm, P.term(m.put[0][1]) == StrToInt(dg)) if ok else BoolVal(False)),
                ('the answer is success exactly when every used variable has a column', BoolVal((r is command.ReturnCode.SUCCESS) == (not missing) and (not missing) == (not r.is_error())))]
    for R, out in P.explore(body, 4000, 240):
        n += 1
        if isinstance(out, (TypeError, AttributeError)): raise P.Reach(f'{type(out).__name__}: {out}')
        if isinstance(out, Exception):
            res.append((f'{tag}: completes', 'refuted', 0.0, f'{type(out).__name__}: {out}')); continue
        for nm_, g in out: res.append(prove2(f'{tag}: {nm_}', R.pc, g))
    return dict(tag=tag, res=res, paths=n, covers={}, wall=time.time() - t0, err=None, fns={'c2po.map.parse_map_file': builtins.len(res)})
def prove2(nm, pc, goal):
    """z3 with strings"""
    t = time.time(); s = Solver(); s.set('timeout', 30000); s.add(*pc); s.add(Not(goal)); r = s.check()
    if r == unknown: raise P.Reach(f'{nm}: undecided')
    return (nm, 'proved' if r == unsat else 'refuted', time.time() - t, None if r == unsat else str(s.model())[:300])
def boundedjob():
    """array ranges, several lines, headers, generated maps: real code, real texts and dictionaries"""
    res = []; t0 = time.time(); n = 0
    un = P.patch(log, error=lambda *a, **k: None, warning=lambda *a, **k: None, internal=lambda *a, **k: None)
    try:
        def parse(text, missing=()):
            c, calls, assign = world(missing); u = [P.patch(util, read_file=lambda p: text), P.patch(cpt, assign_signal_ids=assign)]
            try: r = MAP.parse_map_file(None, c, {'filename': 'f'})
            finally: [x() for x in u]
            return r, c, calls
        def say(nm, ok, why): res.append((nm, 'proved' if ok else 'refuted', 0.0, None if ok else why))
        bad = None
        for b in ('a', 'arr_1', '_Z9'):
            for lo in list(range(0, 13)) + [99]:
                for hi in [x for x in range(lo, lo + 4)] + [max(lo, 11)]:
                    for k in (0, 3, 10):
                        t = f'{b}[{lo}..{hi}]:{k}'; r, c, calls = parse(t); n += 1
                        if r.is_error() or c.signal_mapping != {f'{b}[{i}]': k + i - lo for i in range(lo, hi + 1)} or calls != [c.signal_mapping]: bad = bad or f'{t} gives {r} {c.signal_mapping}'
        say('parse_map_file: an array range maps its elements to consecutive columns (bounded: three names, indices up to 102, columns up to 10)', bad is None, bad); bad = None
        for k in range(0, 6):
            for cs in itertools.product('a:1 .[-]' if k < 5 else 'a:1 .', repeat=k):
                t = ''.join(cs); n += 1
                try: r, c, calls = parse(t + '\nq:7')
                except ValueError: continue                 # reported as an error of the command
                m = RE.fullmatch(r'\s*([a-zA-Z_][a-zA-Z0-9_\[\].]*)\s*:\s*(\d+)\s*', t)
                if r.is_error(): ok = not RE.fullmatch(r'[a-zA-Z_][a-zA-Z0-9_\[\].]*:\d+', t)
                else: ok = m and c.signal_mapping == {m[1]: int(m[2]), 'q': 7} or not t.strip() and c.signal_mapping == {'q': 7}
                if not ok: bad = bad or f'{t!r} gives {r} {c.signal_mapping}'
        say('parse_map_file: a line that is no name:number is refused (bounded: at most 5 characters)', bad is None, bad); bad = None
        ls = ['a:0', 'a:1', 'b:2', 'b[0..1]:4', 'b[1]:7', 'c.d:3']; one = lambda l: {'b[0]': 4, 'b[1]': 5} if '..' in l else {l.split(':')[0]: int(l.split(':')[1])}
        for k in (0, 1, 2, 3):
            for sel in itertools.permutations(ls, k):
                w = {}
                for l in sel: w.update(one(l))
                r, c, calls = parse('\n'.join(sel) + ('\n' if k % 2 else '')); n += 1
                if r.is_error() or c.signal_mapping != w: bad = bad or f'{sel} gives {c.signal_mapping}'
        say('parse_map_file: the last line for a name decides (bounded: at most 3 lines)', bad is None, bad); bad = None
        for k in range(1, 6):
            for sel in itertools.product('pqr' if k > 3 else ['p', 'q', 'x_1', 'w[0]'], repeat=k):
                for sep, head, rows in ((',', '#', 2), (', ', '# ', 0), (' , ', '#', 1)):
                    for missing in ((), ('z',)):
                        t = '\n'.join([head + sep.join(sel)] + ['0,1'] * rows); c, calls, assign = world(missing); u = [P.patch(util, read_file=lambda p: t), P.patch(cpt, assign_signal_ids=assign)]
                        try: r = TRC.parse_trace_file(None, c, {'filename': 'f'})
                        except Exception as e: r = e
                        finally: [x() for x in u]
                        n += 1; w = {}
                        for i, s in enumerate(sel): w[s] = i
                        if isinstance(r, Exception) or r.is_error() != bool(missing) or c.signal_mapping != w or calls != [w] or (not missing and c.trace_length != rows): bad = bad or f'{t!r} gives {r!r} {c.signal_mapping} {c.trace_length}'
        say('parse_trace_file: the n-th name of the header gets column n, the right-most one decides (bounded: at most 5 names)', bad is None, bad); bad = None
        for t, w in (('0,1\n1,0', 2), ('1', 1)):
            c, calls, assign = world(()); c.signal_mapping = m0 = {'p': 5}; u = [P.patch(util, read_file=lambda p: t), P.patch(cpt, assign_signal_ids=assign)]
            try: r = TRC.parse_trace_file(None, c, {'filename': 'f'})
            finally: [x() for x in u]
            if r.is_error() or c.signal_mapping is not m0 or m0 != {'p': 5} or c.trace_length != w: bad = bad or f'{t!r}'
            n += 1
        say('parse_trace_file: a file without header leaves the mapping alone', bad is None, bad); bad = None
        for k in range(0, 6):
            for valid in (True, False):
                c = cpt.Context(); c.signal_mapping = {'old': 3}; calls = []
                for s in 'pqrst'[:k]: c.signals[s] = T.BoolType()
                u = [P.patch(cpt, has_valid_signal_mapping=lambda p, x: valid, assign_signal_ids=lambda p, x, m: calls.append(dict(m)) or [])]
                try: r = MAP.generate_map(None, c, {'output': None})
                finally: [x() for x in u]
                n += 1; m = c.signal_mapping
                if valid: ok = m == {'old': 3}
                else: ok = set(m) == set('pqrst'[:k]) and sorted(m.values()) == list(range(k)) and calls == [m]
                if r.is_error() or not ok: bad = bad or f'{k} variables: {m}'
        say('generate_map: every variable gets a column of its own (bounded: at most 5 variables)', bad is None, bad)
    finally: un()
    return dict(tag='maps, ranges, headers', res=[], bres=res, paths=n, covers={}, wall=time.time() - t0, err=None, fns={'c2po.map.parse_map_file': 0, 'c2po.trace.parse_trace_file': 0, 'c2po.map.generate_map': 0})
# ------------------------------------------------------------------ programs of arbitrary nodes
class Prog:
    is_dummy = False; is_well_typed = True; definitions = []
    def __init__(self, es): self.es = es
    def postorder(self, c=None): return iter(self.es)
    preorder = postorder; postorder_with_definitions = postorder; preorder_with_definitions = postorder
def signal(nm): f = cpt.Signal(LOC, ZS(String(nm)), T.BoolType()); f.signal_id = P.SymInt(Int('id ' + nm)); return f
def node(R, nm):
    """an arbitrary node: a signal, or something else"""
    if R.choose([None, None]) == 0: return signal(nm)
    return cpt.Operator.LogicalNegate(LOC, signal('under ' + nm)) if R.choose([None, None]) == 0 else cpt.Constant(LOC, True)
def assignjob(which):
    res = []; n = 0; t0 = time.time()
    def body(R):
        a, b = node(R, 'a'), node(R, 'b'); es = [a, b]; m = Mapping(); c = Ctx(); c.signal_mapping = m; c.enable_booleanizer = False; sg = [e for e in es if type(e) is cpt.Signal]
        old = [e.signal_id if type(e) is cpt.Signal else None for e in es]
        if which == 'assign':
            miss = cpt.assign_signal_ids(Prog(es), c, m); out = []
            if m.put: return [('the mapping is not changed', BoolVal(False))]
            for e, o in zip(es, old):
                if type(e) is cpt.Signal:
                    if m.has(e.symbol): out += [('the signal gets the column of its name', P.term(e.signal_id) == P.term(m[e.symbol]))]
                    else: out += [('a signal without a column is reported', Or(*[zt(x) == e.symbol.t for x in miss] + [BoolVal(False)]))]
            for x in miss: out.append(('only signals without a column are reported', BoolVal(any(x is e.symbol for e in sg if not m.has(e.symbol)))))
            return out
        if which == 'valid':
            r = bool(cpt.has_valid_signal_mapping(Prog(es), c)); w = And(*[BoolVal(False) if not m.has(e.symbol) else P.term(e.signal_id) == P.term(m[e.symbol]) for e in sg])
            return [('yes exactly when every signal has the column of its name', w if r else Not(w))]
        if which == 'consistent':
            am = Mapping(); c.atomic_id_map = am; c.enable_booleanizer = bz = R.choose([None, None]) == 0
            r = bool(cpt.has_atomic_consistent_signal_mapping(Prog(es), c)); w = And(*[BoolVal(False) if not am.has(e) else P.term(e.signal_id) == P.term(am[e]) for e in sg])
            return [('without booleanizer: yes exactly when every signal is loaded from its column', BoolVal(r) if bz else w if r else Not(w))]
        am = Mapping(); c.atomic_id_map = am; at = cpt.Atomic(LOC, signal('x')); es.append(at); c.enable_booleanizer = bz = R.choose([None, None]) == 0
        r = bool(cpt.has_computed_atomics(Prog(es), c)); w = all(am.has(e) for e in ([at] if bz else sg + [at]))
        return [('yes exactly when every atomic has an identifier', BoolVal(r == w))]
    for R, out in P.explore(body, 20000, 200):
        n += 1
        if isinstance(out, (TypeError, AttributeError)): raise P.Reach(f'{type(out).__name__}: {out}')
        if isinstance(out, Exception): res.append((f'{which}: completes', 'refuted', 0.0, f'{type(out).__name__}: {out}')); continue
        for nm, g in out: res.append(prove2(f'{which}: {nm}', R.pc, g))
    fn = dict(assign='assign_signal_ids', valid='has_valid_signal_mapping', consistent='has_atomic_consistent_signal_mapping', computed='has_computed_atomics')[which]
    return dict(tag=fn, res=res, paths=n, covers={}, wall=time.time() - t0, err=None, fns={'c2po.cpt.' + fn: builtins.len(res)})
# ------------------------------------------------------------------ atomics
class Ids(Mapping):
    """atomic table with arbitrary contents, all identifiers at most top"""
    def __init__(self, top): super().__init__(); self.top = top; self.old = []
    def fresh(self): t = Int(P.R.fresh('aid')); P.R.assume(And(t >= 0, t <= self.top)); return P.SymInt(t)
    def has(self, k):
        if type(k) is cpt.Atomic and k not in self.old: self.know[self.key(k)] = [False, None, k]     # a node made in this run is in no table
        return super().has(k)
    __contains__ = has
    def values(self): return Vals([v for k, v in self.put], [self.top])
    def __bool__(self): return P.R.choose([None, None]) == 0
class Exprs(Mapping):
    def keys(self): return Vals([k for k, v in self.put], [self.top])
class Vals:
    def __init__(self, own, tops): self.own, self.tops = list(own), tops
    def __add__(self, o): return Vals(self.own + (o.own if isinstance(o, Vals) else list(o)), self.tops + (o.tops if isinstance(o, Vals) else []))
    __or__ = __add__
    def __radd__(self, o): return Vals(list(o) + self.own, self.tops)
    def __contains__(self, x):
        for v in self.own:
            if bool(v == x): return True
        return P.R.choose([Or(*[P.term(x) <= t for t in self.tops]), None]) == 0
    def __iter__(self): raise P.Reach('iteration over a table of any size')
    __len__ = __bool__ = __iter__
def vmax(*a, **k):
    x = a[0] if builtins.len(a) == 1 else list(a)
    if not isinstance(x, Vals): return P.symmax(*a, **k)
    m = Int(P.R.fresh('max')); P.R.assume(And(*[m >= P.term(v) for v in x.own], *[m >= t for t in x.tops])); return P.SymInt(m)
class vlist(list):
    def __new__(cls, x=()): return x if isinstance(x, Vals) else builtins.list(x)
class vset(set):
    def __new__(cls, x=()): return x if isinstance(x, Vals) else builtins.set(x)
def frame_ints(fr, new):
    """the integer variables of a running frame are replaced by new(name, value)"""
    d = fr.f_locals; ch = False
    for k, v in list(d.items()):
        if isinstance(v, int) and not isinstance(v, bool): w = new(k, v); d[k] = w; ch = True
    if ch: ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(fr), ctypes.c_int(0))
def atomicsjob(bz, kind, mode):
    """mode: 'first' the node visited first over an arbitrary table; 'any' after any number of others (counter havocked within: above every identifier in use); 'two' two new ones"""
    res = []; n = 0; t0 = time.time(); tag = f'compute_atomics, {"" if bz else "no "}booleanizer, {kind}, {mode}'
    code = ghosted(ATM, 'compute_atomics', __ghost=dict, max=vmax, list=vlist, set=vset, log=Quiet())
    if 1:
        def body(R):
            top, cols = Int('top'), Int('columns'); R.assume(And(top >= -1, cols >= -1)); c = Ctx(); am = Ids(top); ex = Exprs(); ex.top = top; c.atomic_id_map, c.atomic_expr_map, c.enable_booleanizer = am, ex, bz
            sm = Ids(cols); c.signal_mapping = sm; c.signals = {}
            def mk(nm):
                if kind == 'signal': e = signal(nm); e.engine = T.R2U2Engine.BOOLEANIZER if bz else T.R2U2Engine.NONE
                elif kind == 'booleanizer node': e = cpt.Operator.Equal(LOC, signal(nm + '1'), signal(nm + '2')); e.engine = T.R2U2Engine.BOOLEANIZER
                elif kind == 'constant': e = cpt.Constant(LOC, True); e.engine = T.R2U2Engine.TEMPORAL_LOGIC
                elif kind == 'atomic': e = cpt.Atomic(LOC, signal(nm))
                else: e = cpt.Operator.LogicalNegate(LOC, signal(nm)); e.engine = T.R2U2Engine.TEMPORAL_LOGIC
                if type(e) is cpt.Signal:       # an identifier, if it has one, is a column of the mapping
                    R.assume(And(P.term(e.signal_id) >= -1, P.term(e.signal_id) <= cols))
                ps = []
                for i in range(1 if mode == 'two' else R.choose([None, None, None])):
                    p = cpt.Operator.LogicalAnd(LOC, [signal('s'), signal('t')]) if i else cpt.Operator.LogicalNegate(LOC, signal('s'))
                    p.engine = T.R2U2Engine.TEMPORAL_LOGIC if mode == 'two' or R.choose([None, None]) == 0 else T.R2U2Engine.BOOLEANIZER; ps.append(p)
                    at = list(range(builtins.len(p.children))) if R.choose([None, None]) == 0 else [builtins.len(p.children) - 1]
                    for j in at: p.children[j] = e
                e.parents = set(ps); return e, ps, [list(p.children) for p in ps]
            todo = [mk('a')] + ([mk('b')] if mode == 'two' else [])
            am.old = [e for e, _, _ in todo]
            class G(Prog):
                def postorder(self, ctx=None):
                    fr = sys._getframe(1)
                    if mode == 'any':
                        def inv(k, v):
                            if not all(R.valid(g) for g in [P.term(v) > top] + ([] if bz else [P.term(v) > cols])): raise P.Reach(f'loop variable {k} does not start above the identifiers in use')
                            w = Int('at ' + k); R.assume(And(w > top, *([] if bz else [w > cols]))); return P.SymInt(w)
                        frame_ints(fr, inv)
                    for e, _, _ in todo: yield e
                    if mode == 'any':
                        def keep(k, v):
                            for x, i in am.put:
                                if type(x) is cpt.Signal and not R.valid(P.term(x.signal_id) < 0): continue
                                if not R.valid(P.term(v) > P.term(i)): raise P.Reach(f'loop variable {k} does not stay above the identifiers in use')
                            return v
                        frame_ints(fr, keep)
            known = [am.has(e) for e, _, _ in todo]; r = code(G([]), c, {}); out = [('succeeds', BoolVal(r is command.ReturnCode.SUCCESS))]
            fresh = []
            for x, i in am.put:
                out.append(('the identifier leads back to its atomic', BoolVal(any(y is x and (j is i or bool(j == i)) for j, y in ex.put))))
                if type(x) is cpt.Signal:
                    out.append(('a signal with a column is the atomic of that column', Implies(P.term(x.signal_id) >= 0, P.term(i) == P.term(x.signal_id))))
                    out.append(('an identifier made up is no column and belongs to nobody else', Implies(P.term(x.signal_id) < 0, And(P.term(i) > top, P.term(i) > cols))))
                    fresh.append((x, i, P.term(x.signal_id) < 0))
                else: out.append(('a new identifier belongs to nobody else', P.term(i) > top)); fresh.append((x, i, BoolVal(True)))
            for (x, i, g), (y, j, h) in itertools.combinations(fresh, 2): out.append(('two new identifiers differ', Implies(And(g, h), P.term(i) != P.term(j))) if x is not y else ('once', BoolVal(False)))
            for (e, ps, before), kn in zip(todo, known):
                tl = [p for p in ps if p.engine is T.R2U2Engine.TEMPORAL_LOGIC]; at = [x for x, _ in am.put if type(x) is cpt.Atomic and x.children[0] is e]
                need = bz and not kn and kind in ('signal', 'booleanizer node') and tl
                if not bz: out.append(('a signal is an atomic, nothing else is', BoolVal(any(x is e for x, _ in am.put) == (kind == 'signal' and not kn))))
                else: out.append(('an atomic is made exactly for a booleanizer node under a temporal-logic one', BoolVal(builtins.len(at) == (1 if need else 0) and builtins.len(am.put) <= builtins.len(todo))))
                for p, b in zip(ps, before):
                    want = [at[0] if need and p in tl and y is e else y for y in b] if at or not need else b
                    out.append(('temporal-logic parents take the atomic, others keep the node (bounded: two parents)', BoolVal(all(u is v for u, v in zip(p.children, want)) and builtins.len(want) == builtins.len(p.children))))
                    if need and at and p in tl: out.append(('and are its parents', BoolVal(p in at[0].parents)))
            return out
        for R, out in P.explore(body, 20000, 200):
            n += 1
            if isinstance(out, (TypeError, AttributeError)): raise P.Reach(f'{type(out).__name__}: {out}')
            if isinstance(out, Exception): res.append((f'{tag}: completes', 'refuted', 0.0, f'{type(out).__name__}: {out}')); continue
            for nm, g in out: res.append(prove(f'{tag}: {nm}', R.pc, g))
    two = [x for x in res if mode == 'two' or 'bounded' in x[0]]
    return dict(tag=tag, res=[x for x in res if x not in two], bres=two, paths=n, covers={}, wall=time.time() - t0, err=None, fns={'c2po.atomics.compute_atomics': builtins.len(res)})
# ------------------------------------------------------------------ guards
def guardjob():
    """any outcome of the checks: code is emitted only if the mapping checks said yes after the atomics were computed"""
    res = []; n = 0; t0 = time.time(); gs = [g for g in vars(command).values() if isinstance(g, command.CommandGuard)]
    import c2po.main as MAIN
    A = {x.name: x for x in command.CommandRegistry.commands}
    def body(R):
        events = []
        def pred(g): return lambda p, c: (events.append((g.name, R.choose([None, None]) == 0)), events[-1][1])[1]
        def fn(nm): return lambda p, c, o: (events.append(('run ' + nm, True)), command.ReturnCode.SUCCESS)[1]
        new = {g: command.CommandGuard(g.name, pred(g)) for g in gs}; kf = {k: (A[k].func, A[k].guards) for k in A if not isinstance(A[k], command.CompositeCommand)}
        un = P.patch(command, GUARD_DEPENDENCIES={new[g]: [new[x] for x in l] for g, l in command.GUARD_DEPENDENCIES.items()})
        try:
            for k in kf: A[k].func = fn(k); A[k].guards = [new[g] for g in A[k].guards]
            for nm in ('assemble', 'unsafe_assemble'):
                events.clear()
                if A[nm].check_guards(None, None) is None: A[nm].execute(None, None, {'binary_filename': 'x'})
                if ('run unsafe_assemble', True) in events:
                    k = events.index(('run unsafe_assemble', True)); last = max([i for i, e in enumerate(events[:k]) if e[0].startswith('run ')], default=-1)
                    for w in ('VALID_SIGNAL_MAPPING', 'ATOMIC_CONSISTENT_SIGNAL_MAPPING', 'COMPUTED_ATOMICS'):
                        g = getattr(command, w).name; res.append((f'{nm}: emits only after the check "{g}"', 'proved' if (g, True) in events[last+1:k] and (g, False) not in events[last+1:k] else 'refuted', 0.0, str(events[-6:])))
        finally:
            un()
            for k in kf: A[k].func, A[k].guards = kf[k]
    for R, out in P.explore(body, 5000, 100):
        n += 1
        if isinstance(out, Exception): raise P.Reach(f'{type(out).__name__}: {out}')
    for nm, g, f in (('VALID_SIGNAL_MAPPING', command.VALID_SIGNAL_MAPPING, cpt.has_valid_signal_mapping), ('ATOMIC_CONSISTENT_SIGNAL_MAPPING', command.ATOMIC_CONSISTENT_SIGNAL_MAPPING, cpt.has_atomic_consistent_signal_mapping), ('COMPUTED_ATOMICS', command.COMPUTED_ATOMICS, cpt.has_computed_atomics)):
        res.append((f'{nm} is the check under contract', 'proved' if g.predicate is f else 'refuted', 0.0, str(g.predicate)))
    if not any('emits' in x[0] for x in res): raise P.Reach('nothing is emitted on any path')
    return dict(tag='guards of assemble', res=res, paths=n, covers={}, wall=time.time() - t0, err=None, fns={'c2po.command.Command.check_guards': builtins.len(res), 'c2po.command.CompositeCommand.execute': builtins.len(res)})
def job(a):
    try: return dict(l=linejob, b=boundedjob, s=assignjob, a=atomicsjob, g=guardjob)[a[0]](*a[1:])
    except (P.Reach, P.Timeout) as e: return dict(tag=str(a), res=[], paths=0, covers={}, wall=0, err=str(e), fns={})
def jobs(prop='C12', tier='quick'):
    js = [('l', 'a line name:number'), ('b',), ('g',)] + [('s', x) for x in ('assign', 'valid', 'consistent', 'computed')]
    js += [('a', bz, k, m) for bz in (True, False) for k in ('signal', 'booleanizer node', 'constant', 'atomic', 'other') for m in ('first', 'any', 'two')]
    import pasm
    load = [(m, j) for m, j in pasm.jobs() if j[0] == 's' and j[2][0] in ('signal', 'atomic')]
    return [('pmap', j) for j in js] + load + [('ptype', j) for j in (('l', 'signal', True), ('l', 'signal', False))]
if __name__ == '__main__':
    import importlib
    from multiprocessing import Pool
    t0 = time.time(); tot = bad = 0
    def go(x): return importlib.import_module(x[0]).job(x[1])
    with Pool(8) as p:
        for r in p.imap_unordered(go, [j for j in jobs() if builtins.len(sys.argv) < 2 or sys.argv[1] in str(j)]):
            rr = r['res'] + r.get('bres', []); tot += builtins.len(rr); nb = [x for x in rr if x[1] != 'proved']; bad += builtins.len(nb)
            if nb or r['err'] or not rr: print(r['tag'], r['paths'], builtins.len(rr), r['err'], round(r['wall'], 1))
            for x in nb[:3]: print('   ', str(x)[:300])
    print(tot, bad, time.time() - t0)
