"""C09: compute_bounds under contract.  A list of instructions (aliases, formulas, names) is one arbitrary element e followed by any others.
Comprehensions of the real code are evaluated over such lists: what they select from the others is a fresh unknown, its length and its sum are
unknown numbers >= 0, the same with and without e.  Obligations: with e every bound grows at least by what the monitor uses for e (contract of the
loader, C06 and M08), no bound shrinks, and an empty program has bounds >= 0; every column of the map and every atomic has its place."""
import ast, inspect, itertools, textwrap, time, builtins
from z3 import *
import psym as P
from psym import cpt, LOC
from c2po import assemble as A, types as T
from pdel import prove
class Ghost:
    """a collection: own elements, and unknown others (site: which comprehension they come from)"""
    def __init__(self, own, site): self.own, self.site = list(own), site
    def __iter__(self): raise P.Reach('iteration over a list of any size')
    __len__ = __getitem__ = __contains__ = __bool__ = __iter__
    def __add__(self, o): return Ghost(self.own + (o.own if isinstance(o, Ghost) else list(o)), self.site if not isinstance(o, Ghost) else f'{self.site}+{o.site}')
    def __radd__(self, o): return Ghost(list(o) + self.own, self.site)
    def values(self): return Ghost([v for k, v in self.own], self.site + 'v')
    def keys(self): return Ghost([k for k, v in self.own], self.site + 'k')
    items = lambda self: self
def num(nm, ge=0):
    t = Int(nm); P.R.assume(t >= ge); return P.SymInt(t)
def comp(kind, elt, cond, src, site):
    if isinstance(src, Ghost):
        g = Ghost([elt(x) for x in src.own if cond(x)], f'{src.site}/{site}'); return g
    if kind in ('gen', 'list'): return [elt(x) for x in src if cond(x)]
    return {elt(x) for x in src if cond(x)}
def glen(x): return num(f'len {x.site}') + builtins.len(x.own) if isinstance(x, Ghost) else builtins.len(x)
def gsum(x, start=0):
    if not isinstance(x, Ghost): return builtins.sum(x, start)
    r = num(f'sum {x.site}') + start
    for v in x.own: r = r + v
    return r
def gmax(*a, **k):
    x = a[0] if len(a) == 1 else list(a); own = x.own if isinstance(x, Ghost) else list(x)
    if not isinstance(x, Ghost) and not any(isinstance(v, P.SymInt) for v in own): return builtins.max(*a, **k)
    if 'default' in k: own = own + [k['default']]            # at most: the default is not counted when there are others (weaker: any number)
    m = Int(f'max {getattr(x, "site", "")} {len(P.R.terms)}')
    if 'default' in k: own = own[:-1]
    P.R.assume(And(*[m >= P.term(v) for v in own]) if own else BoolVal(True))
    if isinstance(x, Ghost): P.R.assume(m >= Int(f'max {x.site}'))
    else: P.R.assume(Or(*[m == P.term(v) for v in own]))
    return P.SymInt(m)
def gset(x=()): return Ghost(x.own, x.site + 's') if isinstance(x, Ghost) else builtins.set(x)
class Comp(ast.NodeTransformer):
    """comprehensions with one generator become calls of comp: nothing else changes"""
    n = 0
    def go(self, node, kind):
        self.generic_visit(node)
        if len(node.generators) != 1: return node
        g = node.generators[0]; Comp.n += 1
        names = [n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)]
        def lam(body):
            if isinstance(g.target, ast.Name): return ast.Lambda(ast.arguments([], [ast.arg(names[0])], None, [], [], None, []), body)
            inner = ast.Lambda(ast.arguments([], [ast.arg(n) for n in names], None, [], [], None, []), body)     # (a, b) targets
            return ast.Lambda(ast.arguments([], [ast.arg('__x')], None, [], [], None, []), ast.Call(inner, [ast.Starred(ast.Name('__x', ast.Load()), ast.Load())], []))
        cond = ast.BoolOp(ast.And(), list(g.ifs)) if len(g.ifs) > 1 else g.ifs[0] if g.ifs else ast.Constant(True)
        return ast.copy_location(ast.Call(ast.Name('__comp', ast.Load()), [ast.Constant(kind), lam(node.elt), lam(cond), g.iter, ast.Constant(Comp.n)], []), node)
    def visit_ListComp(self, n): return self.go(n, 'list')
    def visit_GeneratorExp(self, n): return self.go(n, 'gen')
    def visit_SetComp(self, n): return self.go(n, 'set')
def ghostly():
    """compute_bounds of /repo with its comprehensions made calls; helpers of the module alike"""
    tree = ast.parse(inspect.getsource(A)); ns = dict(A.__dict__); Comp.n = 0
    fs = [Comp().visit(f) for f in tree.body if isinstance(f, ast.FunctionDef)]
    m = ast.Module(fs, []); ast.fix_missing_locations(m)
    ns.update(__comp=comp, len=glen, sum=gsum, max=gmax, set=gset)
    exec(compile(m, A.__file__, 'exec'), ns)
    return ns['compute_bounds']
C, I, L = A.CGType, A.TLInstruction, None
def elements():
    """one element of a list of instructions: (name, maker, {bound: what the monitor uses for it})"""
    v = lambda nm: num(nm); out = []
    for o in A.BZOperator.__members__.values(): out.append((f'BZ {o.name}', lambda o=o: A.BZInstruction(A.EngineTag.BZ, v('id'), o, v('op1'), v('op2')), {'R2U2_MAX_BZ_INSTRUCTIONS': 1}))
    D, S = A.TLOperandType.DIRECT, A.TLOperandType.SUBFORMULA
    for E in (A.FTOperator, A.PTOperator):
        for o in E.__members__.values():
            if o.name in ('CONFIG', 'NOP'): continue
            out.append((f'TL {E.__name__[:2]} {o.name}', lambda o=o: A.TLInstruction(A.EngineTag.TL, v('id'), o, S, v('op1'), S, v('op2')), {'R2U2_MAX_TL_INSTRUCTIONS': 1}))
        for temp in (False, True):
            out.append((f'CG {E.__name__[:2]} SCQ{" temporal" if temp else ""}', lambda E=E, temp=temp: A.CGInstruction(A.EngineTag.CG, C.SCQ, A.TLInstruction(A.EngineTag.TL, v('id'), E.CONFIG, A.TLOperandType.ATOMIC, v('op1'), A.TLOperandType.ATOMIC if temp else A.TLOperandType.NONE, 0)), {'R2U2_MAX_QUEUE_SLOTS': 'op1'}))
        out.append((f'CG {E.__name__[:2]} TEMP', lambda E=E: A.CGInstruction(A.EngineTag.CG, C.TEMP, A.TLInstruction(A.EngineTag.TL, v('id'), E.CONFIG, S, v('op1'), S, v('op2'))), {'R2U2_MAX_TEMPORAL_OPERATORS': 1}))
    for ty, w in ((A.AliasType.FORMULA, 'F'), (A.AliasType.CONTRACT, 'C')):
        out.append((f'alias {w}', lambda ty=ty: A.AliasInstruction(ty, Text(), ['0']), {'R2U2_MAX_AUX_BYTES': 'name'}))
    return out
class Text(str):
    """a name of any length"""
class Ctx: pass
def textlen(x): return num('name') if type(x) is Text else glen(x)
KEYS = ['R2U2_MAX_AUX_BYTES', 'R2U2_AUX_MAX_FORMULAS', 'R2U2_AUX_MAX_CONTRACTS', 'R2U2_MAX_SIGNALS', 'R2U2_MAX_ATOMICS', 'R2U2_MAX_BZ_INSTRUCTIONS', 'R2U2_MAX_TL_INSTRUCTIONS', 'R2U2_MAX_TEMPORAL_OPERATORS', 'R2U2_MAX_QUEUE_SLOTS']
def world(instr=(), formulas=(), contracts=(), signals=(), columns=(), atomics=(), bz=True, empty=False):
    g = (lambda own, site: Ghost(own, site)) if not empty else (lambda own, site: dict(own) if site in ('contracts', 'signals', 'columns', 'atomics') else list(own))
    c = Ctx(); c.assembly = g(instr, 'assembly'); c.contracts = g(contracts, 'contracts'); c.signals = g(signals, 'signals'); c.signal_mapping = g(columns, 'columns')
    c.atomic_id_map = g(atomics, 'atomics'); c.enable_booleanizer = bz
    p = Ctx(); p.get_specs = lambda: g(formulas, 'formulas')
    return p, c
def val(d, k): return P.term(d[k][0])
def boundjob(what):
    res = []; n = 0; t0 = time.time()
    f = ghostly(); f.__globals__['len'] = textlen
    def each(body, tag):
        nonlocal n
        for R, out in P.explore(body, 4000, 200):
            n += 1
            if isinstance(out, (TypeError, AttributeError)): raise P.Reach(f'{type(out).__name__}: {out}')
            if isinstance(out, Exception): res.append((f'{tag}: completes', 'refuted', 0.0, f'{type(out).__name__}: {out}')); continue
            for nm, goal in out: res.append(prove(f'{tag}: {nm}', R.pc, goal))
    if what == 'instructions':
        for name, mk, use in elements():
            def body(R):
                bz = R.choose([None, None]) == 0; e = mk()
                a, b = f(*world(bz=bz)), f(*world([e], bz=bz)); u = {k: (1 if x == 1 else Int('name') + 1 if x == 'name' else Int('op1')) for k, x in use.items()}
                return [(k, val(b, k) - val(a, k) >= u.get(k, 0)) for k in KEYS if k not in ('R2U2_MAX_ATOMICS', 'R2U2_MAX_SIGNALS')]
            each(body, f'compute_bounds with one more {name}')
    elif what == 'empty':
        each(lambda R: [(k, val(d, k) >= 0) for d in [f(*world(empty=True, bz=R.choose([None, None]) == 0))] for k in KEYS], 'compute_bounds of nothing')
    elif what == 'formulas':
        def body(R):
            a, b = f(*world()), f(*world(formulas=[cpt.Formula(LOC, 'x', 3, cpt.Signal(LOC, 'a', T.BoolType()))]))
            return [(k, val(b, k) - val(a, k) >= (1 if k == 'R2U2_AUX_MAX_FORMULAS' else 0)) for k in KEYS if k not in ('R2U2_MAX_ATOMICS', 'R2U2_MAX_SIGNALS')]
        each(body, 'compute_bounds with one more formula')
        def body(R):
            a, b = f(*world()), f(*world(contracts=[('x', Ctx())]))
            return [(k, val(b, k) - val(a, k) >= (1 if k == 'R2U2_AUX_MAX_CONTRACTS' else 0)) for k in KEYS if k not in ('R2U2_MAX_ATOMICS', 'R2U2_MAX_SIGNALS')]
        each(body, 'compute_bounds with one more contract')
    elif what == 'columns':
        def body2(R):
            i = num('column'); d = f(*world(instr=[], columns=[('s', i)], bz=True)); z = val(d, 'R2U2_MAX_BZ_INSTRUCTIONS')
            return [('every mapped column has a place in the atomics when there is no booleanizer instruction', Implies(z == 0, val(d, 'R2U2_MAX_ATOMICS') > Int('column')))]
        def body3(R):
            i = num('atomic'); d = f(*world(atomics=[('e', i)], bz=R.choose([None, None]) == 0))
            return [('every atomic has a place', val(d, 'R2U2_MAX_ATOMICS') > Int('atomic'))]
        each(body2, 'compute_bounds'); each(body3, 'compute_bounds')
        def bodybz(R):
            i = num('column'); d = f(*world(columns=[('s', i)], bz=True)); return [('every mapped column has a place in the signal vector', val(d, 'R2U2_MAX_SIGNALS') > Int('column'))]
        each(bodybz, 'compute_bounds')
        def sigs(R):
            d = f(*world(signals=[('s', T.BoolType())], bz=True)); e = f(*world(bz=True)); return [('one more signal shrinks no bound', And(*[val(d, k) >= val(e, k) for k in KEYS if k not in ('R2U2_MAX_SIGNALS', 'R2U2_MAX_ATOMICS')]))]
        each(sigs, 'compute_bounds')
    return dict(tag=f'compute_bounds, {what}', res=res, paths=n, covers={}, wall=time.time()-t0, err=None, fns={'c2po.assemble.compute_bounds': len(res)})
def writejob():
    """bounded: the header has every bound of compute_bounds once, as large as computed and at least 1 (arrays of size zero are not C)"""
    import re, tempfile, random
    t0 = time.time(); bres = []; rng = random.Random(5); n = 0
    for k in range(40):
        d = {key: (rng.choice([0, 1, 2, 7, 300, 70000]), 'text', rng.choice(['c', 'c rust', 'rust']) if i > 8 else 'c rust') for i, key in enumerate(KEYS)}; d['R2U2_FLOAT_EPSILON'] = (0.00001, 'text', 'c')
        un = P.patch(A, compute_bounds=lambda *a: d)
        with tempfile.TemporaryDirectory() as w:
            try: A.write_bounds_c(None, None, dict(filename=w + '/b.h', print=False)); s = open(w + '/b.h').read(); got = re.findall(r'^#define (R2U2_\w+) (\S+)$', s, re.M); bad = None
            except Exception as e: got, bad = [], f'{type(e).__name__}: {e}'
            finally: un()
        m = dict(got); n += 1
        for key, (x, _, tg) in d.items():
            if sum(a == key for a, _ in got) != 1: bad = bad or f'{key} is written {sum(a == key for a, _ in got)} times'
            elif isinstance(x, int) and not (m[key].isdigit() and int(m[key]) >= max(x, 1)): bad = f'{key} = {x} is written as {m[key]}'
            elif isinstance(x, float) and abs(float(m[key].rstrip('fF')) - x) > 1e-9: bad = f'{key} = {x} is written as {m[key]}'
        bres.append(('write_bounds_c writes every bound once', 'refuted' if bad else 'proved', 0.0, bad))
        if bad: break
    return dict(tag='write_bounds_c (bounded)', res=[], bres=bres, paths=n, covers={}, wall=time.time()-t0, err=None, fns={'c2po.assemble.write_bounds_c (bounded)': 0})
def jobs(prop, tier):
    import cload, llir, pasm
    text = llir.extract()
    js = [('pbnd', w) for w in ('instructions', 'empty', 'formulas', 'columns', 'write')] + [('cload', (w, text)) for w in cload.jobs()]
    return js
def job(a):
    t0 = time.time()
    try: return writejob() if a == 'write' else boundjob(a)
    except (P.Reach, P.Timeout, OSError, SyntaxError) as e: return dict(tag=f'compute_bounds, {a}', res=[], paths=0, covers={}, wall=time.time()-t0, err=f'{type(e).__name__}: {e}', fns={})
if __name__ == '__main__':
    for a in ('instructions', 'empty', 'formulas', 'columns', 'write'):
        r = job(a); rr = r['res'] + r.get('bres', []); bad = [x for x in rr if x[1] != 'proved']; print(a, len(rr), len(bad), r['err'], round(r['wall'], 1), bad[:4])
