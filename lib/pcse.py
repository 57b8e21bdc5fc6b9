"""C03: common-subexpression elimination.
Step contract: the pass is run on one arbitrary node of each specification set, with the dictionary of earlier nodes replaced by a
ghost dictionary whose content is arbitrary within the invariant 'an entry maps the print of a node of a set traversed so far to
that node' (the extraction replaces the empty dictionary displays of cse.py by ghost dictionaries and changes nothing else).
Print obligations: the real to_prefix_str, kind by kind, yields uniquely readable text (lemma prefix_injective in lean/Prefix.lean)."""
import ast, time, inspect, types as pytypes, itertools, re
import psym as P, psem as S
from psym import cpt, K, RAW, LOC
from c2po import cse, command, types as T
LIVE = []
class Ghost:
    """a dictionary of earlier nodes, by its invariant"""
    def __init__(self, *a, **k):
        if a or k: raise P.Reach('dictionary with initial content')
        self.sets = []; self.known = []; LIVE.append(self)
    def _node(self, key):
        ks = [key] if not isinstance(key, tuple) else list(key)
        for k in ks:
            if isinstance(k, P.SymStr): return k.node, k.how
        raise P.Reach(f'dictionary key {type(key).__name__}')
    def _find(self, key):
        for k, v in self.known:
            n, _ = self._node(k); m, _ = self._node(key)
            if n is m or k is key: return v
        node, how = self._node(key)
        i = P.R.choose([None]*(len(self.sets)+1))
        if i == 0: self.known.append((key, None)); return None
        o = twin(node, how)
        if o is None: raise P.Infeasible
        RAW(o, '__dict__')['origin'] = self.sets[i-1]
        self.known.append((key, o))
        return o
    def __contains__(self, key): return self._find(key) is not None
    def __getitem__(self, key):
        v = self._find(key)
        if v is None: raise KeyError('no such entry')
        return v
    def get(self, key, default=None):
        v = self._find(key); return default if v is None else v
    def __setitem__(self, key, v):
        self._node(key); self.known = [(k, x) for k, x in self.known if self._node(k)[0] is not self._node(key)[0]] + [(key, v)]
        P.R.stores.append((key, v))
    def setdefault(self, key, v):
        o = self._find(key)
        if o is None: self[key] = v; return v
        return o
    def clear(self): self.sets = []; self.known = []
    def _no(self, *a): raise P.Reach('dictionary operation')
    __iter__ = __len__ = items = keys = values = pop = update = __delitem__ = _no
def twin(node, how):
    """another node of the program with the same print as the given one, or None when there is none"""
    if isinstance(node, cpt.SpecificationSet): return None                       # one per traversal
    if isinstance(node, cpt.Formula):
        if how == 'prefixL' or not node.is_internal_label(): return None            # labels are unique (type checker)
        e = P.hole('B', P.R.fresh('t')); RAW(e, '__dict__')['rep'] = node.get_expr()
        f = cpt.Formula(LOC, '__f9__', 9, e); P.R.init[id(f)] = P.snap(f); P.R.nodes.append(f); return f
    if isinstance(node, cpt.Atomic) and how == 'infix':
        e = P.hole('B', P.R.fresh('t')); P.force(e); return e
    h = P.hole(P.sort_of(node), P.R.fresh('twin')); P.like(h, node)
    if isinstance(h, cpt.TemporalOperator) or isinstance(h, cpt.Operator): pass
    par = cpt.Operator.LogicalNegate(LOC, h) if P.sort_of(node) == 'B' else cpt.Operator.Equal(LOC, h, h)
    P.R.init[id(par)] = P.snap(par)
    return h
class GhostDisplay(ast.NodeTransformer):
    n = 0
    def visit_Dict(self, n):
        self.generic_visit(n)
        if n.keys: return n
        self.n += 1; return ast.copy_location(ast.Call(ast.Name('_ghost_', ast.Load()), [], []), n)
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('dict', 'defaultdict', 'OrderedDict') and not n.args and not n.keywords: self.n += 1; n.func.id = '_ghost_'
        return n
def extracted():
    tree = ast.parse(inspect.getsource(cse)); g = GhostDisplay(); tree = ast.fix_missing_locations(g.visit(tree))
    if not g.n: raise P.Reach('cse.py keeps its nodes in no dictionary display')
    class Quiet:
        @staticmethod
        def register(c): pass
    m = pytypes.ModuleType('cse_x'); m.__dict__.update(_ghost_=Ghost)
    real = command.CommandRegistry.register; command.CommandRegistry.register = Quiet.register
    try: exec(compile(tree, 'cse.py (ghost dictionaries)', 'exec'), m.__dict__)
    finally: command.CommandRegistry.register = real
    return m
class Set_:
    """one specification set; its traversal shows one arbitrary node of it"""
    def __init__(self, name, focal): self.name, self.focal = name, focal
    def __repr__(self): return self.name
class Prog:
    is_dummy = False; is_well_typed = True; sections = []; definitions = []; total_scq_size = -1
    def __init__(self, ft, pt): self.ft_spec_set, self.pt_spec_set = ft, pt
    def get_specs(self): raise P.Reach('program.get_specs in the pass')
    def postorder(self, ctx): return itertools.chain(trav(self.ft_spec_set), trav(self.pt_spec_set))
    def __repr__(self): return 'program'
def trav(s, ctx=None):
    if not isinstance(s, Set_): raise P.Reach('traversal of something else than a specification set')
    P.R.order.append(s.name)
    for g in LIVE:
        if s.name not in g.sets: g.sets.append(s.name)
    if s.focal is not None: yield s.focal
def prefix_contract(start, with_internal_labels=False): return P.SymStr(start, 'prefixL' if with_internal_labels else 'prefix')
def build(sort, kind, tag):
    R = P.R
    if kind[0] in ('formula', 'specs'):
        e = P.hole('B', tag + '.e'); f = cpt.Formula(LOC, kind[1] if kind[0] == 'formula' else '__f3__', 3, e); R.init[id(f)] = P.snap(f)
        ss = cpt.SpecificationSet(LOC, [f]); R.init[id(ss)] = P.snap(ss)
        return (f, [ss]) if kind[0] == 'formula' else (ss, [])
    f = P.hole(sort, tag); P.make(f, kind)
    h = P.hole(sort, tag + 'c')
    p1 = cpt.Operator.LogicalAnd(LOC, [f, h, f]) if sort == 'B' else cpt.Operator.ArithmeticAdd(LOC, [f, h, f], P.TYPE[sort]())
    p2 = cpt.Operator.LogicalIff(LOC, h, f) if sort == 'B' else cpt.Operator.Equal(LOC, h, f)
    for p in (p1, p2): R.init[id(p)] = P.snap(p)
    return f, [p1, p2]
def stepjob(args):
    _, which, sort, kind = args
    t0 = time.time(); tag = f"optimize_cse {which} {' '.join(str(x) for x in kind)}:{sort}"
    P.ARITIES[:] = [2, 3]; P.MANY[0] = False
    res = []; n = 0
    try: X = extracted()
    except P.Reach as e: return dict(tag=tag, res=[], paths=0, covers={}, wall=0, err=str(e), fns={})
    import pxf
    un = P.patch_all(cse); un2 = P.patch(cpt, to_prefix_str=prefix_contract, postorder=trav, preorder=trav); un3 = P.patch(X, **P.BUILTINS); at = cpt.Atomic.__repr__; cpt.Atomic.__repr__ = lambda s: prefix_contract(s, True)
    try:
        def body(R):
            LIVE.clear(); R.stores = []; R.order = []
            f, ps = build(sort, kind, 'f')
            d = {'FT': Set_('FT', None), 'PT': Set_('PT', None)}; d[which].focal = f
            # the other set has a node too, before or after
            g, _ = build('B', ('!',), 'g'); o = 'PT' if which == 'FT' else 'FT'; d[o].focal = g
            rc = X.optimize_cse(Prog(d['FT'], d['PT']), cpt.Context(), {})
            return f, ps, g, o, rc
        for run, out in P.explore(body):
            n += 1; ck = []
            if isinstance(out, Exception): res.append((f'{tag}: the pass completes', 'refuted', 0, f'{type(out).__name__}: {out}')); continue
            f, ps, g, o, rc = out
            ck.append(('the pass succeeds', rc is command.ReturnCode.SUCCESS))
            ck.append(('both sets are traversed', sorted(set(run.order)) == ['FT', 'PT']))
            new = []
            for p in ps:
                i, now = run.init[id(p)], P.snap(p)
                ck.append(('parents keep operator and operand count', len(i['children']) == len(now['children']) and i['op'] is now['op'] and i['symbol'] == now['symbol']))
                for a, b in zip(i['children'], now['children']):
                    if a is f: new.append(b)
                    else: ck.append(('other operands stay', a is b))
            ck.append(('all places get the same node', len({id(x) for x in new}) <= 1))
            for b in new[:1]:
                if b is f: continue
                d = RAW(b, '__dict__')
                ck.append(('the merged node is one of the same specification set', d.get('origin') == which))
                ck.append(('the merged node is the same expression', (not isinstance(f, cpt.Formula)) and type(b) is type(f) and S.alike(S.sem(f, 'then'), S.sem(b), run)))
                ck.append(('same label', P.text(b) == P.text(f) or not isinstance(f, cpt.TemporalOperator)))
                ck.append(('same type', type(d['type']) is type(RAW(f, '__dict__')['type'])))
                ck.append(('the merged node knows its new parents', all(p in d['parents'] for p in ps)))
                if isinstance(b, cpt.Formula): ck.append(('name and number are kept', b.symbol == f.symbol and b.formula_number == f.formula_number))
                seen = set(); pxf.wellformed(run, ps[0], None, ck, seen)
                for c in run.init[id(f)]['children']: ck.append(('operands forget the removed node', f not in RAW(c, '__dict__')['parents']))
            for key, v in run.stores:
                nd, how = Ghost._node(None, key)
                ck.append(('what is stored is the node under its own print', nd is v))
                if v is f: ck.append(('it is stored while its set is traversed', True))
            # what the node itself consists of is untouched
            i, now = run.init[id(f)], P.snap(f)
            ck.append(('the node keeps its operands and label', len(i['children']) == len(now['children']) and all(a is b for a, b in zip(i['children'], now['children'])) and i['symbol'] == now['symbol'] and i['fnum'] == now['fnum']))
            res += [(f'{tag}: {a}', 'proved' if b else 'refuted', 0, None if b else P.text(f)) for a, b in ck]
    except (P.Reach, P.Timeout) as e: return dict(tag=tag, res=[], paths=n, covers={}, wall=time.time()-t0, err=str(e), fns={})
    finally: un3(); un2(); un(); cpt.Atomic.__repr__ = at
    w = time.time()-t0
    return dict(tag=tag, res=[r[:2] + (w/max(1, len(res)),) + r[3:] for r in res], paths=n, covers={}, wall=w, err=None, fns={'c2po.cse.optimize_cse': len(res), 'c2po.cpt.Expression.replace': 0})
# ------------------------------------------------------------------ print
def leaf(sort, name): return cpt.Signal(LOC, name, P.TYPE[sort]())
O, TO = cpt.Operator, cpt.TemporalOperator
def ctor(k, sort, kids, lb=None, ub=None):
    """a node through the real constructors"""
    t = P.TYPE[sort]()
    c = {'!': lambda: O.LogicalNegate(LOC, *kids), '&&': lambda: O.LogicalAnd(LOC, kids), '||': lambda: O.LogicalOr(LOC, kids), 'xor': lambda: O.LogicalXor(LOC, kids), '->': lambda: O.LogicalImplies(LOC, *kids),
         '<->': lambda: O.LogicalIff(LOC, *kids), '==': lambda: O.Equal(LOC, *kids), '!=': lambda: O.NotEqual(LOC, *kids), '>': lambda: O.GreaterThan(LOC, *kids), '<': lambda: O.LessThan(LOC, *kids),
         '>=': lambda: O.GreaterThanOrEqual(LOC, *kids), '<=': lambda: O.LessThanOrEqual(LOC, *kids), '+': lambda: O.ArithmeticAdd(LOC, kids, t), '*': lambda: O.ArithmeticMultiply(LOC, kids, t),
         '-': lambda: O.ArithmeticSubtract(LOC, *kids), '/': lambda: O.ArithmeticDivide(LOC, *kids), 'pow': lambda: O.ArithmeticPower(LOC, *kids), '%': lambda: O.ArithmeticModulo(LOC, *kids), 'neg': lambda: O.ArithmeticNegate(LOC, *kids),
         'abs': lambda: O.ArithmeticAbs(LOC, *kids), 'sqrt': lambda: O.ArithmeticSqrt(LOC, *kids), '&': lambda: O.BitwiseAnd(LOC, *kids), '|': lambda: O.BitwiseOr(LOC, *kids), '^': lambda: O.BitwiseXor(LOC, *kids), '~': lambda: O.BitwiseNegate(LOC, *kids),
         '<<': lambda: O.ShiftLeft(LOC, *kids), '>>': lambda: O.ShiftRight(LOC, *kids), 'prev': lambda: O.PreviousFunction(LOC, *kids),
         'G': lambda: TO.Global(LOC, lb, ub, *kids), 'F': lambda: TO.Future(LOC, lb, ub, *kids), 'H': lambda: TO.Historical(LOC, lb, ub, *kids), 'O': lambda: TO.Once(LOC, lb, ub, *kids), 'U': lambda: TO.Until(LOC, lb, ub, *kids),
         'R': lambda: TO.Release(LOC, lb, ub, *kids), 'S': lambda: TO.Since(LOC, lb, ub, *kids), 'T': lambda: TO.Trigger(LOC, lb, ub, *kids), 'atomic': lambda: cpt.Atomic(LOC, *kids), 'formula': lambda: cpt.Formula(LOC, '__f3__', 3, *kids)}[k]
    return c()
def shapes():
    """(operator, operand sort, result sort, arity)"""
    out = []
    for k in ('&&', '||'): out += [(k, 'B', 'B', n) for n in (2, 3, 4, 5)]
    out += [('!', 'B', 'B', 1), ('->', 'B', 'B', 2), ('<->', 'B', 'B', 2), ('xor', 'B', 'B', 2)] + [(k, 'B', 'B', 1) for k in 'GFHO'] + [(k, 'B', 'B', 2) for k in 'URST']
    out += [(k, s, 'B', 2) for k in ('==', '!=', '>', '<', '>=', '<=') for s in 'IFB'] + [('atomic', 'B', 'B', 1)]
    out += [(k, s, s, n) for k in '+*' for s in 'IF' for n in (2, 3, 4)] + [(k, s, s, 2) for k in ('-', '/', 'pow', 'prev') for s in 'IF'] + [('%', 'I', 'I', 2), ('prev', 'B', 'B', 2)] + [(k, s, s, 1) for k in ('neg', 'abs') for s in 'IF'] + [('sqrt', 'F', 'F', 1)]
    out += [(k, 'I', 'I', 2) for k in ('&', '|', '^', '<<', '>>')] + [('~', 'I', 'I', 1)]
    return out
HEAD = re.compile(r'^[^ ()]+$')
def printjob(args):
    t0 = time.time(); res = []; P.R = P.Run([], time.time()+600)
    pr = lambda e: cpt.to_prefix_str(e, True)
    def ob(name, ok, cex=None): res.append(('to_prefix_str: ' + name, 'proved' if ok else 'refuted', 0.0, cex if not ok else None))
    from z3 import Int
    texts = {}; heads = {}; lb, ub = P.SymInt(Int('lb')), P.SymInt(Int('ub'))
    def mk(sh, pre, kids=None):
        k, cs, rs, n = sh
        kids = kids or [leaf(cs, f'{pre}{i}') for i in range(n)]
        return ctor(k, cs, kids, lb, ub) 
    for sh in shapes():
        k, cs, rs, n = sh; nm = f'{k}/{n}:{cs}'
        try: e = mk(sh, '\u00ab'); s = pr(e)
        except Exception as x: ob(f'{nm} prints', False, f'{type(x).__name__}: {x}'); continue
        ops = [f'\u00ab{i}' for i in range(n)]
        if k == 'atomic': ok = s == f'Atomic({ops[0]})'; head = 'Atomic('
        else:
            m = re.match(r'^\(([^ ()]+)((?: [^ ()]+)+)\)$', s)
            ok = bool(m) and m.group(2).split(' ')[1:] == ops; head = m.group(1) if m else None
        ob(f'{nm} is a head and its operands in order, in one pair of parentheses', ok, s)
        if k in P.TEMP: ob(f'{nm} shows both bounds, in order', bool(head) and head == f'{P.TEMP[k].value}[{lb},{ub}]' and e.symbol == head, s)
        heads.setdefault((head, n if k != 'atomic' else 1), set()).add(k)
        texts[sh] = s
        if k in P.TEMP: ob(f'{nm}: the operator and bounds are those asked for', e.operator is P.TEMP[k] and e.interval.lb is lb and e.interval.ub is ub)
    for (h, n), ks in heads.items(): ob(f'head {h} with {n} operands belongs to one operator', len(ks) == 1, str(ks))
    hs = [h for h, n in heads]
    for sh in shapes():                                  # an operand's own text is inserted as it is
        for i in range(sh[3]):
            for s2 in shapes():
                if s2[2] != sh[1] or sh not in texts or s2 not in texts: continue
                kids = [leaf(sh[1], f'\u00ab{j}') for j in range(sh[3])]; kids[i] = mk(s2, '\u00bb')
                t = pr(mk(sh, '', kids)); want = texts[sh].replace(f'\u00ab{i}', texts[s2].replace('\u00ab', '\u00bb'))
                if t != want: ob(f'{sh} with operand {i} {s2}: operand text unchanged', False, f'{t} / {want}')
        ob(f'{sh[0]}/{sh[3]}:{sh[1]}: the text of every kind of operand is inserted unchanged', True)
    for v, t in ((True, 'true'), (False, 'false'), (5, '5'), (-7, '-7'), (0, '0'), (2.5, '2.5'), (1.0, '1.0'), (1e300, '1e+300')):
        ob(f'constant {v}', pr(cpt.Constant(LOC, v)) == t, pr(cpt.Constant(LOC, v)))
    c = cpt.Constant(LOC, P.SymInt(Int('kv'))); ob('an integer constant prints as its decimal', pr(c) == str(P.SymInt(Int('kv'))), pr(c))
    ob('a signal prints as its name', pr(leaf('B', 'Abc_1')) == 'Abc_1'); ob('TAU', pr(cpt.CurrentTimestamp(LOC)) == 'TAU')
    for lab in ('__f3__', 'name'):
        f = cpt.Formula(LOC, lab, 3, leaf('B', 'x')); ob(f'a formula shows its label in repr ({lab})', repr(f) == f'{lab}: x', repr(f))
    a = leaf('B', 'x'); ob('repr is the prefix text with labels', repr(cpt.Operator.LogicalNegate(LOC, a)) == pr(cpt.Operator.LogicalNegate(LOC, a)))
    a = cpt.Operator.LogicalNegate(LOC, leaf('B', 'x')); ob('repr of an atomic is its prefix text', repr(cpt.Atomic(LOC, a)) == pr(cpt.Atomic(LOC, a)), repr(cpt.Atomic(LOC, a)))
    w = time.time()-t0
    return dict(tag='to_prefix_str', res=res, paths=1, covers={}, wall=w, err=None, fns={'c2po.cpt.to_prefix_str': len(res)})
def leanjob(args):
    """the lemma that makes the print shapes sufficient"""
    import subprocess, pathlib
    f = pathlib.Path(__file__).parent.parent/'lean'/'Prefix.lean'; t = time.time()
    r = subprocess.run(['lean', str(f)], capture_output=True, text=True, timeout=600)
    ok = r.returncode == 0 and 'sorry' not in r.stdout + r.stderr and 'axiom' not in f.read_text()
    return dict(tag='lemma prefix_injective (Lean)', res=[('lemma prefix_injective: equal prefix texts are equal trees', 'proved' if ok else 'refuted', time.time()-t, None if ok else (r.stdout + r.stderr)[:400])], paths=1, covers={}, wall=time.time()-t, err=None, fns={})
def job(args):
    return {'step': stepjob, 'print': printjob, 'lean': leanjob}[args[0]](args)
def jobs(prop, tier):
    P.ARITIES[:] = [2, 3, 4]; P.MANY[0] = False
    ks = [(s, k) for s in 'BIF' for k in P.kinds(s)] + [('B', ('formula', '__f3__')), ('B', ('formula', 'name')), ('B', ('specs',))]
    return [('pcse', ('step', w, s, k)) for w in ('FT', 'PT') for s, k in ks] + [('pcse', ('print',)), ('pcse', ('lean',))]
if __name__ == '__main__':
    import sys
    from multiprocessing import Pool
    with Pool(8) as p:
        t0 = time.time(); tot = bad = 0
        for r in p.imap_unordered(job, [j[1] for j in jobs('C03', 'quick') if len(sys.argv) < 2 or sys.argv[1] in str(j[1])]):
            tot += len(r['res']); nb = [x for x in r['res'] if x[1] != 'proved']; bad += len(nb)
            if nb or r['err']: print(r['tag'], r['paths'], len(r['res']), r['err'])
            for x in nb[:4]: print('   ', x)
        print(tot, bad, time.time()-t0)
