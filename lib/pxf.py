"""C01, C02: meaning preservation of C2PO's formula passes, per visited node, by symbolic execution of the passes themselves."""
import time, random, itertools, hashlib, traceback
from z3 import *
import psym as P, psem as S
from psym import cpt, K, RAW, LOC
from c2po import rewrite, transform, command, types as T
PASSES = {
 'optimize_rewrites': (rewrite, 'optimize_rewrites'), 'to_bnf': (transform, 'to_bnf'), 'to_nnf': (transform, 'to_nnf'),
 'multi_operators_to_binary': (transform, 'multi_operators_to_binary'), 'flatten_multi_operators': (transform, 'flatten_multi_operators'),
 'remove_extended_operators': (transform, 'remove_extended_operators'), 'sort_operands_by_pd': (transform, 'sort_operands_by_pd'),
 'remove_release_operators': (transform, 'remove_release_operators')}
CORE = {K.LOGICAL_AND, K.LOGICAL_OR, K.LOGICAL_EQUIV, K.LOGICAL_NEGATE, K.UNTIL, K.RELEASE, K.SINCE, K.TRIGGER}
def focals():
    P.ARITIES[:] = [2, 3, 4, 5, 6]; P.MANY[0] = True
    out = [('B', k) for k in P.kinds('B')] + [('I', k) for k in P.kinds('I')] + [('F', k) for k in P.kinds('F')]
    P.ARITIES[:] = [2, 3]; P.MANY[0] = False
    return out + [('B', ('formula',)), ('B', ('specs',))]
def build(sort, kind):
    """the node the pass looks at, somewhere in a program: operand of two parents, in several places"""
    R = P.R
    if kind[0] in ('formula', 'specs'):
        e = P.hole('B', 'f.0')
        f = cpt.Formula(LOC, 'phi', 7, e); R.init[id(f)] = P.snap(f); R.nodes.append(f)
        if kind[0] == 'formula':
            ss = cpt.SpecificationSet(LOC, [f]); R.init[id(ss)] = P.snap(ss); R.nodes.append(ss)
            return f, [ss]
        ss = cpt.SpecificationSet(LOC, [f]); R.init[id(ss)] = P.snap(ss); R.nodes.append(ss)
        return ss, []
    f = P.hole(sort, 'f'); P.make(f, kind)
    h = [P.hole(sort, f'c{i}') for i in range(3)]
    mk = (lambda *c: cpt.Operator.LogicalAnd(LOC, list(c))) if sort == 'B' else (lambda *c: cpt.Operator.ArithmeticAdd(LOC, list(c), P.TYPE[sort]()))
    mk2 = (lambda *c: cpt.Operator.LogicalIff(LOC, *c)) if sort == 'B' else (lambda *c: cpt.Operator.Equal(LOC, *c))
    ps = [mk(f, h[0], f), mk2(h[1], f)]
    if sort == 'B': ps.append(cpt.Formula(LOC, 'phi', 7, f))
    for p in ps: R.init[id(p)] = P.snap(p); R.nodes.append(p)
    return f, ps
def wellformed(run, root, old, checks, seen):
    """of what the pass built: arities, interval bounds, labels, parent links"""
    todo = [root]; n = 0
    while todo:
        x = todo.pop()
        if id(x) in seen: continue
        seen.add(id(x)); n += 1
        if n > 300: checks.append(('no endless expression', False)); return
        if P.is_hole(x): continue
        d = RAW(x, '__dict__')
        for c in list.__iter__(d['children']):
            if not isinstance(c, cpt.Expression): checks.append(('operands are expressions', False)); return
            if x not in RAW(c, '__dict__')['parents']: checks.append((f'parent link of an operand of {P.text(x)}', False))
            todo.append(c)
        if id(x) in run.init: continue
        if isinstance(x, cpt.TemporalOperator):
            lb, ub = x.interval
            try: ok = run.valid(And(P.term(lb) >= 0, P.term(lb) <= P.term(ub)))
            except P.Reach: ok = False
            checks.append((f'0 <= lb <= ub in new {x.symbol}', ok))
            want = f'{x.operator.value}[{lb},{ub}]'
            checks.append((f'label {x.symbol} of a new node shows its interval', x.symbol == want))
        elif isinstance(x, cpt.Operator): checks.append((f'label of a new node', x.symbol == x.operator.value))
def runpass(mod, fn, focal, ps):
    prog = P.Program(focal); ctx = cpt.Context()
    return getattr(mod, fn)(prog, ctx, {})
def paths(pname, sort, kind, lower=False, cap=60000, secs=300):
    mod, fn = PASSES[pname]
    others = [m for m, _ in PASSES.values()]
    un = P.patch_all(rewrite, transform)
    real_post, real_pre = cpt.postorder, cpt.preorder
    def trav(real):
        def t(start, ctx):
            if isinstance(start, P.FakeSet): return iter([start.focal] if start.focal is not None else [])
            return real(start, ctx)
        return t
    un2 = P.patch(cpt, postorder=trav(real_post), preorder=trav(real_pre))
    try:
        def body(R):
            focal, ps = build(sort, kind)
            nodes0 = [(n, R.init[id(n)]) for n in R.nodes if id(n) in R.init]
            rc = runpass(mod, fn, focal, ps)
            return focal, ps, rc
        for run, out in P.explore(body, cap, secs): yield run, out
    finally:
        un2(); un()
def outcome(run, out, pname):
    """obligations of one path: (name, status, model, old, new)"""
    if isinstance(out, Exception): yield ('the pass completes', 'refuted', None, f'{type(out).__name__}: {out}', ''); return
    focal, ps, rc = out
    if rc is not command.ReturnCode.SUCCESS: yield ('the pass succeeds', 'refuted', None, str(rc), '')
    checks, seen = [], set()
    try:
        old = S.sem(focal, 'then')
        news = []
        for p in ps:
            i, now = run.init[id(p)], P.snap(p)
            if len(i['children']) != len(now['children']) or i['op'] != now['op'] or i['symbol'] != now['symbol'] or i['fnum'] != now['fnum'] or i['cls'] is not now['cls']:
                checks.append((f'the parent keeps its operator, operand count, name and number', False)); continue
            for j, (a, b) in enumerate(zip(i['children'], now['children'])):
                if a is focal:
                    if not any(b is x for x in news): news.append(b)
                elif a is not b: checks.append(('other operands of the parent stay', False))
        if len(news) > 1: checks.append(('all places of the node get the same replacement', False))
        for b in news or [focal]:
            wellformed(run, b, old, checks, seen)
            st, m = S.equal(run, old, S.sem(b, 'now'))
            yield ('same value as the visited node', st, m, S.show(old), S.show(S.sem(b, 'now')), b)
            if pname != 'optimize_rewrites' or b is not focal:
                tt = run.init[id(focal)]
                checks.append(('the replacement has the type of the node', type(RAW(b, '__dict__')['type']) is type(RAW(focal, '__dict__')['type'])))
        for p in ps: wellformed(run, p, old, checks, seen)
        for n in list(run.nodes):
            if n is focal or P.is_hole(n) or any(n is p for p in ps): continue
            i = run.init.get(id(n))
            if i is None: continue
            now = P.snap(n)
            if all((now[k] is i[k]) or (k == 'children' and len(now[k]) == len(i[k]) and all(a is b for a, b in zip(now[k], i[k]))) or (k in ('symbol', 'fnum', 'value') and now[k] == i[k]) for k in now): continue
            st, m = S.equal(run, S.sem(n, 'then'), S.sem(n, 'now'))
            yield ('an operand that other formulas may share keeps its value', st, m, S.show(S.sem(n, 'then')), S.show(S.sem(n, 'now')), n)
    except S.Bad as e: checks.append((f'the result is an expression ({e})', False))
    for n, ok in checks: yield (n, 'proved' if ok else 'refuted', None, '', '', None)
KNOWN = {'equal-false': 'p == false (or false == p) is rewritten to p', 'nnf-not-xor': 'to_nnf turns !(p xor q) into (!p && q) && (p && !q)'}
def known_keys():
    import check
    return {k for _, k in check.known()}
def known(pname, run, focal, b):
    """the listed findings, recognised by what goes in and what comes out"""
    try: old, new = S.sem(focal, 'then'), S.sem(b, 'now')
    except Exception: return None
    if pname == 'optimize_rewrites' and old[0] == 'uf' and old[1] == 'EQUAL2':
        a, c = old[3]
        if a == S.FALSE and S.alike(new, c, run) or c == S.FALSE and S.alike(new, a, run): return 'equal-false'
    if pname == 'to_nnf' and old[0] == 'not' and old[1][0] == 'not' and old[1][1][0] == 'iff':
        p, q = old[1][1][1:]
        w = ('and', [('and', [('not', p), q]), ('and', [p, ('not', q)])])
        if S.alike(new, w, run): return 'nnf-not-xor'
    return None
def lowering(run, out, kind):
    """after remove_extended_operators: the node is a core operator with two or fewer operands, what is new below it too"""
    if isinstance(out, Exception): return
    focal, ps, rc = out
    b = None
    for p in ps:
        for a, c in zip(run.init[id(p)]['children'], P.snap(p)['children']):
            if a is focal: b = c
    if b is None: return
    todo = [b]; seen = set()
    while todo:
        x = todo.pop()
        if id(x) in seen or P.is_hole(x): continue
        seen.add(id(x))
        if x is not focal and id(x) in run.init: continue          # an operand, visited on its own
        if cpt.is_logical_operator(x) or cpt.is_temporal_operator(x):
            yield (f'{x.symbol} left by the lowering is an operator of the monitor', 'proved' if x.operator in CORE and len(x.children) <= 2 else 'refuted', None, S.show(S.sem(focal, 'then')), P.text(b), None)
        todo += list(list.__iter__(RAW(x, '__dict__')['children']))
def binary(run, out):
    if isinstance(out, Exception): return
    focal, ps, rc = out
    for p in ps:
        for a, c in zip(run.init[id(p)]['children'], P.snap(p)['children']):
            if a is focal:
                todo = [c]
                while todo:
                    x = todo.pop()
                    if P.is_hole(x) or (x is not focal and id(x) in run.init): continue
                    if isinstance(x, cpt.Operator) and x.operator in (K.LOGICAL_AND, K.LOGICAL_OR, K.ARITHMETIC_ADD, K.ARITHMETIC_MULTIPLY):
                        yield ('operators left are binary', 'proved' if len(x.children) <= 2 else 'refuted', None, '', P.text(c), None)
                    todo += list(list.__iter__(RAW(x, '__dict__')['children']))
def job(args):
    if args[0] == 'lemmas': return lemma_job(args)
    if args[0] == 'tree': return treejob(args)
    pname, sort, kind, tier = args
    t0 = time.time(); tag = f"{pname} {' '.join(str(x) for x in kind)}:{sort}"
    P.ARITIES[:] = [2, 3]; P.MANY[0] = False
    res = []; n = 0; kf = set(); skip = None; cex_budget = 6; keys = known_keys()
    try:
        for run, out in paths(pname, sort, kind):
            n += 1
            obs = list(outcome(run, out, pname))
            if pname == 'remove_extended_operators': obs += list(lowering(run, out, kind))
            if pname == 'multi_operators_to_binary' and kind[0] in P.MULTI: obs += list(binary(run, out))
            for o in obs:
                name, st, m = o[:3]
                if st != 'proved' and len(o) > 5 and o[5] is not None and not isinstance(out, Exception):
                    k = known(pname, run, out[0], o[5])
                    if k and k in keys: kf.add(KNOWN[k]); continue
                cex = None
                if st != 'proved' and cex_budget > 0:
                    cex_budget -= 1; cex = replay(pname, sort, kind, run, out, m)
                txt = None
                if st != 'proved': txt = f'{o[3]}  becomes  {o[4]}' + (f'\n   {cex}' if cex else '')
                res.append((f'{tag}: {name}', st, 0.0, txt)); 
                if cex: res[-1] = res[-1] + (cex,)
    except P.Reach as e:
        if len(kind) > 1 and kind[1] == 'many': skip = str(e)
        else: return dict(tag=tag, res=[], paths=n, covers={}, wall=time.time()-t0, err=f'{e}', fns={})
    except P.Timeout as e:
        return dict(tag=tag, res=[], paths=n, covers={}, wall=time.time()-t0, err=f'{e}', fns={})
    w = time.time()-t0
    res = [r[:2] + (w/max(1, len(res)),) + r[3:4] + r[4:] for r in res]
    mod, fn = PASSES[pname]
    bad = [r[4] for r in res if len(r) > 4]
    return dict(tag=tag, res=[r[:4] for r in res], paths=n, covers={}, wall=w, err=None, skip=skip, bad=bad, known=sorted(kf), fns={f'{mod.__name__}.{fn}': len(res), 'c2po.cpt.Expression.replace': 0})
# ------------------------------------------------------------------ replay on the real code
def concrete(run, n, env, memo):
    """the concrete tree of a symbolic one (as given to the pass)"""
    n = P.rep(n)
    if id(n) in memo: return memo[id(n)]
    if P.is_hole(n):
        d = RAW(n, '__dict__'); c = cpt.Signal(LOC, 's_' + d['name'], P.TYPE[d['sort']]())
        c.engine = T.R2U2Engine.TEMPORAL_LOGIC
    else:
        i = run.init[id(n)]; ch = []
        for x in i['children']:
            if P.is_hole(x) and RAW(x, '__dict__')['many']:
                ch += [cpt.Signal(LOC, f"s_{RAW(x, '__dict__')['name']}_{j}", P.TYPE[RAW(x, '__dict__')['sort']]()) for j in range(2)]
            else: ch.append(concrete(run, x, env, memo))
        cls, op = i['cls'], i['op']
        if cls is cpt.Constant:
            v = i['value']; c = cpt.Constant(LOC, v if isinstance(v, bool) else env(P.term(v)) if isinstance(v, P.SymInt) or isinstance(v, int) else 0.5)
        elif cls is cpt.Signal: c = cpt.Signal(LOC, i['symbol'], P.TYPE[P.sort_of(n)]())
        elif cls is cpt.CurrentTimestamp: c = cpt.CurrentTimestamp(LOC)
        elif cls is cpt.Atomic: c = cpt.Atomic(LOC, ch[0])
        elif cls is cpt.TemporalOperator: c = cpt.TemporalOperator(LOC, op, env(P.term(i['interval'].lb)), env(P.term(i['interval'].ub)), ch)
        elif cls is cpt.Formula: c = cpt.Formula(LOC, i['symbol'], i['fnum'], ch[0])
        elif cls is cpt.SpecificationSet: c = cpt.SpecificationSet(LOC, ch)
        else: c = cpt.Operator(LOC, op, ch)
        if not isinstance(c, (cpt.Formula, cpt.SpecificationSet)): c.type = RAW(n, '__dict__')['type']
    memo[id(n)] = c
    return c
def streams_of(seed):
    def s(name, sort, t):
        h = int(hashlib.md5(f'{seed}{name}{t}'.encode()).hexdigest(), 16)
        return bool(h & 1) if sort == 'B' else h % 5
    return s
def replay(pname, sort, kind, run, out, model):
    """a failing formula and trace on the real pass, or None"""
    mod, fn = PASSES[pname]
    envs = []
    s = Solver(); s.set('timeout', 3000); s.add(run.pc)
    vs = []
    def collect(t):
        if is_const(t) and t.decl().kind() == Z3_OP_UNINTERPRETED and t.sort() == IntSort(): vs.append(t)
        for c in t.children(): collect(c)
    for c in run.pc: collect(c)
    for n in run.nodes:
        i = run.init.get(id(n))
        if i and i['interval'] is not None:
            try: collect(P.term(i['interval'].lb)); collect(P.term(i['interval'].ub))
            except P.Reach: pass
    vs = list({v.decl().name(): v for v in vs}.values())
    bounds = [v for v in vs if not v.decl().name().endswith(('_bpd', '_wpd'))]
    rng = random.Random(1)
    for k in range(14):
        s.push(); s.add([And(v >= -20, v <= 20) for v in vs] + [v <= rng.choice([1, 2, 3, 5]) for v in bounds])
        for v in rng.sample(bounds, min(2, len(bounds))):
            s.push(); s.add(v == rng.randint(0, 3))
            ok = s.check() == sat; c = s.assertions()[-1]; s.pop()
            if ok: s.add(c)
        if s.check() == sat: m = s.model(); envs.append(lambda t, m=m: m.eval(t, model_completion=True).as_long())
        s.pop()
    if model is not None: envs.insert(0, lambda t: model.eval(t, model_completion=True).as_long())
    keep = P.R
    for env in envs:
        try:
            P.R = run
            memo = {}
            focal = run_focal(run, out)
            if focal is None: return None
            tree = concrete(run, focal, env, memo); tree2 = concrete(run, focal, env, {})
            if isinstance(tree, (cpt.Formula, cpt.SpecificationSet)): return None
            P.R = P.Run([], time.time() + 60)
            holder = cpt.Formula(LOC, 'phi', 7, tree)
            before = cpt.to_infix_str(tree2)
            old = S.sem(tree2)
            try: getattr(mod, fn)(P.Program(tree), cpt.Context(), {})
            except Exception as e: return f'{pname} on {before}: {type(e).__name__}: {e}'
            new = S.sem(holder.get_expr()); after = cpt.to_infix_str(holder.get_expr())
            if big(old) or big(new): continue
            e0 = lambda t: simplify(t).as_long()
            for seed in range(40):
                st = streams_of(seed)
                for t in range(5):
                    a, b = S.ev(old, t, st, e0), S.ev(new, t, st, e0)
                    if a != b:
                        names = sorted(sig(old) | sig(new)); H = 12
                        tr = '; '.join(f"{x}={''.join('1' if st(x, y, i) else '0' for i in range(H))}" if y == 'B' else f'{x}={[st(x, y, i) for i in range(H)]}' for x, y in names)
                        return f'{pname} turns {before} into {after}: at time {t} the first is {a}, the second {b}, on the trace {tr}'
        except (S.Bad, P.Reach, Z3Exception, AttributeError): continue
        finally: P.R = keep
    return None
def run_focal(run, out):
    if not isinstance(out, Exception): return out[0]
    for n in run.nodes:
        if RAW(n, '__dict__').get('name') == 'f': return n
def sig(s):
    if s[0] == 'p': return {(s[1], s[2])}
    r = set()
    for x in S.subs(s): r |= sig(x)
    return r
def big(s):
    if s[0] in ('box', 'dia', 'hist', 'once', 'U', 'R', 'S', 'T'):
        if simplify(s[2]).as_long() > 60: return True
    return any(big(x) for x in S.subs(s))
SHAPES = {'unroll_temporal_operators': 'FGU', 'decompose_intervals': 'FGURHOST'}
def treejob(args):
    """functions that return a transformed copy; per interval width (and, for unrolling, start): bounded"""
    _, fn, op, lbs, widths = args
    t0 = time.time(); tag = f'{fn} {op} (bounded: interval widths up to {max(widths)}{"" if lbs is None else ", starts up to %d" % max(lbs)})'
    P.ARITIES[:] = [2, 3]; res = []; bad = []; n = 0
    if not hasattr(cpt, fn): return dict(tag=tag, res=[], paths=0, covers={}, wall=0, err=f'no function {fn}', fns={})
    un = P.patch_all(); un2 = P.patch(cpt, postorder=P.postorder, deepcopy_expr=P.contract_deepcopy)
    try:
        for lb in (lbs or [None]):
            for w in widths:
                def body(R):
                    f = P.hole('B', 'f'); P.make(f, (op,))
                    d = RAW(f, '__dict__'); l = d['interval'].lb if lb is None else lb
                    d['interval'] = cpt.ConcreteInterval(l, l + w); d['symbol'] = f'{P.TEMP[op].value}[{l},{l+w}]'
                    R.init[id(f)] = P.snap(f)
                    return f, getattr(cpt, fn)(f, cpt.Context())
                for run, out in P.explore(body):
                    n += 1; name = f'{tag}: same value, width {w}' + ('' if lb is None else f', start {lb}')
                    if isinstance(out, Exception):
                        if isinstance(out, NotImplementedError): continue
                        res.append((name, 'refuted', 0, f'{type(out).__name__}: {out}')); continue
                    f, g = out
                    try: st, m = S.equal_w(run, S.sem(f, 'then'), S.sem(g), 8000)
                    except S.Bad as e: st = 'refuted'; g = None
                    res.append((name, st, 0, None if st == 'proved' else f'{S.show(S.sem(f, "then"))}  becomes  {S.show(S.sem(g)) if g else "no expression"}'))
                    if P.snap(f)['children'] != run.init[id(f)]['children']: res.append((name + ', argument unchanged', 'refuted', 0, ''))
    except (P.Reach, P.Timeout) as e: return dict(tag=tag, res=[], paths=n, covers={}, wall=time.time()-t0, err=str(e), fns={})
    finally: un2(); un()
    return dict(tag=tag, res=[], bres=res, paths=n, covers={}, wall=time.time()-t0, err=None, fns={}, bad=[])
def lemma_job(args):
    t = time.time(); r = S.lemmas()
    for srt in 'BIF':
        for kd in P.kinds(srt):
            ok = True
            for run, out in P.explore(lambda R: (h := P.hole(srt, 'h'), P.make(h, kd), [cpt.is_operator(h, o) == (P.what(kd)[1] is o) for o in K])[2]):
                ok = ok and not isinstance(out, Exception) and all(out)
            r.append((f"cpt.is_operator on a {' '.join(str(x) for x in kd)}: exactly its own operator", 'proved' if ok else 'refuted', 0.0, None))
    return dict(tag='lemmas and is_operator', res=r, paths=1, covers={}, wall=time.time()-t, err=None, fns={})
def jobs(prop, tier):
    ps = ['optimize_rewrites'] if prop == 'C01' else [p for p in PASSES if p != 'optimize_rewrites']
    return [('pxf', (p, s, k, tier)) for p in ps for s, k in focals()] + [('pxf', ('lemmas',))] + ([] if prop == 'C01' else
        [('pxf', ('tree', 'unroll_temporal_operators', o, range(4 if tier == 'quick' else 8), range(5 if tier == 'quick' else 9))) for o in 'FGU'] +
        [('pxf', ('tree', 'decompose_intervals', o, None, range(40 if tier == 'quick' else 140))) for o in 'FGURHOST'])
if __name__ == '__main__':
    import sys
    from multiprocessing import Pool
    sel = [j[1] for j in jobs(sys.argv[1], 'quick') if len(sys.argv) < 3 or sys.argv[2] in f'{j[1]}']
    with Pool(8) as p:
        tot = bad = 0; t0 = time.time()
        for r in p.imap_unordered(job, sel):
            tot += len(r['res']); nb = [x for x in r['res']+r.get('bres',[]) if x[1] != 'proved']; bad += len(nb)
            if nb or r['err'] or r.get('skip') or r['wall'] > 10 or r.get('known'): print(r['tag'], r['paths'], 'paths', len(r['res']), 'obl', round(r['wall'], 1), 's err', r['err'], 'skip', r.get('skip'), r.get('known'))
            for x in nb[:3]: print('    ', x[0], x[1], x[3])
        print(tot, bad, round(time.time()-t0))
