"""C10: push saves and pop restores the whole state. Obligations on the real code:
- deepcopy_expr, one arbitrary node of each kind (pdes.copyjob): a new node of the same kind, every field kept, operands the copies of the operands; what is in the
  memo already is handed out, not copied again.
- deepcopy_program_with_context (with the deepcopies of sections, programs, contexts and statistics) on a state with every attribute set and arbitrary expressions,
  deepcopy_expr under contract: the copy is isomorphic to the state (shape, order, sharing, parents), holds nothing mutable of it, and the state is left as it was.
- push, pop and any other command of the console on an arbitrary stack: push adds the copy and goes on with the very state, pop takes the last one back, others keep the stack."""
import sys, os, time, itertools, dataclasses
import psym as P, piso, pdes
cpt = P.cpt; import c2po.types as T
import c2po.main as M, c2po.command as CM, c2po.log as log, c2po.stats as stats
LOC = P.LOC
class Ghost(cpt.Expression):
    """an arbitrary expression"""
    def __init__(s, name, kids=()): super().__init__(LOC, list(kids)); s.symbol = name; s.type = T.BoolType(); s.given = name
    __hash__ = object.__hash__
    def __str__(s): return s.given
    __repr__ = __str__
    def __eq__(s, o): return s is o
class Ctr:
    n = 0
def fresh(v, name, odd):
    """a value of v's type that is not the one a new object has"""
    Ctr.n += 1
    if isinstance(v, bool): return not v if odd else v
    if isinstance(v, int): return 1000 + Ctr.n
    if isinstance(v, float): return 1000.5 + Ctr.n
    if isinstance(v, str) or v is None: return f'{name} {Ctr.n}'
    if isinstance(v, bytes): return f'{name} {Ctr.n}'.encode()
    return v
def state(n, odd, desugared):
    """a program and a context with n arbitrary entries everywhere"""
    G = lambda k: [Ghost(f'{k}{i}') for i in range(n)]
    D, E, A = G('definition '), G('member '), G('guarantee ')
    fs, ps = [], []
    shared = Ghost('shared'); lone = Ghost('gone', [shared]); shared.parents.add(lone)         # its parent has been replaced
    for i in range(n):
        at = Ghost(f'atomic {i}', [shared]); fs.append(cpt.Formula(LOC, f'f{i}', 3*i, at if i % 2 == 0 else Ghost(f'body {i}', [shared, at])))
        ps.append(cpt.Formula(LOC, f'p{i}', 3*i + 1, Ghost(f'past {i}', [shared, D[i]])))
    con = [cpt.Contract(LOC, f'k{i}', 90 + i, 91 + i, 92 + i, A[i], shared) for i in range(n)]
    decl = lambda k, t: cpt.VariableDeclaration(LOC, [f'{k}{i}' for i in range(n)], t)
    secs = [cpt.StructSection(LOC, [cpt.StructDefinition(LOC, f'S{i}', [decl('m', T.BoolType())]) for i in range(n)]),
            cpt.EnumSection(LOC, [cpt.EnumDefinition(LOC, 'E', [cpt.Definition(LOC, f'e{i}', E[i]) for i in range(n)])]),
            cpt.InputSection(LOC, [decl('v', T.IntType())] * 1), cpt.DefineSection(LOC, [cpt.Definition(LOC, f'd{i}', D[i]) for i in range(n)]),
            cpt.FutureTimeSpecSection(LOC, fs + con), cpt.PastTimeSpecSection(LOC, ps), cpt.FutureTimeSpecSection(LOC, [])]
    pr = cpt.Program(LOC, secs); c = cpt.Context(); extra = Ghost('only in the program')
    if desugared:
        for i in range(n): pr.replace_spec(con[i], [cpt.Formula(LOC, f'k{i}.{j}', 90 + i + j, x) for j, x in enumerate((A[i], Ghost('implies', [A[i], shared]), extra))])
    for k, v in vars(pr).items():
        if k not in ('loc', 'symbol', 'sections', 'ft_spec_set', 'pt_spec_set', 'definitions'): setattr(pr, k, fresh(v, k, odd))
    if n: pr.ft_spec_set.symbol, pr.ft_spec_set.scq_size = 'set', 5
    for k, v in vars(c).items():
        if isinstance(v, dict): setattr(c, k, {f'{k} {i}': T.IntType() if i % 2 else T.BoolType() for i in range(n)})
        elif isinstance(v, list): setattr(c, k, [f'{k} {i}' for i in range(n)])
        elif isinstance(v, stats.Stats): c.stats = stats.Stats(**{f.name: fresh(getattr(v, f.name), f.name, odd) for f in dataclasses.fields(v)})
        else: setattr(c, k, fresh(v, k, odd))
    c.definitions = {f'd{i}': D[i] for i in range(n)}; c.structs = {d.symbol: d.members for d in secs[0].struct_defs}; c.enums = {'E': secs[1].enum_defs[0].members} if n else {}
    c.specifications = {f.symbol: f for f in fs + ps}; c.contracts = {x.symbol: x for x in con}
    c.atomic_id_map = {f.get_expr() if i % 2 == 0 else f.get_expr().children[1]: 7 + i for i, f in enumerate(fs)}; c.atomic_expr_map = {v: k for k, v in c.atomic_id_map.items()}
    if n: c.atomic_expr_map[55] = Ghost('no longer used')
    c.bound_vars = {f'y{i}': Ghost(f'set {i}') for i in range(n)}; c.signal_mapping = {f'v{i}': i for i in range(n)}
    c.bounds = [cpt.SymbolicIntervalVariable(LOC, f'i{i}') for i in range(n)]; c.constraints = [Ghost(f'constraint {i}') for i in range(n)]
    if n: old = Ghost('replaced', [shared]); old.replacement = Ghost('its replacement'); c.definitions['d0'].children.append(old); old.parents.add(c.definitions['d0'])
    return pr, c
def snap(roots):
    """identities and contents of everything reachable"""
    seen = {}; todo = list(roots); keep = []
    while todo:
        x = todo.pop()
        if isinstance(x, piso.ATOMS) or id(x) in seen: continue
        keep.append(x)
        if isinstance(x, (list, tuple)): seen[id(x)] = [id(y) if not isinstance(y, piso.ATOMS) else y for y in x]; todo += list(x)
        elif isinstance(x, set): seen[id(x)] = {id(y) for y in x}; todo += list(x)
        elif isinstance(x, dict): seen[id(x)] = [(k if isinstance(k, piso.ATOMS) else id(k), v if isinstance(v, piso.ATOMS) else id(v)) for k, v in x.items()]; todo += [*x, *x.values()]
        elif isinstance(x, piso.OBJ): seen[id(x)] = {k: v if isinstance(v, piso.ATOMS) else id(v) for k, v in vars(x).items()}; todo += list(vars(x).values())
        else: seen[id(x)] = None
    return seen, keep
def statejob(n, odd, desugared):
    res = []; t0 = time.time(); tag = f'a state with {n} of each, {"" if odd else "other "}flags, {"contracts resolved" if desugared else "as parsed"}'
    real = cpt.deepcopy_expr; calls = [0]
    pr, c = state(n, odd, desugared); memos = {}; ctxs = set(); back = {}
    def contract(start, ctx, memo):
        """deepcopy_expr by its contract: arbitrary leaves are copied once per memo; may extend the atomic numbers of the context it is given and rebind its variables"""
        calls[0] += 1; memos[id(memo)] = memo; ctxs.add(id(ctx)); back.setdefault('ctx', ctx)
        def leaves(x, seen):
            if id(x) in seen: return
            seen.add(id(x))
            for k in x.children: leaves(k, seen)
            if isinstance(x, Ghost) and id(x) not in memo:
                y = Ghost(x.symbol, [memo[id(k)] for k in x.children]); memo[id(x)] = y; x.copy_attrs(y); y.given = x.given
                if x in ctx.atomic_id_map: ctx.atomic_id_map[y] = ctx.atomic_id_map[x]; ctx.atomic_expr_map[ctx.atomic_id_map[x]] = y
        leaves(start, set())
        for v in list(ctx.bound_vars): ctx.bound_vars.pop(v)         # visits set aggregations that bind the same names
        return memo[id(start)] if id(start) in memo else real(start, ctx, memo)
    before, keep = snap([pr, c]); say = lambda nm, ok, why='': res.append((f'{tag}: {nm}', 'proved' if ok else 'refuted', 0.0, None if ok else str(why)[:300]))
    err = None
    try:
        cpt.deepcopy_expr = contract
        try: p2, c2 = cpt.deepcopy_program_with_context(pr, c)
        except Exception as e: say('completes', False, f'{type(e).__name__}: {e}'); p2 = None
        if p2 is not None:
            say('completes', True); cpt.deepcopy_expr = real
            after, _ = snap([pr, c])
            ch = [k for k in before if before[k] != after.get(k)]
            say('the state pushed stays as it was', not ch, [(type(x).__name__, before[id(x)], after.get(id(x))) for x in keep if id(x) in ch][:1])
            im = {}; bad = piso.iso([('program', pr, p2), ('context', c, c2)], im)
            for a in sorted(vars(pr)): w = [b for b in bad if b.startswith(f'program.{a}')]; say(f'program.{a} is saved', not w, w)
            for a in sorted(vars(c)): w = [b for b in bad if b.startswith(f'context.{a}')]; say(f'context.{a} is saved', not w, w)
            say('same shape and sharing, nothing mutable in common', not bad, bad)
            if not bad: say('replacements are kept', all((x.replacement is None) == (im[id(x)].replacement is None) and (x.replacement is None or im[id(x)].replacement.symbol == x.replacement.symbol and im[id(x)].replacement is not x.replacement) for x in keep if isinstance(x, cpt.Expression) and id(x) in im))
            say('it is another program and another context', p2 is not pr and c2 is not c)
            say('the context given to deepcopy_expr is not the original', id(c) not in ctxs)
    finally: cpt.deepcopy_expr = real
    d = dict(tag=tag, paths=1, wall=time.time()-t0, fns={f'c2po.{x}': len(res) for x in ('cpt.deepcopy_program_with_context', 'cpt.Program.deepcopy', 'cpt.Context.deepcopy', 'cpt.SpecSection.deepcopy', 'stats.Stats.deepcopy')}, err=err)
    d['res'], d['bres'] = (res, []) if n == 1 else ([], res)
    return d
def memojob():
    """deepcopy_expr of what the memo has"""
    res = []; t0 = time.time(); g = Ghost('e'); h = Ghost('copy of e'); c = cpt.Context(); memo = {id(g): h}
    op = cpt.Operator.LogicalNegate(LOC, g)
    say = lambda nm, ok: res.append((f'deepcopy_expr, shared operands: {nm}', 'proved' if ok else 'refuted', 0.0, None))
    say('what has a copy is not copied again', cpt.deepcopy_expr(g, c, memo) is h and list(memo) == [id(g)])
    x = cpt.deepcopy_expr(op, c, memo); say('operands that have a copy', x.children[0] is h and memo.get(id(op)) is x)
    two = cpt.Operator.LogicalAnd(LOC, [op, op]); y = cpt.deepcopy_expr(two, c, memo); say('an operand that occurs twice', y.children[0] is x and y.children[1] is x)
    z = Ghost('z'); z2 = Ghost('copy of z'); memo[id(z)] = z2; q = cpt.Operator.LogicalOr(LOC, [z, z]); w = q.deepcopy(c, memo); say('Expression.deepcopy uses the memo', w.children[0] is z2 and w.children[1] is z2 and memo.get(id(q)) is w)
    return dict(tag='memo', res=res, paths=1, wall=time.time()-t0, fns={'c2po.cpt.deepcopy_expr': 4}, err=None)
CMDS = ['push', ' push ', 'push extra', 'pop', '\tpop', 'pop 1', '', '# pop', 'nothing_like_it', 'help "', 'ghost', 'ghost --x', 'pushx', 'exit']
RESULTS = ['program', 'none', 'tuple', 'ok', 'error', 'unknown', 'exit', 'raises', 'guard', 'touch']
def stackjob(cmd, depth, result):
    res = []; t0 = time.time(); tag = f'console {cmd!r}, {depth} saved states, {result}'; real = cpt.deepcopy_program_with_context
    say = lambda nm, ok, why='': res.append((f'{tag}: {nm}', 'proved' if ok else 'refuted', 0.0, None if ok else str(why)[:300]))
    con = M.CommandConsole(); p, c = cpt.Program.dummy(), cpt.Context(); con.program, con.context = p, c
    low = [(cpt.Program.dummy(), cpt.Context()) for _ in range(depth)]; stack = list(low); con.state_stack = stack; other = cpt.Program.dummy()
    cp = (cpt.Program.dummy(), cpt.Context()); given = []
    def execute(pr, ctx, options):
        given.append((pr, ctx))
        if result == 'exit': raise SystemExit(2)
        if result == 'raises': raise KeyError('x')
        return {'program': other, 'none': None, 'tuple': (cm, 'g'), 'ok': CM.ReturnCode.SUCCESS, 'error': CM.ReturnCode.ERROR, 'unknown': 'q', 'touch': CM.ReturnCode.SUCCESS}[result]
    class Cmd:
        name = 'ghost'
        def parse_args(s, a): return {}
        def check_guards(s, pr, ctx): return 'g' if result == 'guard' else None
    cm = Cmd(); cm.execute = execute; con.command_dict = {**con.command_dict, 'ghost': cm}
    pm = M.print_failed_guard_message; out = os.dup(1), os.dup(2)
    import io, contextlib
    cpt.deepcopy_program_with_context = lambda a, b: given.append((a, b)) or cp; M.print_failed_guard_message = lambda *a: None; left = None
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            try: con.runsource(cmd)
            except SystemExit: left = 'exit'
            except KeyError: left = 'raises'
    finally:
        cpt.deepcopy_program_with_context = real; M.print_failed_guard_message = pm
        for f in out: os.close(f)
    st = con.state_stack; same = lambda a, b: len(a) == len(b) and all(x is y for x, y in zip(a, b)); w = cmd.split()[0] if cmd.split() else ''
    if w == 'push':
        say('saves a copy of the state on top', len(st) == depth + 1 and same(st[:-1], low) and tuple(map(id, st[-1])) == tuple(map(id, cp)) and [tuple(map(id, g)) for g in given] == [(id(p), id(c))], (len(st), depth))
        say('goes on with the state', con.program is p and con.context is c)
    elif w == 'pop' and depth:
        say('takes the last saved state', con.program is low[-1][0] and con.context is low[-1][1]); say('and leaves the ones below', same(st, low[:-1]))
    elif w == 'pop':
        say('without a saved state: reported, nothing changes', con.program is p and con.context is c and st == [] and con.return_code is CM.ReturnCode.NO_STATE_TO_POP)
    else:
        say('keeps the saved states', same(st, low)); say('keeps the context', con.context is c)
        if w == 'ghost' and result != 'guard': say('works on the current program and context', [tuple(map(id, g)) for g in given] == [(id(p), id(c))])
        say('program', con.program is (other if w == 'ghost' and result == 'program' else p))
    if w in ('push', 'pop') and not (w == 'pop' and depth == 0): say('reports no failure', con.return_code is CM.ReturnCode.SUCCESS and left is None)
    return dict(tag=tag, res=res, paths=1, wall=time.time()-t0, fns={'c2po.main.CommandConsole.runsource': len(res), 'c2po.main.CommandConsole.push_state': 1, 'c2po.main.CommandConsole.pop_state': 1}, err=None)
def job(a):
    k = a[0]
    try:
        if k == 'state': return statejob(*a[1:])
        if k == 'memo': return memojob()
        if k == 'stack': return stackjob(*a[1:])
    except P.Reach as e: return dict(tag=str(a), res=[], paths=0, fns={}, wall=0, err=f'not expressible: {e}')
    except Exception as e: return dict(tag=str(a), res=[], paths=0, fns={}, wall=0, err=f'{type(e).__name__}: {e}')
def jobs(prop='C10', tier='quick'):
    js = [('state', n, o, d) for n in (0, 1, 2, 3) for o in (False, True) for d in (False, True)] + [('memo',)]
    js += [('stack', c, d, r) for c in CMDS for d in (0, 1, 2, 3) for r in (RESULTS if c.startswith('ghost') else ['-'])]
    return [('ppush', j) for j in js] + pdes.copyjobs('deepcopy')
if __name__ == '__main__':
    import importlib; t0 = time.time(); tot = bad = 0
    from multiprocessing import Pool
    with Pool(8) as p:
        for r in itertools.chain(p.imap_unordered(job, [j[1] for j in jobs() if j[0] == 'ppush']), p.imap_unordered(pdes.job, [j[1] for j in jobs() if j[0] == 'pdes'])):
            rr = r['res'] + r.get('bres', []); nb = [x for x in rr if x[1] != 'proved']; tot += len(rr); bad += len(nb)
            if nb or r.get('err') or not rr: print(r['tag'], r.get('err'))
            for x in nb[:3]: print('   ', str(x)[:400])
    print(tot, bad, time.time()-t0)
