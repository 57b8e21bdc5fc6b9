"""C10, bounded: sessions of random programs and commands with push ... pop inside (nested, with other programs, options and maps in between), against the same
session without them: same state (an isomorphic copy), and the same printed specifications, messages, bounds, statistics and binary from the same commands on."""
import random, os
from fpy import *
import fpy, fdes, fbnd, piso
PASSES = ['type_check', 'desugar', *DEFAULT, 'compute_atomics', 'compute_scq_sizes']
SOME = ['optimize_rewrites', 'optimize_cse', 'remove_extended_operators', 'multi_operators_to_binary', 'flatten_multi_operators', 'sort_operands_by_pd', 'to_bnf', 'to_nnf', 'remove_release_operators', 'expand_definitions',
        'convert_function_calls_to_structs', 'resolve_enum_references', 'resolve_contracts', 'unroll_set_aggregation', 'resolve_struct_accesses', 'resolve_array_accesses', 'unroll_array_accesses', 'compute_atomics', 'compute_scq_sizes', 'type_check', 'desugar']
SLICE = 'INPUT\n w: bool[4]; z: int[3];\nDEFINE\n p := w[1..2]; q := z[0..1];\nFTSPEC\n foreach(y:w[0..2])(y);\n l: p[0] -> G[0,2] p[1];\n q[0] == z[2];\n'
EXTRA = 'STRUCT\n S1: {m: bool; n: int;};\nENUM\n E: {A1: 1, B9: 2};\n F9: {C1: 0, C2: 1};\nINPUT\n a,b: bool; g: E; h: F9; u: int;\nDEFINE\n s := S1(a, u); t := {a, b};\nFTSPEC\n s.m && G[1,3] (g == B9);\n lab: h == C2 U[0,2] (t[1]);\n k: s.m => F[0,4] b;\nPTSPEC\n O[0,3] (lab2) ;\n lab2: a S[1,2] (u > 3);\n'
EQUIV = None
def programs(rng, n):
    out = []
    for i in range(n):
        r = rng.random(); bz = rng.random() < .8
        src = fdes.program(rng, rng.random() < .8)[0] if r < .45 else fbnd.text(fbnd.program(rng, bz), bz) if r < .85 else SLICE if r < .93 else EXTRA
        f = write(f'p{i}.c2po', src); out.append((f, src, bz))
    return out
MLTL = ['(G[0,3] a) & (b -> F[1,2] c)\n!a U[0,4] b\n', 'H[0,2] x\n']
def command(rng, progs, depth):
    """random commands, balanced in push and pop"""
    q = rng.random(); sc = scratch()
    if q < .18: f, _, bz = rng.choice(progs); return [rng.choice(['enable_booleanizer', 'disable_booleanizer', 'enable_booleanizer'])] * (rng.random() < .7) + [f'parse_c2po {f}'] + (PASSES[:rng.randrange(len(PASSES) + 1)] if rng.random() < .6 else [])
    if q < .22: return [f'parse_mltl {write("m%d.mltl" % rng.randrange(2), rng.choice(MLTL))}']
    if q < .30: return [f'parse_map {write("o%d.map" % rng.randrange(3), "".join(f"{n}:{i}" + chr(10) for i, n in enumerate(rng.sample(["a", "b", "c", "u", "v", "x", "h", "g", "w[0]", "w[1]", "w[2]", "z[0]", "z[1]"], 13))))}']
    if q < .34: return [f'generate_map --output {sc}/g.map']
    if q < .38: return [f'parse_trace {write("t%d.csv" % rng.randrange(3), "# " + ",".join(rng.sample("abcuvxgh", 8)) + chr(10) + "0,1,0,1,1,0,1,0" + chr(10) * rng.choice([0, 1, 2]))}']
    if q < .42: return [rng.choice([f'set_mission_time {rng.choice([3, 20])}', 'enable_booleanizer', 'disable_booleanizer', f'set_smt_solver_path {sc}/z', f'set_egglog_path {sc}/e', f'set_r2u2_c_path {sc}/r', f'set_r2u2_bin_path {sc}/b'])]
    if q < .46: return [f'assemble {sc}/n.bin', f'write_bounds_c {sc}/n.h']
    if q < .50: return [rng.choice(['print_c2po', 'print_mltl', 'print_prefix'])]
    if q < .58 and depth: return ['push'] + [c for _ in range(rng.choice([0, 1, 2, 3])) for c in command(rng, progs, depth - 1)] + ['pop']
    if q < .75: return PASSES[rng.randrange(3):rng.randrange(3, len(PASSES) + 1)]
    return [rng.choice(SOME)]
def tail(rng, f, bz, i):
    sc = scratch(); out = [f'{sc}/{x}{i}' for x in ('x.bin', 'x.h', 'x.mltl', 'x.c2po')]
    return out, ['print_c2po', 'print_mltl', 'print_prefix', 'print_stats', *([rng.choice(SOME)] if rng.random() < .5 else []), 'print_prefix', *PASSES, *([f'generate_map --output {sc}/x.map'] if rng.random() < .5 else []), f'assemble --quiet {sc}/OUT.bin' if False else f'assemble {out[0]}',
        f'write_bounds_c {out[1]}', 'print_prefix', f'write_mltl {out[2]}', f'write_c2po {out[3]}', 'print_stats_all', *(['push', 'pop', 'pop'] if rng.random() < .3 else ['pop'] if rng.random() < .5 else [])]
STATS = ['print_stats --format "' + '%S,%s,%T'.replace('%T', '') + '"']
def finish(c, cmds, outs):
    """what the commands show"""
    c.out.seek(0); c.out.truncate()
    for f in outs:
        if os.path.exists(f): os.remove(f)
    try: c.run(*[x for x in cmds if x not in ('print_stats', 'print_stats_all')])
    except Exception as e: c.out.write(f'{type(e).__name__}: {e}')
    st = vars(c.c.context.stats); shown = {k: v for k, v in st.items() if 'time' not in k}
    return dict(text=c.text, return_code=c.c.return_code, stats=shown, depth=len(c.c.state_stack), options={k: v for k, v in vars(c.c.context).items() if isinstance(v, (int, str, type(None)))}, **{f'file {i}': open(f, 'rb').read() if os.path.exists(f) else None for i, f in enumerate(outs)})
def safely(c, cmds):
    """run; False if a command crashes (not this property)"""
    for x in cmds:
        try: c.run(x)
        except Exception as e:
            if x in ('push', 'pop'): return f'{x} raises {type(e).__name__}: {e}'
            return None
    return True
def case(key):
    """(failure or None, judged, description)"""
    rng = random.Random(key); progs = programs(rng, 3); f, src, bz = progs[0]
    pre = (['enable_booleanizer'] if bz else []) + [f'parse_c2po {f}'] * (rng.random() < .95)
    n = rng.choice([0, 1, 2, 3, 3, 7, 8, 9, 9]); pre += PASSES[:n]
    if rng.random() < .3: pre += [rng.choice(SOME)]
    if rng.random() < .5: pre += [f'generate_map --output {scratch()}/p.map']
    if n == 9 and rng.random() < .5: pre += [f'assemble {scratch()}/pre.bin']
    if rng.random() < .15: pre += ['set_mission_time 9']
    noise = [c for _ in range(rng.choice([0, 1, 1, 2, 3, 5])) for c in command(rng, progs, 2)]
    a, b = Console(), Console(); W = lambda: f'{src} after {"; ".join(x.split("/")[0].strip() for x in pre)}; push; {"; ".join(os.path.basename(x) if "/" in x and " " not in x else x.split("/")[0].strip() + (" " + os.path.basename(x) if "/" in x else "") for x in noise)}; pop'
    if safely(a, pre) is None: return None, 0, ''
    safely(b, pre)
    def state(c): return [('program', c.c.program), ('context', c.c.context)]
    def same(x, y, what):
        bad = piso.iso([(p, u, v) for (p, u), (_, v) in zip(x, y)])
        bad = [z for z in bad if 'time' not in z]
        return f'{what}: {bad[0]}' if bad else None
    r = same(state(a), state(b), 'two equal sessions')
    if r: return None, 0, ''
    r = safely(b, ['push'])
    if r is not True: return f'{r}: {W()}', 1, W()
    r = same(state(a), state(b), 'push changes the state')
    if r: return f'{r}: {W()}', 1, W()
    r = same(state(b), list(zip(('program', 'context'), b.c.state_stack[-1])), 'the saved state is no copy')
    if r: return f'{r}: {W()}', 1, W()
    r = safely(b, noise)
    if r is None: return None, 0, ''
    if r is not True: return f'{r}: {W()}', 1, W()
    r = safely(b, ['pop'])
    if r is not True: return f'{r}: {W()}', 1, W()
    r = same(state(a), state(b), 'after the pop')
    if r: return f'{r}: {W()}', 1, W()
    if len(a.c.state_stack) != len(b.c.state_stack): return f'the number of saved states differs: {W()}', 1, W()
    b.c.return_code = a.c.return_code      # failures of the commands in between are remembered for the exit status
    outs, cm = tail(rng, f, bz, 0)
    x, y = finish(a, cm, outs), finish(b, cm, outs)
    for k in x:
        if x[k] != y[k]: return f'later commands behave differently ({k}): {diff(x[k], y[k])}: {W()}; then {"; ".join(os.path.basename(z) for z in cm)}', 1, W()
    return None, 1, W()
def diff(x, y):
    if isinstance(x, str):
        for u, v in zip(x.split('\n'), y.split('\n')):
            if u != v: return f'{u!r} becomes {v!r}'[:300]
    return f'{x!r} becomes {y!r}'[:300]
def fals_C10(seed, rounds):
    rng = random.Random(seed); n = nt = 0; smp = []
    for k in range(rounds):
        key = rng.getrandbits(60); bad, c, w = case(key); n += 1; nt += c
        if bad:
            best = bad
            for j in range(60):
                b2, _, _ = case(key + 1 + j)
                if b2 and len(b2) < len(best) and b2[:14] == bad[:14]: best = b2
            return dict(bad=best.replace('\n', ' '), n=n, nontrivial=nt, samples=smp)
        if c and len(smp) < 2: smp.append(w.replace('\n', ' ')[:250])
    return dict(bad=None, n=n, nontrivial=nt, samples=smp)
if __name__ == '__main__':
    import sys, time; quiet(); t = time.time(); print(fals_C10(int(sys.argv[1]), int(sys.argv[2])), time.time() - t)
