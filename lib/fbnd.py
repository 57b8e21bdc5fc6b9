"""C09, bounded: programs are compiled by the real pipeline; the monitor with memory of exactly the computed bounds (under AddressSanitizer), and the
monitor built with the bounds.h that write_bounds_c writes (specification names on), behave as the monitor with default bounds.
named_case (also C06): verdict lines carry the name of their formula and contract lines follow from the contract's three formulas."""
import random, subprocess, shutil, os
from fpy import *
import fpy, cmon
def program(rng, bz, past=None):
    """sections in source order: ([(past, [(label or None, f) or (label, f, g)])], defs)"""
    secs = []; k = 0; first = rng.random() < .5
    for j in range(rng.choice([1, 2, 2, 3])):
        p = (j % 2 == 0) == first; items = []
        for _ in range(rng.choice([1, 1, 2])):
            f = lambda: wild(rng, rng.choice([0, 1, 1, 2]), p, bz, []); x = f(); k += 1
            if rng.random() < .3: items.append((f'k{k}', x, f()))
            else: items.append((f'lab{k}' if rng.random() < .6 else None, x))
        secs.append((p, items))
    return secs
def text(secs, bz):
    nm = ALLSIG if bz else ALLSIG[:3]; ex = [y for p, l in secs for i in l for y in i[1:]]
    s = source([], nm); s = s[:s.index('\n') + 1]
    return s + ''.join(('PTSPEC\n' if p else 'FTSPEC\n') + ''.join(f' {i[0]}: {show(i[1])} => {show(i[2])};\n' if len(i) == 3 else f' {i[0] + ": " if i[0] else ""}{show(i[1])};\n' for i in l) for p, l in secs)
def numbering(secs):
    """({number: label}, [(contract, number of its first formula)])"""
    n = 0; lab = {}; con = []
    for p, l in secs:
        for i in l:
            if len(i) == 3: con.append((i[0], n)); n += 3
            else:
                if i[0]: lab[n] = i[0]
                n += 1
    return lab, con
def compile_(secs, rng, bz, passes=DEFAULT):
    """(binary, console, columns) or None"""
    nm = [x for x, _ in (ALLSIG if bz else ALLSIG[:3])]; cols = nm[:]
    rng.shuffle(cols)
    for k in range(rng.choice([0, 0, 1, 3])): cols.insert(rng.randrange(len(cols) + 1), f'unused{k}')
    b, c = assemble(text(secs, bz), cols, bz, passes)
    return (b, c, cols) if b else None
def samples_for(rng, cols, n):
    kind = dict(ALLSIG); tr = trace(rng, [(x, kind.get(x, 'a')) for x in cols], n)
    return [[(0, int(tr[x][i])) if kind.get(x, 'a') == 'a' else (2, tr[x][i]) if kind[x] == 'f' else (1, tr[x][i]) for x in cols] for i in range(n)]
def judge_names(secs, plain, named):
    """the run with names against the run without"""
    lab, con = numbering(secs); want = []; seen = set(lab.values())
    for l in plain.split('\n'):
        if ':' not in l: want.append((l, None)); continue
        n, r = l.split(':', 1); t, v = r.split(','); n = int(n); want.append((lab.get(n), r))
        for k, b in con:
            x = 'inactive' if n == b and v == 'F' else 'invalid' if n == b + 1 and v == 'F' else 'verified' if n == b + 2 and v == 'T' else None
            if x: want.append((f'Contract {k} {x} at {t}', None)); break
    got = named.split('\n'); step = ''
    for i, (w, r) in enumerate(want):
        if w and w.startswith('S '): step = w
        g = got[i] if i < len(got) else '(nothing)'
        if r is None: ok = g == w
        else: nm, _, rest = g.rpartition(':'); ok = rest == r and (nm == w if w else nm not in seen and not nm.isdigit())
        if not ok: return f'step {step[2:]}: the monitor with names prints "{g}" where "{w or "(a name of its own)"}{":" + r if r else ""}" is due'
    if len(got) != len(want): return f'the monitor with names prints more: {got[len(want):][:2]}'
def bounds(c):
    import c2po.assemble as A
    return {k: v[0] for k, v in A.compute_bounds(c.program, c.c.context).items()}
def arenas(d): g = lambda k: int(d['R2U2_MAX_' + k]); return [g('BZ_INSTRUCTIONS'), g('TL_INSTRUCTIONS'), g('SIGNALS'), g('ATOMICS'), g('BZ_INSTRUCTIONS'), g('QUEUE_SLOTS'), g('TEMPORAL_OPERATORS'), g('TL_INSTRUCTIONS')]
def small(c):
    """the monitor with the header write_bounds_c writes, names on, sanitized"""
    d = f'{scratch()}/mon'; shutil.rmtree(d, ignore_errors=True); shutil.copytree(cmon.CSRC, d)
    c.run(f'write_bounds_c {d}/internals/bounds.h'); o = f'{scratch()}/small'
    src = [str(f) for f in sorted(__import__('pathlib').Path(d).rglob('*.c')) if 'cli' not in f.parts]
    r = subprocess.run(['gcc', '-std=gnu99', '-O0', '-g1', '-w', '-fsanitize=address,undefined', '-fno-sanitize=shift,signed-integer-overflow', '-fno-sanitize-recover=all', '-DR2U2_AUX_STRING_SPECS=1', '-I', d, '-o', o, str(__import__('pathlib').Path(__file__).parent.parent/'harness/run.c'), *src, '-lm'], capture_output=True, text=True)
    return (o, None) if r.returncode == 0 else (None, r.stderr[-300:])
def what(secs, bz, cols): return f'{"with" if bz else "without"} booleanizer, columns {",".join(cols)}, {text(secs, bz)}'
def ok_secs(secs):
    ex = [y for p, l in secs for i in l for y in i[1:]]
    return not any(size(y) > 40 or hor(y) > 40 or bare(y) for y in ex)
def case(secs, rng, bz, deep):
    """None, or what fails"""
    r = compile_(secs, rng, bz)
    if not r: return None, 0
    b, c, cols = r; st = samples_for(rng, cols, rng.choice([5, 9, 14])); n = len(cols)
    big = cmon.build('run'); san = cmon.build('run', san=True); W = what(secs, bz, cols)
    (s0, t0), = cmon.batch(big, [cmon.encode(b, st, n, 1)])
    if s0: return f'the monitor with default bounds ends with status {s0} {t0[-100:]}: {W}', 1
    d = bounds(c); (s1, t1), = cmon.batch(san, [cmon.encode(b, st, n, 1, arenas=arenas(d))])
    if s1 or t1 != t0: return f'with exactly the computed bounds { {k[9:]: v for k, v in d.items() if type(v) is int} } the monitor {"ends with status " + str(s1) + " " + next((l for l in t1.split(chr(10)) if "ERROR" in l or "error" in l), t1[-100:]) if s1 else "differs"}: {W}', 1
    if deep:
        bn = cmon.build('run', defs=('R2U2_AUX_STRING_SPECS=1',)); (s2, t2), = cmon.batch(bn, [cmon.encode(b, st, n, 1)])
        if s2: return f'the monitor with names ends with status {s2}: {W}', 1
        o, e = small(c)
        if not o: return f'the monitor does not build with the bounds written: {e}: {W}', 1
        (s3, t3), = cmon.batch(o, [cmon.encode(b, st, n, 1)])
        if s3: return f'the monitor built with the bounds written ends with status {s3} ({next((l for l in t3.split(chr(10)) if "ERROR" in l or "error" in l), t3[-100:])[:200]}): {W}', 1
        if t3 != t2:
            l = next((x, y) for x, y in zip(t2.split('\n') + ['(end)'], t3.split('\n') + ['(end)']) if x != y); return f'the monitor built with the bounds written prints "{l[1]}" instead of "{l[0]}": {W}', 1
    return None, 1
def named_cases(rng, k):
    """names and contract lines of k programs (C06)"""
    enc0, back = [], []
    for _ in range(k):
        bz = rng.random() < .5; secs = program(rng, bz)
        if not ok_secs(secs): continue
        r = compile_(secs, rng, bz)
        if r: b, c, cols = r; enc0.append(cmon.encode(b, samples_for(rng, cols, 8), len(cols), 1)); back.append((secs, bz, cols))
    if not enc0: return None, 0
    p = cmon.batch(cmon.build('run'), enc0); q = cmon.batch(cmon.build('run', defs=('R2U2_AUX_STRING_SPECS=1',)), enc0)
    for (s, t), (s2, t2), (secs, bz, cols) in zip(p, q, back):
        bad = f'status {s2}' if s2 and not s else None if s else judge_names(secs, t, t2)
        if bad: return f'{bad}: {what(secs, bz, cols)}', len(enc0)
    return None, len(enc0)
def fals_C09(seed, rounds):
    rng = random.Random(seed); n = nt = 0; smp = []
    cmon.build('run'); cmon.build('run', san=True)
    for k in range(rounds):
        bz = rng.random() < .6; secs = program(rng, bz)
        if not ok_secs(secs): continue
        st = rng.getstate(); bad, c = case(secs, rng, bz, k % 10 == 0); n += 1; nt += c
        if bad:
            for _ in range(30):               # a smaller one
                alt = [s[:i] + s[i+1:] for s in [secs] for i in range(len(s)) if len(s) > 1] + [secs[:i] + [(p, l[:j] + l[j+1:])] + secs[i+1:] for i, (p, l) in enumerate(secs) for j in range(len(l)) if len(l) > 1]
                for a in alt:
                    rng.setstate(st); b2, _ = case(a, rng, bz, k % 10 == 0)
                    if b2: secs, bad = a, b2; break
                else: break
            return dict(bad=bad, n=n, nontrivial=nt, samples=smp)
        if len(smp) < 2: smp.append(text(secs, bz).replace('\n', ' ')[:250])
    return dict(bad=None, n=n, nontrivial=nt, samples=smp)
if __name__ == '__main__':
    import sys, time; quiet(); t = time.time()
    if sys.argv[1] == 'names': print(named_cases(random.Random(int(sys.argv[2])), int(sys.argv[3])))
    else: print(fals_C09(int(sys.argv[1]), int(sys.argv[2])))
    print(time.time() - t)
