"""C12, bounded: random variables, maps (any order, gaps, shared columns, array ranges, replaced and repeated maps) and trace headers; the binary runs on the
monitor and on the real command line with a file of exactly those columns; verdicts are judged against each variable's own column."""
import random, subprocess, os, re
from fpy import *
import fpy, cmon
_cli = None
def cli():
    """the command line of the monitor, from /repo"""
    global _cli
    if _cli is None:
        d = cmon.CSRC; src = [str(f) for f in sorted(__import__('pathlib').Path(d).rglob('*.c'))]; o = f'{scratch()}/r2u2cli'
        r = subprocess.run(['gcc', '-std=gnu99', '-O1', '-w', '-I', str(d), '-o', o, *src, '-lm'], capture_output=True, text=True)
        _cli = o if r.returncode == 0 else ''
    return _cli
def layout(rng, bz):
    """[(internal name, kind, source name)], declarations"""
    nm = ALLSIG if bz else ALLSIG[:3]; out = {}; decl = []
    if rng.random() < .4:                       # some Booleans are elements of an array
        w = rng.choice(['w', 'arr_1', 'Z']); size = rng.choice([3, 4, 12]); ix = rng.choice([rng.sample(range(size), 3), [size-1, 0, size-2]])
        for (x, k), i in zip(nm[:3], ix): out[x] = (k, f'{w}[{i}]')
        decl.append(f'{w}: bool[{size}];'); arr = (w, size)
    else: arr = None
    for x, k in nm:
        if x not in out: s = rng.choice([x, x + '1', 'sig_' + x, x.upper() + 'x']); out[x] = (k, s); decl.append(f'{s}: { {"a": "bool", "i": "int", "f": "float"}[k]};')
    rng.shuffle(decl)
    return out, 'INPUT ' + ' '.join(decl) + '\n', arr
def columns(rng, out, arr):
    """source name -> column, number of columns"""
    col = {}; style = rng.choice(['dense', 'gaps', 'shared'])
    if arr:
        lo = rng.choice([0, 0, 2, 5])
        for i in range(arr[1]): col[f'{arr[0]}[{i}]'] = lo + i
    free = [c for c in range(40) if c not in col.values()]; rest = [s for k, s in out.values() if s not in col]
    use = free[:len(rest)] if style != 'gaps' else sorted(rng.sample(free[:len(rest) + 6], len(rest)))
    rng.shuffle(use)
    for s, c in zip(rest, use): col[s] = c
    if style == 'shared':
        kind = {s: k for k, s in out.values()}
        x, y = rng.choice(rest or [None]), rng.choice(rest or [None])
        if x and kind[x] == kind[y]: col[y] = col[x]
    return col, max(col.values()) + 1 + rng.choice([0, 0, 2])
def maptext(rng, col, arr):
    l = []; items = dict(col)
    if arr and rng.random() < .7:
        k = rng.choice([rng.randrange(1, arr[1]), arr[1]-1]); a = items[f'{arr[0]}[0]']
        for lo, hi in ([(0, arr[1]-1)] if rng.random() < .5 else [(0, k-1), (k, arr[1]-1)]): l.append(f'{arr[0]}[{lo}..{hi}]:{a+lo}')
        for i in range(arr[1]): del items[f'{arr[0]}[{i}]']
    l += [f'{s}:{c}' for s, c in items.items()] + ['not_there:3'] * (rng.random() < .2); rng.shuffle(l); old = []
    if rng.random() < .25:                      # lines that later ones override
        old = [f'{s}:{rng.randrange(9)}' for s in rng.sample(sorted(col), rng.choice([1, 2]))]
        if arr and rng.random() < .6: lo = rng.randrange(arr[1]); old.append(f'{arr[0]}[{lo}..{rng.randrange(lo, arr[1])}]:{rng.randrange(9)}')
        rng.shuffle(old)
    return '\n'.join(old + l) + rng.choice(['', '\n'])
def renamed(t, out): return re.sub(r'(?<![\w.\[])([abcuvx])(?![\w(])', lambda m: out[m[1]][1] if m[1] in out else m[1], t)
def spec(rng, bz, past):
    f = wild(rng, rng.choice([0, 1, 1, 2]), past, bz, [])
    return None if size(f) > 40 or hor(f) > 40 or bare(f) else f
def value(k, rng): return rng.random() < .5 if k == 'a' else rng.choice([0.0, .5, 1.5, -1.5]) if k == 'f' else rng.choice([0, 1, 2, 3, -1])
def written(rows, head, style):
    """the rows as a trace file: with blanks around the values, with CRLF line ends, or with equal rows in a run written once with the time of the last"""
    cell = lambda v: str(int(v)) if isinstance(v, bool) else str(v)
    sep, end = {'blanks': (', ', '\n'), 'crlf': (',', '\r\n')}.get(style, (',', '\n')); l = [head]
    for t, r in enumerate(rows):
        if style == 'at' and t + 1 < len(rows) and rows[t+1] == r: continue
        l.append((f'@{t} ' if style == 'at' else '') + sep.join(map(cell, r)))
    return end.join(l) + end
def spread(ls):
    """verdict lines as the verdict of every time"""
    out, last = {}, {}
    for l in ls:
        k, t, v = re.match(r'(\d+):(\d+),([TF])$', l).groups()
        for i in range(last.get(k, -1) + 1, int(t) + 1): out[int(k), i] = v
        last[k] = max(last.get(k, -1), int(t))
    return sorted(out.items())
def typed(v, rng, bz):
    """a value as (kind, value) for the load calls; a Boolean column may be handed over as a number too if nothing but atomics are read"""
    if isinstance(v, bool): return (0, int(v)) if bz or rng.random() < .5 else rng.choice([(1, 1), (1, 2), (1, -1), (2, -2.0), (2, .5)] if v else [(1, 0), (2, 0.0), (2, -0.0)])
    return (2, v) if isinstance(v, float) else (1, v)
def case(rng):
    """(failure or None, whether something was judged, description)"""
    bz = rng.random() < .6; out, decl, arr = layout(rng, bz); past = rng.random() < .4
    fs = [f for f in (spec(rng, bz, past) for _ in range(rng.choice([1, 2]))) if f]
    if not fs: return None, 0, ''
    txt = decl + ('PTSPEC\n' if past else 'FTSPEC\n') + ''.join(renamed(show(f), out) + ';\n' for f in fs)
    how = rng.choice(['map', 'map', 'map', 'header', 'both', 'twice', 'early', 'again', 'generate'])
    col, ncol = columns(rng, out, arr); used = {out[x][1] for f in fs for x, _ in names(f) if x in out}
    mp = maptext(rng, col, arr); n = rng.choice([4, 8]); kind = {s: k for k, s in out.values()}
    c = Console(); pre = ['enable_booleanizer'] if bz else []
    src = write('m.c2po', txt); hdr = None; b = f'{scratch()}/m.bin'
    if os.path.exists(b): os.remove(b)
    if how in ('header', 'both'):
        if len(set(col.values())) < len(col) or how == 'both':   # one name per column
            col2 = {s: i for i, s in enumerate(rng.sample(sorted(col), len(col)))}
        else: col2 = col
        if how == 'header': col = col2; ncol = max(col.values()) + 1
        hdr = ['gap%d' % i for i in range(max(col2.values()) + 1)]
        for s, i in col2.items(): hdr[i] = s
    gone = None
    if how != 'generate' and rng.random() < .15 and used:
        gone = rng.choice(sorted(used))
        if how in ('header', 'both') and hdr: hdr = [('other' if h == gone else h) for h in hdr]
        mp = '\n'.join(f'{s}:{k}' for s, k in col.items() if s != gone)
    # the data: one value per column; what shares a column shares its kind
    ck = {k: kind.get(s, 'a') for s, k in col.items()}
    def table(ncol, ck): return [[value(ck.get(j, 'a'), rng) for j in range(ncol)] for _ in range(n)]
    rows = table(ncol, ck)
    if rng.random() < .3: rows = [rows[j // 3] for j in range(n)]     # runs of equal rows
    head = '#' + rng.choice([' ', '']) + rng.choice([',', ', ', ' , ']).join(hdr if hdr else ['c%d' % i for i in range(ncol)])
    def csv(rows): return '\n'.join([head] + [','.join(str(int(v)) if isinstance(v, bool) else str(v) for v in r) for r in rows]) + '\n'
    f = write('m.csv', csv(rows)); m = write('m.map', mp); old = write('old.map', '\n'.join(f'{s}:{i}' for i, s in enumerate(sorted(col))))
    asm = [f'assemble {b}']; P = [f'parse_c2po {src}']; passes = ['type_check', 'desugar', *DEFAULT]
    tail = {'map': P + [f'parse_map {m}'] + passes, 'header': P + [f'parse_trace {f}'] + passes, 'both': P + [f'parse_trace {f}', f'parse_map {m}'] + passes, 'twice': P + [f'parse_map {old}', f'parse_map {m}'] + passes,
            'early': [f'parse_map {m}'] + P + passes, 'again': P + [f'parse_map {old}'] + passes + [f'parse_map {m}'], 'generate': P + ['type_check', 'desugar', f'generate_map --output {m}', *DEFAULT]}[how]
    c.run(*pre, *tail)
    if bz and rng.random() < .2: c.run('compute_atomics', 'compute_atomics')
    c.run(*asm); W = f'{txt.strip()} [{", ".join(x.split("/")[0].strip() for x in tail)}] {"map: " + mp.replace(chr(10), " ") if how != "header" else head}'
    made = os.path.exists(b); live = {e.symbol for e in c.c.program.postorder(c.c.context) if type(e).__name__ == 'Signal'} if made or not c.ok else set()
    if gone:
        if made and gone in live and how != 'twice' and how != 'again': return f'{gone} has no column, yet the specification assembles: {W}', 1, W
        if how in ('twice', 'again') and made and gone in live: return f'{gone} has no column in the latest map, yet the specification assembles: {W}', 1, W
        return None, 1, W
    if not made:
        if constant(c): return None, 0, W
        return f'not compiled: {c.text[-200:]}: {W}', 1, W
    if how == 'generate':
        col = {}
        for l in open(m).read().split('\n'):
            if l: s, k = l.split(':'); col[s] = int(k)
        if len(set(col.values())) != len(col): return f'the generated map gives two variables one column: {col}: {W}', 1, W
        ncol = max(col.values()) + 1; rows = table(ncol, {k: kind.get(s, 'a') for s, k in col.items()}); f = write('m.csv', csv(rows))
    tr = {x: [r[col[s]] for r in rows] for x, (k, s) in out.items() if s in col}
    bi = open(b, 'rb').read()
    enc = cmon.encode(bi, [[typed(v, rng, bz) for v in r] for r in rows], ncol, 1)
    (st, t), = cmon.batch(cmon.build('run'), [enc]); vs = [v[:4] for v in cmon.parse(t)[0]]
    bad = judge(fs, tr, st, vs, t)
    if bad: return f'{bad}: {W}; columns {rows}', 1, W
    if cli() and rng.random() < .4:
        style = rng.choice(['plain', 'plain', 'blanks', 'crlf', 'at'])
        if style == 'at' and 'prev(' in txt: style = 'plain'      # prev is the value of the row before
        data = written(rows, head, style); open(f, 'w', newline='').write(data)
        try: r = subprocess.run([cli(), b, f], capture_output=True, text=True, timeout=20)
        except subprocess.TimeoutExpired: return f'the command line does not end: {W}; {data}', 1, W
        got = [l for l in r.stdout.split('\n') if re.match(r'\d+:\d+,[TF]$', l)]; want = [f'{x[1]}:{x[2]},{"T" if x[3] else "F"}' for x in vs]
        if style == 'at': got, want = spread(got), spread(want)
        if got != want: return f'the command line reports {got[:6]} where the columns give {want[:6]} (status {r.returncode}): {W}; {data}', 1, W
    return None, 1, W
def fals_C12(seed, rounds):
    rng = random.Random(seed); n = nt = 0; smp = []
    cmon.build('run'); cli()
    for k in range(rounds):
        key = rng.getrandbits(60); bad, c, w = case(random.Random(key)); n += 1; nt += c
        if bad:
            best = bad
            for j in range(60):             # a shorter one
                b2, _, _ = case(random.Random(key + 1 + j))
                if b2 and len(b2) < len(best) and b2[:12] == bad[:12]: best = b2
            return dict(bad=best, n=n, nontrivial=nt, samples=smp)
        if c and len(smp) < 2: smp.append(w.replace('\n', ' ')[:250])
    return dict(bad=None, n=n, nontrivial=nt, samples=smp)
if __name__ == '__main__':
    import sys, time; quiet(); t = time.time(); print(fals_C12(int(sys.argv[1]), int(sys.argv[2])), time.time() - t)
