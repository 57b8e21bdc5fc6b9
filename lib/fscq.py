"""Replay of the connection-queue contracts on the real r2u2_scq_write/read: random schedules against a stream model."""
import random, subprocess
import cmon
def scenario(rng):
    nq = rng.choice([2, 3, 4]); lens = [rng.choice([1, 1, 2, 3, 4, 5, 8]) for _ in range(nq)]
    L = ['N %d %s' % (nq, ' '.join(map(str, lens)))]; exp = [None]
    st = [dict(h=-1, v=None, segs=[], pend={}) for _ in range(nq)]       # segs: [end, value] merged stream
    readers = []; nts = [0]*nq                                          # next_time is per node
    for p in range(nq):
        for num in (0, 1):
            if rng.random() < .7: readers.append(dict(p=p, num=num, c=rng.choice([c for c in range(nq) if c != p]), pos=0))
    for s in st: s['raw'] = []
    for _ in range(rng.choice([10, 25, 60])):
        if rng.random() < .5 or not readers:
            q = rng.randrange(nq); s = st[q]; raw = s['raw']
            # no overrun: what a reader has not consumed yet, from its read position on, must still fit
            if any(len(raw) - r['pos'] + 1 > lens[q] and any(e >= nts[r['p']] for e, _ in raw) for r in readers if r['c'] == q): continue
            t = s['h'] + rng.choice([1, 1, 1, 2, 3, 7]); v = rng.random() < .5 if rng.random() < .6 else bool(s['v'])
            if s['h'] == -1 and rng.random() < .7: t = rng.choice([0, 0, 1])
            L.append(f'W {q} {t} {int(v)}'); exp.append(('W', q))
            raw.append((t, v)); s['h'], s['v'] = t, v
        else:
            r = rng.choice(readers); raw = st[r['c']]['raw']; p = r['p']
            if rng.random() < .6:
                c2 = [x for x in readers if x['p'] == p]
                nx = [e for x in c2 for e, _ in st[x['c']]['raw'] if e >= nts[p]]
                nts[p] = rng.choice([nts[p], nts[p], nts[p] + 1] + [n + 1 for n in nx[:3]])
            L.append(f"R {p} {r['c']} {r['num']} {nts[p]}")
            exp.append(('R', nts[p], list(raw), lens[r['c']]))
            nx = [k for k, (e, _) in enumerate(raw) if e >= nts[p]]
            r['pos'] = nx[0] if nx else max(len(raw) - 1, 0)
    return L, exp
def judge(e, ans):
    w = ans.split()
    if w[-1] != '0': return 'something outside the queue (or the read position) changed'
    if e[0] == 'W': return None if w[0] == '0' else 'write status ' + w[0]
    nt, raw, ln = e[1:]
    h = raw[-1][0] if raw else -1
    if w[0] == '0': return None if h < nt else f'nothing returned for {nt}, but {raw} was written'
    t, v = int(w[1]), w[2] == '1'
    if not raw: return 'verdict from an empty queue'
    def val(n):
        for x, y in raw:
            if x >= n: return y
    if t < nt: return f'returned {t} older than {nt}'
    if t not in [x for x, _ in raw]: return f'returned time {t} never written ({raw})'
    for n in range(nt, t+1):
        if val(n) is not v: return f'returned ({t},{v}) for {nt}, but the stream is {val(n)} at {n} ({raw})'
    # the first verdict that is new enough, up to merging with its successors of equal truth
    return None
def run(seed, n, minimal=True):
    exe = cmon.build('scq'); rng = random.Random(seed); bad = []; cnt = 0; nontriv = 0
    for k in range(n):
        sc = [scenario(rng) for _ in range(200)]
        p = subprocess.run([exe], input='\n'.join(l for L, _ in sc for l in L), capture_output=True, text=True)
        ans = p.stdout.split('\n')[:-1]; i = 0
        for L, E in sc:
            cnt += 1; err = None
            for j, (l, e) in enumerate(zip(L, E)):
                if e is None: continue
                if i >= len(ans): err = (j, f'no answer (exit {p.returncode})'); break
                nontriv += e[0] == 'R' and ans[i][0] == '1'
                if err is None:
                    r = judge(e, ans[i])
                    if r: err = (j, r)
                i += 1
            if err: bad.append((L[:err[0]+1], err[1]))
            if i >= len(ans) and err: break
        if bad: break
    bad.sort(key=lambda b: len(b[0]))
    return bad, cnt, nontriv
if __name__ == '__main__':
    import time; t = time.time(); print(run(2, 100), time.time()-t)
