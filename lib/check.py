"""Driver of the checks:  check.py <property> [--thorough]
1. proof: the property's verification conditions are generated from /repo's current sources and discharged.
2. replay: the property's concrete judge runs the real code on generated inputs (deeper when an obligation is open).
A failing input is reported as it is; an obligation that is refuted or not accepted, without a failing input, is reported
with the words no-failing-input-found; a function the verifier cannot take in (extraction or language subset) is decided
by the bounded judge alone, and evidence says so."""
import sys, os, json, time, random, multiprocessing as mp, pathlib, hashlib, traceback
ROOT = pathlib.Path(__file__).parent.parent
sys.path.insert(0, str(ROOT/'lib'))
sys.setrecursionlimit(10000)
def pool(n=8): return mp.get_context('fork').Pool(n)

def runjob(a):
    modname, args = a
    t = time.time()
    try:
        m = __import__(modname)
        return m.job(args)
    except Exception as e:
        return dict(tag=f'{modname} {str(args)[:60]}', res=[], paths=0, covers={}, wall=time.time()-t, err=f'{type(e).__name__}: {e}', fns={})
def runfals(a):
    modname, args = a
    try:
        return __import__(modname).fals(args)
    except Exception as e:
        return dict(bad=None, n=0, nontrivial=0, samples=[], crash=f'{type(e).__name__}: {e} {traceback.format_exc()[-700:]}')

def known():
    out = []
    f = ROOT/'known-findings.txt'
    if f.exists():
        for l in f.read_text().split('\n'):
            if l.startswith('KNOWN-FINDING:'):
                h, _, key = l.partition(' key='); out.append((h, key.strip()))
    return out

class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed, self.t0 = prop, tier, seed, time.time()
        self.res = []; self.errs = []; self.fns = {}; self.vac = []; self.jobs = 0; self.tags = {}
        self.n = self.nt = 0; self.samples = []; self.bad = []; self.crash = []; self.kf = []
        self.skip = []; self.bres = []; self.ba = []
    def prove(self, jobs):
        """jobs: [(module, args)]"""
        if not jobs: return
        with pool() as p:
            for r in p.imap_unordered(runjob, jobs, chunksize=1):
                self.jobs += 1
                if r['err']: self.errs.append((r['tag'], r['err'])); continue
                if r.get('skip'): self.skip.append((r['tag'], r['skip']))
                elif not r['paths'] or not (r['res'] or r.get('bres')): self.vac.append(r['tag'])
                self.bres += r.get('bres', []); self.bad += r.get('bad', [])
                for k in r.get('known', []):
                    if k not in self.kf: self.kf.append(k)
                self.res += r['res']; self.tags[r['tag']] = (len(r['res']), round(r['wall'], 2))
                for f, k in r['fns'].items(): self.fns[f] = self.fns.get(f, 0) + k
    def falsify(self, mod, prop, rounds, workers=8):
        with pool(workers) as p:
            for r in p.imap_unordered(runfals, [(mod, (prop, self.seed*1000 + k, rounds)) for k in range(workers)], chunksize=1):
                self.n += r['n']; self.nt += r['nontrivial']
                if r.get('crash'): self.crash.append(r['crash'])
                for k in r.get('known', []):
                    if k not in self.kf: self.kf.append(k)
                if len(self.samples) < 6: self.samples += r['samples'][:2]
                if r['bad']: self.bad.append(r['bad'])
    def finish(self, trusted, assumptions, checker, note=''):
        ok = [r for r in self.res if r[1] == 'proved']; open_ = [r for r in self.res + self.bres if r[1] != 'proved']
        viol = None; line = ''
        rdir = ROOT/'evidence'/'replay'; rdir.mkdir(parents=True, exist_ok=True)
        rp = rdir/f'{self.prop}.txt'
        if self.bad:
            self.bad.sort(key=len); viol = self.bad[0]
            rp.write_text(f'property {self.prop}\nfailing input on the real code:\n{self.bad[0]}\n\nopen obligations:\n' + '\n'.join(f'{r[0]}: {r[1]}\n   {(r[3] or "")[:1200]}' for r in open_[:40]))
            line = f'VIOLATION property={self.prop} replay={rp}'
        elif open_:
            viol = 'obligation not discharged: ' + open_[0][0]
            rp.write_text(f'property {self.prop}\nno failing input found\nfailed obligations:\n' + '\n'.join(f'{r[0]}: {r[1]}\n   {(r[3] or "")[:1500]}' for r in open_[:60]))
            line = f'VIOLATION property={self.prop} replay={rp} no-failing-input-found'
        if not viol and not self.n and (self.errs or self.vac or not ok):
            print(f'ERROR: nothing decided: {self.errs[:3]} {self.vac[:3]} {self.crash[:1]}'); self.evidence('other', ok, open_, trusted, assumptions, checker, viol); return 2
        if self.crash and not viol:
            print('ERROR: the concrete judge failed: ' + self.crash[0]); self.evidence('other', ok, open_, trusted, assumptions, checker, viol); return 2
        level = 'proof' if ok and not self.errs and not self.vac else 'exploration'
        self.evidence(level, ok, open_, trusted, assumptions, checker, viol)
        for k in self.kf: print(f'KNOWN-FINDING: property={self.prop} {k}')
        for t, e in self.errs[:6]: print(f'note: {t} is outside the verifier\'s reach ({e[:160]}); decided by the bounded check')
        for r in open_[:6]: print(f'obligation {r[1]}: {r[0]}')
        print(f'{self.prop} {self.tier}: {len(ok)}/{len(self.res)} obligations discharged' + (f' (+{len(self.bres)} bounded)' if self.bres else '') + f' from {self.jobs} units, {self.n} concrete runs ({self.nt} non-trivial), {time.time()-self.t0:.0f}s')
        if viol: print(viol[:600]); print(line); return 1
        return 0
    def evidence(self, level, ok, open_, trusted, assumptions, checker, viol):
        solver = sum(r[2] for r in self.res)
        cov = dict(obligations=len(self.res), discharged=len(ok), checker_cmd=checker, trusted_base=trusted, assumptions=assumptions,
                   solver_s=round(solver, 2), functions_under_contract=sorted(f for f in self.fns), units={k: dict(obligations=v[0], wall_s=v[1]) for k, v in sorted(self.tags.items())[:120]},
                   not_discharged=[dict(obligation=r[0], status=r[1]) for r in open_[:50]], outside_reach=[dict(unit=t, reason=e[:300]) for t, e in self.errs[:50]], without_obligations=self.vac, stated_for_small_arities_only=[dict(unit=t, reason=e[:200]) for t, e in self.skip[:50]],
                   bounded_obligations=dict(label='bounded; not counted as proved', number=len(self.bres), held=sum(r[1] == 'proved' for r in self.bres)),
                   backends={'z3': len(self.res)},
                   bounded=dict(label='bounded replay on the real code; never counted as proved', evaluations=self.n, distinct_nontrivial=self.nt, rule=self.rule))
        cov.update(evaluations=self.n, distinct_nontrivial=self.nt, rule=self.rule, samples=self.samples[:6] or ['none'])
        if self.note: cov['note'] = self.note
        if level == 'other': cov['explanation'] = 'the check could not decide: ' + str(self.errs[:3] + self.vac[:3] + self.crash[:1])
        if viol: cov['violations'] = [str(viol)[:2000]]
        if self.kf: cov['known_findings'] = self.kf
        (ROOT/'evidence').mkdir(exist_ok=True)
        (ROOT/'evidence'/f'{self.prop}.json').write_text(json.dumps(dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov, wall_s=round(time.time()-self.t0, 2)), indent=1))
    note = ''
    rule = 'a run counts when the monitor (or compiler) produced output that the judge compared with the reference'

def main():
    prop = sys.argv[1]; tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import plans
    c = Check(prop, tier, seed)
    sys.exit(plans.run(c))
if __name__ == '__main__': main()
