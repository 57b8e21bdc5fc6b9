import json, pathlib
ROOT = pathlib.Path(__file__).parent.parent
T = 'contract-based deductive verification: '
M = {
 'M01': ('proof', T + 'operator contracts on r2u2_mltl_update (LLVM IR), z3', 'Unbounded in bounds, times, streams and schedules; 31-bit times assumed not to overflow; queue contracts proved under M04. Bounded replay on the real binary beside it.'),
 'M02': ('proof', T + 'operator contracts on r2u2_mltl_update (LLVM IR), z3', 'As M01, for Since and Trigger.'),
 'M03': ('proof', T + 'operator contracts on r2u2_mltl_update (LLVM IR), z3', 'As M01, for the propositional operators, loads and returns.'),
 'M04': ('proof', T + 'contracts and loop invariants on r2u2_scq_write/read, z3', 'Any queue length and history, under the no-overrun condition that C04 supplies.'),
 'M05': ('proof', T + 'monotonicity, no-stall and progress obligations of every operator, engine loop invariant, z3', 'The delay bound follows by induction over the formula from the per-operator no-stall obligations (argument in DESIGN.md).'),
 'M06': ('proof', T + 'loop invariants on r2u2_engine_step, contracts on resets and step, z3', 'Callees by contract; termination given finitely many progress-flagging passes.'),
 'M07': ('proof', T + 'bit-exact contracts on r2u2_bz_update per opcode, z3 bit vectors and floats', 'pow and sqrt uninterpreted; undefined integer divisions excluded.'),
 'M08': ('proof', T + 'bit-exact contracts on the decoders, record loop, queue configuration; layout lemmas, z3', 'One arbitrary record; well-formed binaries assumed (C06).'),
}
NA = []
def main():
    import sys
    sys.path.insert(0, str(ROOT/'lib'))
    try:
        import planinfo; M.update(planinfo.INFO); NA.extend(planinfo.NA)
    except ImportError: pass
    props = [json.loads(l)['id'] for l in open(ROOT/'properties.jsonl')]
    ids = {p for p in props}
    checks = [dict(property=p, quick_cmd=f'python3-vt lib/check.py {p}', thorough_cmd=f'python3-vt lib/check.py {p} --thorough', evidence_file=f'evidence/{p}.json', technique=M[p][1], level=M[p][0], level_note=M[p][2]) for p in props if p in M]
    na = NA + [dict(property=p, reason='no check yet') for p in props if p not in M and p not in [x['property'] for x in NA]]
    json.dump(dict(version=1, setup_cmd='python3-vt -m py_compile lib/check.py', checks=checks, not_applicable=na,
                   notes='No hooks in /repo. Checks extract the code from /repo on every run.'), open(ROOT/'MANIFEST.json', 'w'), indent=1)
main()
