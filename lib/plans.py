"""What each property's check proves and replays."""
import llir
CT = ['clang 18 -O1 front end, llvm-link and the LLVM passes always-inline, sroa, mem2reg, dce, simplifycfg (they produce the IR that is verified)',
      'lib/llir.py, lib/irsym.py (verification-condition generator over LLVM IR)', 'z3 4.x']
CA = {'ops': ['operand and node times stay below 2^31-2 - ub (31-bit time field), and the interval bounds satisfy lb <= ub',
              'r2u2_scq_read/r2u2_scq_write contracts (proved under M04) in the case that no queue is overrun (sizes: C04)',
              'fprintf, the output callback and the aux report functions do not write monitor memory'],
      'scq': ['no overrun: what a reader has not consumed stays in the queue (sizes: C04)', 'the writer hands over increasing time stamps (proved for every operator under M01-M03, M05)'],
      'eng': ['r2u2_bz_update and r2u2_mltl_update contracts (proved under M07 and M01-M03, M05)', 'fewer than 2^31 instructions; time stamp below 2^31-1',
              'a step makes finitely many passes: every pass but the last flags progress, which is bounded by the data available (M05 obligations)'],
      'bz': ['pow and sqrt are the C library\'s (uninterpreted here)', 'integer division by zero and INT_MIN/-1 excluded (undefined in C)', 'slot, signal and atomic numbers lie inside their arrays (C09)'],
      'load': ['the specification bytes are well formed: records end with a zero length, and length records precede the bound records (C06)', 'fewer than 2^30 instructions and queue slots']}
CMD = 'python3-vt lib/check.py {} (VCs over LLVM IR of /repo/monitors/c/src, z3)'

def cjobs(prop, text):
    import cops
    ops = lambda *o: [('cops', j) for j in cops.alljobs(o, text)]
    if prop == 'M01': return ops('UNTIL', 'RELEASE'), ['ops']
    if prop == 'M02': return ops('SINCE', 'TRIGGER'), ['ops']
    if prop == 'M03': return ops('LOAD', 'NOT', 'AND', 'OR', 'EQUIVALENT', 'RETURN'), ['ops']
    if prop == 'M04':
        import cscq
        return [('cscq', (w, text)) for w in cscq.jobs()], ['scq']
    if prop == 'M05':
        import ceng
        return ops('UNTIL', 'RELEASE', 'SINCE', 'TRIGGER', 'LOAD', 'NOT', 'AND', 'OR', 'EQUIVALENT', 'RETURN') + [('ceng', ('engine_step', text))], ['ops', 'eng']
    if prop == 'M06':
        import ceng
        return [('ceng', (w, text)) for w in ceng.jobs()], ['eng']
    if prop == 'M07':
        import cbz
        return [('cbz', (w, text)) for w in cbz.jobs()], ['bz']
    if prop == 'M08':
        import cload
        return [('cload', (w, text)) for w in cload.jobs()], ['load']
ROUNDS = dict(M01=12, M02=12, M03=12, M04=30, M05=12, M06=12, M07=20, M08=20)
def runc(c):
    jobs, ass = [], []
    try:
        text = llir.extract()
        jobs, ass = cjobs(c.prop, text)
    except llir.ExtractError as e: c.errs.append(('extraction', str(e)[:300]))
    c.prove(jobs)
    r = ROUNDS[c.prop] * (12 if c.tier == 'thorough' else 1)
    c.falsify('falsc', c.prop, r)
    if not c.bad and (c.errs or c.vac or any(x[1] != 'proved' for x in c.res)):
        c.seed += 77; c.falsify('falsc', c.prop, r*8); c.seed -= 77
    c.rule = {'M04': 'a read that returned a verdict', 'M07': 'a value slot compared with its operator', 'M08': 'a node whose layout was compared'}.get(c.prop, 'a program run whose verdicts were judged against the semantics')
    return c.finish(CT, [x for a in ass for x in CA[a]], CMD.format(c.prop))
def run(c):
    if c.prop[0] == 'M': return runc(c)
    import plansp
    return plansp.run(c)
