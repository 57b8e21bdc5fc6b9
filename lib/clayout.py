"""Field offsets, sizes and enum values of the real C headers, measured by compiling a probe with clang."""
import subprocess, tempfile, pathlib
from llir import CSRC, ExtractError
STRUCTS = {
 'r2u2_monitor_t': ['time_stamp','progress','bz_program_count.curr_program_count','bz_program_count.max_program_count','bz_instruction_tbl',
    'mltl_program_count.curr_program_count','mltl_program_count.max_program_count','mltl_instruction_tbl','out_file','out_func','signal_vector',
    'value_buffer','atomic_buffer','queue_arena.control_blocks','queue_arena.queue_mem'],
 'r2u2_mltl_instruction_t': ['op1_value','op2_value','memory_reference','op1_type','op2_type','opcode'],
 'r2u2_bz_instruction_t': ['param1','param2','memory_reference','opcode'],
 'r2u2_scq_control_block_t': ['length','write','read1','read2','next_time','queue'],
 'r2u2_scq_temporal_block_t': ['edge','previous','lower_bound','upper_bound'],
}
CONSTS = ['R2U2_MLTL_OP_NOP','R2U2_MLTL_OP_CONFIGURE','R2U2_MLTL_OP_LOAD','R2U2_MLTL_OP_RETURN','R2U2_MLTL_OP_UNTIL','R2U2_MLTL_OP_RELEASE','R2U2_MLTL_OP_NOT',
 'R2U2_MLTL_OP_AND','R2U2_MLTL_OP_OR','R2U2_MLTL_OP_EQUIVALENT','R2U2_MLTL_OP_SINCE','R2U2_MLTL_OP_TRIGGER','R2U2_FT_OP_DIRECT','R2U2_FT_OP_ATOMIC','R2U2_FT_OP_SUBFORMULA','R2U2_FT_OP_NOT_SET',
 'R2U2_MONITOR_PROGRESS_FIRST_LOOP','R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS','R2U2_MONITOR_PROGRESS_RELOOP_WITH_PROGRESS','R2U2_ENG_BZ','R2U2_ENG_TL','R2U2_ENG_CG','R2U2_OK',
 'R2U2_TEMPORAL_METADATA_SIZE','R2U2_MAX_QUEUE_SLOTS','R2U2_MAX_TEMPORAL_OPERATORS','R2U2_MAX_TL_INSTRUCTIONS','R2U2_MAX_BZ_INSTRUCTIONS','R2U2_MAX_SIGNALS','R2U2_MAX_ATOMICS'] + \
 ['R2U2_BZ_OP_'+x for x in 'NONE ILOAD FLOAD ICONST FCONST STORE BWNEG BWAND BWOR BWXOR IEQ FEQ INEQ FNEQ IGT FGT IGTE FGTE ILT FLT ILTE FLTE INEG FNEG IADD FADD ISUB FSUB IMUL FMUL IDIV FDIV MOD IPOW FPOW ISQRT FSQRT IABS FABS PREV'.split()] + ['R2U2_BZ_TS']
HDR = '''#include <stdio.h>
#include <stddef.h>
#include "internals/config.h"
#include "r2u2.h"
#include "memory/monitor.h"
#include "engines/engines.h"
#include "engines/mltl.h"
#include "engines/booleanizer.h"
#include "internals/process_binary.h"
'''
_c = {}
def layout():
    if _c: return _c
    src = HDR + 'int main(void){\n'
    for s, fs in STRUCTS.items():
        src += f'printf("S {s} %zu\\n", sizeof({s}));\n'
        for f in fs:
            src += f'printf("F {s} {f} %zu %zu\\n", offsetof({s},{f}), sizeof((({s}*)0)->{f}));\n'
    for c in CONSTS:
        src += f'printf("C {c} %lld\\n", (long long)({c}));\n'
    src += 'printf("E %.17g\\n", (double)R2U2_FLOAT_EPSILON); return 0;}\n'
    with tempfile.TemporaryDirectory() as d:
        pathlib.Path(d+'/p.c').write_text(src)
        r = subprocess.run(['clang','-std=c99','-D_POSIX_C_SOURCE=200112L','-w','-I',str(CSRC),'-o',d+'/p',d+'/p.c'], capture_output=True, text=True)
        if r.returncode: raise ExtractError('layout probe: ' + r.stderr[-1500:])
        out = subprocess.run([d+'/p'], capture_output=True, text=True, check=True).stdout
    L = {'size': {}, 'off': {}, 'fsize': {}, 'c': {}}
    for l in out.split('\n'):
        w = l.split()
        if not w: continue
        if w[0] == 'S': L['size'][w[1]] = int(w[2])
        if w[0] == 'F': L['off'][w[1], w[2]] = int(w[3]); L['fsize'][w[1], w[2]] = int(w[4])
        if w[0] == 'C': L['c'][w[1]] = int(w[2])
        if w[0] == 'E': L['eps'] = float(w[1])
    _c.update(L)
    return _c
if __name__ == '__main__':
    print(layout())
