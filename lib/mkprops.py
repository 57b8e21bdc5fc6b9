#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m) for n, m in state])))
MC='monitors/c/src/engines/mltl.c'; SQ='monitors/c/src/memory/shared_connection_queue.c'

p('M01','C monitor: every Until and Release verdict is the MLTL semantics',
  'Whenever the C monitor produces a verdict (T, v) for an Until or Release node with bounds [lb,ub], then v is the MLTL value of that node, over its operands\' truth streams, at T and at every earlier time not yet covered by one of its verdicts. This holds for every lb <= ub, every pair of operand streams, and however those streams are cut into verdicts and interleaved in time.',
  ['inputs','histories','schedules'],'all bounds, all operand truth streams, all ways the two operands\' verdicts arrive (aggregated, one far ahead of the other, constants)',
  'The tests run a few dozen fixed formulas and traces; correctness depends on the bounds, the stream contents and the relative progress of the two operands, which is unbounded.',
  [MC],[('case R2U2_MLTL_OP_UNTIL / RELEASE',MC),('check_operand_data',MC)],
  [('temp->previous','last verdict produced; its truth bit flags that one was produced'),('ctrl->next_time','first operand time not yet consumed')])
p('M02','C monitor: every Since and Trigger verdict is the past-time MLTL semantics',
  'Whenever the C monitor produces a verdict (T, v) for a Since or Trigger node with bounds [lb,ub], then v is the past-time MLTL value of that node at T and at every earlier time not yet covered by one of its verdicts, where times before the start of the trace do not exist (a window that is empty makes Since false and Trigger true). This holds for every lb <= ub, every pair of operand streams, and however those streams are cut into verdicts and interleaved in time.',
  ['inputs','histories','schedules'],'all bounds, all operand truth streams, all arrival patterns of the two operands, including the start of the trace',
  'Past operators remember one edge and one previous verdict; whether that memory suffices depends on arbitrary histories, while tests use a handful of short traces.',
  [MC],[('case R2U2_MLTL_OP_SINCE / TRIGGER',MC)],
  [('temp->edge','time of the latest right-operand edge, truth bit = valid'),('temp->previous','last verdict produced')])
p('M03','C monitor: propositional verdicts are the pointwise truth values',
  'Every verdict the C monitor produces for an atomic load, Not, And, Or or Equivalence node carries, for its time stamp and every earlier time not yet covered, the pointwise Boolean value of its operands, and a formula\'s reported verdicts are exactly those of its top node, under the formula\'s own number. A short-circuited verdict (one operand not ready) is only produced when the ready operand alone decides the value.',
  ['inputs','histories','schedules'],'all operand streams and all relative arrivals of the operands\' verdicts, constants included',
  'Aggregated verdicts with different time stamps on the two sides give unboundedly many combinations; tests only hit those of a few traces.',
  [MC],[('case LOAD/RETURN/NOT/AND/OR/EQUIVALENT',MC),('check_operand_data',MC)],[('ctrl->next_time','first operand time not yet consumed')])
p('M04','Connection queues deliver the written verdict stream, and touch nothing else',
  'For a queue of any length >= 1, a reader asking for a time at or after its last consumed time receives a verdict that the writer wrote, the first one whose time stamp is not smaller than the one asked for, and it is told there is nothing exactly when no such verdict has been written, as long as it is not overrun. Writing may merge a verdict into the previous one only if both carry the same truth value, and reading or writing one queue changes no other queue and no bounds, verdict memory or read position of another node.',
  ['histories','configurations','inputs'],'all queue lengths, all sequences of writes with increasing time stamps, all interleaved reads by either reader of a node',
  'The ring index arithmetic, aggregation and the empty marker interact over unbounded write/read histories and for every length; tests sample lengths up to about ten.',
  [SQ,'monitors/c/src/memory/shared_connection_queue.h'],[('r2u2_scq_write',SQ),('r2u2_scq_read',SQ)],
  [('write/read1/read2','ring positions'),('queue[0]==infinity','nothing written yet')])
p('M05','C monitor: verdicts come in order, without gaps, and as soon as the delay allows',
  'The verdicts the C monitor reports for one formula have strictly increasing time stamps, and none is repeated or retracted. After the step for time t, the verdict of every time n with n + d <= t has been reported, where d is the formula\'s worst-case propagation delay; no step loops forever.',
  ['inputs','histories','programs'],'all formulas within the configured bounds, all traces, every step',
  'Liveness depends on whether each node makes progress under every relative arrival of its operands and whether the fix-point loop stops too early; the tests compare whole outputs of a few traces only.',
  [MC,'monitors/c/src/engines/engines.c','compiler/c2po/scq.py'],[('push_result progress flag',MC),('r2u2_engine_step',"monitors/c/src/engines/engines.c"),('next_time / previous updates',MC)],
  [('monitor->progress','first loop / reloop without / with progress'),('ctrl->next_time','consumed operand times')])
p('M06','C monitor: one step consumes one sample for every instruction, at one time stamp',
  'One call of the step function evaluates every Boolean-layer instruction once, in program order, on the current signal values, then evaluates every temporal-layer instruction in program order repeatedly until nothing changes, reading the atomic values only for the current time stamp, and finally advances the time stamp by exactly one. A monitor that has been reset behaves on a following trace as the freshly loaded one does.',
  ['histories','inputs','programs'],'all instruction tables and all sequences of steps and resets',
  'The tests only compare final outputs for fixed specifications, and never reset in mid-trace.',
  ['monitors/c/src/engines/engines.c','monitors/c/src/lib.c','monitors/c/src/memory/monitor.c'],[('r2u2_engine_step','monitors/c/src/engines/engines.c'),('r2u2_step','monitors/c/src/lib.c'),('r2u2_monitor_reset / clean_hard',"monitors/c/src/memory/monitor.c")],
  [('time_stamp','current step'),('mltl_program_count / bz_program_count','instruction cursor')])
p('M07','C monitor: each Boolean-layer instruction computes its operator and nothing else',
  'Every Boolean-layer instruction of the C monitor stores, in the slot it names, the result its operator defines for its operands: signal and constant loads, bitwise and Boolean operators, comparisons, and integer and floating-point arithmetic, with two\'s-complement integer and IEEE double arithmetic and comparisons of floating-point values up to the documented tolerance. The store instruction hands the temporal layer the atomic it names, and no other slot or atomic changes.',
  ['inputs','programs'],'all operand values (integers and doubles) and all slot numbers',
  'The tests exercise an instruction on one or two values each.',
  ['monitors/c/src/engines/booleanizer.c'],[('r2u2_bz_update','monitors/c/src/engines/booleanizer.c')],[('value_buffer','one slot per instruction'),('atomic_buffer','truth of each atomic at this step')])
p('M08','C monitor: loading a specification sets up disjoint queues and all instructions',
  'Loading a specification gives every node a queue of exactly the configured number of slots, followed by space for the temporal data exactly when the node is temporal, such that no two nodes\' memory overlaps; it records the configured interval bounds, and marks every queue empty. Every instruction in the specification is entered into its engine\'s table once, in order, with the operands the file gives.',
  ['programs','configurations'],'all specification binaries the compiler can produce within the configured memory',
  'An overlap only shows if the overlapping slots are live at the same time; the tests use a few layouts.',
  ['monitors/c/src/internals/process_binary.c',MC],[('r2u2_process_binary','monitors/c/src/internals/process_binary.c'),('r2u2_mltl_configure_instruction_dispatch',MC)],
  [('control_blocks[i].queue/length','slot range of node i')])
p('C01','C2PO: the rewriting optimisation preserves every formula\'s meaning',
  'The rewrite pass replaces a formula only by one with the same MLTL value at every time of every trace: constant folding, double negation, nested and factored temporal operators with any interval bounds, and all other rules. Formulas it does not rewrite are left unchanged.',
  ['programs','inputs'],'all formulas, all interval bounds, all traces',
  'Each rule has side conditions on interval bounds and operand shapes; the tests have one or two instances per rule and compare text, not meaning.',
  ['compiler/c2po/rewrite.py'],[('optimize_rewrite_rules','compiler/c2po/rewrite.py')])
p('C02','C2PO: normal forms and operator lowering preserve every formula\'s meaning',
  'Converting a specification to negation normal form or to Boolean normal form, replacing extended operators by the core ones the monitor implements, splitting n-ary operators into binary ones and unrolling bounded temporal operators each yield formulas with the same MLTL value at every time of every trace. After the lowering the compiler uses for assembly, only operators the monitor implements remain.',
  ['programs','inputs'],'all formulas, nesting, arities and interval bounds, all traces',
  'The tests compare the printed result for a handful of formulas; whether a rewriting is an equivalence is a question over all formulas, bounds and traces.',
  ['compiler/c2po/transform.py'],[('to_nnf / to_bnf','compiler/c2po/transform.py'),('remove_extended_operators','compiler/c2po/transform.py'),('multi_operators_to_binary','compiler/c2po/transform.py')])
p('C03','C2PO: common-subexpression elimination only merges equal expressions',
  'Common-subexpression elimination replaces a subformula by another node only if the two are the same expression: same operator, same operands, same interval bounds, same constant or signal. Every formula keeps its value, its name and its number, and future-time and past-time formulas are unaffected by each other.',
  ['programs'],'all specifications (any number of formulas, sharing and nesting)',
  'Merging two different subformulas shows only for specifications that contain both and traces that tell them apart.',
  ['compiler/c2po/cse.py','compiler/c2po/cpt.py'],[('optimize_cse','compiler/c2po/cse.py'),('to_prefix_str','compiler/c2po/cpt.py')])
p('C04','C2PO: delays and queue sizes suffice, so no verdict is lost',
  'For every formula the compiler\'s best- and worst-case propagation delays bound the time between a step and the verdicts it can yield, and the queue it configures for every node is long enough that no verdict is overwritten before every parent has read it. Hence the monitor\'s output does not depend on the queue lengths: larger queues give the same verdicts.',
  ['programs','inputs','schedules'],'all formulas, sharing of subformulas, bounds, and all traces',
  'An undersized queue loses a verdict only for a particular combination of sibling delays and input changes.',
  ['compiler/c2po/scq.py','compiler/c2po/cpt.py'],[('compute_scq_sizes','compiler/c2po/scq.py'),('update_propagation_delays','compiler/c2po/cpt.py')],[('wpd/bpd','worst/best-case propagation delay of a node'),('scq_size','slots of the node\'s queue')])
p('C05','C2PO: definitions, structs, arrays, sets, contracts expand to their meaning',
  'Replacing definitions, enumeration constants, struct and array accesses, quantification and counting over sets (for-each, for-some, for-exactly, for-at-least, for-at-most n) and assume-guarantee contracts by core formulas either ends in an error or yields, for each specification, a formula with the denoted meaning on every trace. The order and number of the specifications are kept: one per formula, three per contract.',
  ['programs','inputs'],'all set sizes, thresholds, member formulas, nestings of definitions and structures, all traces',
  'The tests cover one instance per construct and compare printed text.',
  ['compiler/c2po/desugar.py'],[('desugar passes','compiler/c2po/desugar.py')])
p('C06','C2PO: the assembled instructions and bytes denote the formula',
  'The assembly of a lowered specification has one instruction per distinct subformula, after those of its operands, with the operator, operands, interval bounds, queue and formula numbers of that subformula; every formula has its return instruction. The binary encodes exactly that listing, in the layout the C monitor reads, and a value that the format cannot hold is rejected instead of being truncated. The names in the binary belong to their formulas: a monitor that prints names prints every verdict under the name of its specification and the status of every contract.',
  ['programs'],'all lowered specifications, including shared subformulas and mixed future-time, past-time and Boolean-layer programs',
  'Tests compare a few listings; field widths, offsets and numbering matter for every instruction kind and value.',
  ['compiler/c2po/assemble.py','monitors/c/src/internals/process_binary.c','monitors/c/src/instructions'],[('gen_assembly / assemble','compiler/c2po/assemble.py'),('pack_*_instruction','compiler/c2po/assemble.py')])
p('C07','C2PO: satisfiability answers agree with MLTL semantics',
  "For every formula and every encoding offered, an answer 'sat' is given only if some finite trace satisfies the formula at time zero and 'unsat' only if none does: by default among the traces long enough to decide the formula (its computation length), with --strict among the traces of any length, on which a proposition beyond the end is false (docs/Preliminaries/mltl.md). An answer 'equiv' of check_equiv is given only if no such trace tells the formulas apart, 'not equiv' only if one does. So the answers of the encodings never contradict each other. A solver that fails, is killed or runs out of time is never reported as either answer, nor is a formula that an encoding cannot express.",
  ['programs','inputs'],'all formulas, bounds and encodings',
  'Tests check a few dozen formulas against expected answers; a wrong length bound or quantifier range only matters for specific nestings and bounds.',
  ['compiler/c2po/sat.py'],[('to_uflia_smtlib2 / to_qfuflia / to_qfbv / ...','compiler/c2po/sat.py'),('check_sat','compiler/c2po/sat.py')])
p('C08','C2PO: the type checker accepts only well-typed specifications',
  'A program that passes type checking has, at every node, operands of the types its operator needs: Booleans under logical and temporal operators, integers under bitwise operators, operands of one numeric type under arithmetic and comparisons (arrays and slices only under array comparisons, of one element type and compatible size; structures never), members a structure has and the right number of them, indices and slices inside the array, interval bounds 0 <= lb <= ub, an initial value of prev and an integer exponent that are constants (no negative exponent, no division by the constant 0), and only names declared before their use, each declared once. A future-time specification contains no past operator and vice versa, also not through definitions and labels. Every program that satisfies the documented rules is accepted.',
  ['programs'],'all expressions over all operators, types and nestings',
  'Tests check a few accepted and rejected examples, not all combinations of operator and operand types.',
  ['compiler/c2po/type_check.py','compiler/c2po/types.py'],[('type_check_expr','compiler/c2po/type_check.py')])
p('C09','C2PO: the reported resource bounds suffice for the monitor to run the program',
  'The memory bounds the compiler writes for a specification (instructions, signals, atomics, queues, queue slots, aliases) are at least what the monitor uses when it loads and runs that specification. A monitor built with exactly these bounds therefore behaves as one with unlimited memory.',
  ['programs','configurations'],'all specifications the compiler accepts',
  'Tests never build a monitor with generated bounds.',
  ['compiler/c2po/assemble.py','compiler/c2po/r2u2.py','monitors/c/src/internals/bounds.h'],[('compute_bounds / gen_bounds_file','compiler/c2po/assemble.py')])
p('C10','C2PO: push saves and pop restores the whole compiler state',
  'After a push, any sequence of commands, and the matching pop, the compiler behaves in every later command as it did right before the push: same specifications in the same order, definitions, signals, structures, enumerations and analysis state. Nested pushes restore in reverse order, and a copy never shares mutable structure with the original.',
  ['histories','programs'],'all command sequences between push and pop and all specifications',
  'Tests have a few push/pop scripts and print only the formulas.',
  ['compiler/c2po/main.py','compiler/c2po/cpt.py'],[('push / pop','compiler/c2po/main.py'),('deepcopy','compiler/c2po/cpt.py')])
p('C11','C2PO: printed specifications parse back to the same formulas',
  'Writing a specification out in any of the textual forms that can be read back and parsing the result yields specifications with the same operators, operands, bounds, order and names. Parsing respects the documented operator precedence and associativity.',
  ['programs'],'all specifications over the whole concrete syntax',
  'Tests print a few specifications; missing parentheses or a dropped field show only for particular nestings.',
  ['compiler/c2po/serialize.py','compiler/c2po/cpt.py','compiler/c2po/parse_c2po.py','compiler/c2po/parse_mltl.py'],[('to_infix_str / to_mltl_str / parsers','compiler/c2po/serialize.py')])
p('C12','C2PO: every signal and atomic is bound to the trace column the user named',
  'Each input variable is read from the column given for its name by the map file or the trace header, with its declared type, and each atomic proposition gets an index of its own that the monitor\'s load instruction uses. A used variable without a column is an error, never a silent default.',
  ['inputs','configurations','programs'],'all map files, trace headers and variable sets',
  'Tests use a handful of maps with consecutive indices.',
  ['compiler/c2po/map.py','compiler/c2po/trace.py','compiler/c2po/atomics.py','compiler/c2po/assemble.py'],[('parse_map_file / generate_map','compiler/c2po/map.py'),('parse_trace_file','compiler/c2po/trace.py'),('assign_signal_ids / has_valid_signal_mapping / has_atomic_consistent_signal_mapping','compiler/c2po/cpt.py'),('compute_atomics','compiler/c2po/atomics.py')])
out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
out.write_text(''.join(json.dumps(x) + '\n' for x in P))
print(len(P))
