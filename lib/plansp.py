"""What each compiler property's check proves and replays."""
import importlib
PT = ['CPython 3.12 (runs the code of /repo that is verified)', 'lib/psym.py (symbolic values, lazy trees, path exploration), lib/psem.py (MLTL semantics)', 'z3 4.x']
PA = {
 'sig': ['strcmp, strchr and sscanf are the C library\'s: the text of a field is 0 or not, has a decimal point or not, and denotes a number', 'a float value is not NaN', 'the column number lies inside the buffers (C09)', 'the row reader of the command line (csv_trace.c: fgets, strtok) is decided by concrete runs only'],
 'delay': ['future-time and past-time operators do not occur in the same formula (assembling refuses it)', 'the program is lowered (negation, conjunction, disjunction, equivalence, U, R, S, T) before it is assembled'],
 'sib': ['siblings are folded elementwise (maximum, any): up to two siblings are named, further ones are instances of the second', 'parent links are complete (C01 to C03)'],
 'mon': ['representation invariants of the queues and temporal instructions (proved under M01, M02, M03)', 'verdicts before the reset of time: fewer than 2^31 steps'],
 'trav': ['cpt.postorder/preorder hand every node of the program to the pass once, in some order (contract; checked at run time by the bounded judge)'],
 'print': ['contract of to_infix_str/to_prefix_str: two expressions print alike exactly when they are the same expression (decided under C03)'],
 'cse': ['specification labels are unique (C08)', 'identifiers, numbers and keywords are disjoint word classes (lexer)', 'words of the prefix text are those of lemma prefix_injective (proved in Lean 4): no blank or parenthesis inside a head or a name'],
 'asm': ['an operand of a temporal-logic operator is a constant, an atomic (compute_atomics) or a temporal-logic node', 'operators are binary (guard ONLY_BINARY_OPERATORS) and lowered', 'CPython struct.pack with a little-endian format writes the fields in order without padding', 'record layout of the loader (decoders, proved under M08)', 'a dictionary keeps insertion order (CPython)'],
 'des': ['cpt.postorder gives context.bound_vars exactly the bound variables of the enclosing set aggregations', 'nested set aggregations bind different variables (C2PO raises an error otherwise)', 'the specification is accepted by the type checker (C08)'],
 'sat': ['the SMT solver answers correctly, and prints sat, unsat or unknown', 'integers of the specification are mathematical integers (no overflow) and no divisor is zero', 'operands of an operator enter an encoding only through their own function or term (definition before use is decided)', 'signal names are legal SMT-LIB symbols that do not begin with the internal prefixes', 'decompose_intervals, to_nnf and the lowering passes keep the meaning (C02)'],
 'bnd': ['what the monitor uses for a record: one table entry (and one value slot or control block) per instruction, the length of the queue per queue record, one metadata block per temporal record, the name and a zero per name record (proved for the loader, units records and configure here, and M08; name records: bounded)', 'gen_assembly emits one temporal record per temporal queue record and numbers value slots below the number of booleanizer instructions (proved under C06)', 'every column the monitor is given is mapped by the signal map or belongs to no signal beyond the last mapped one', 'the list comprehensions of compute_bounds are read as calls (mechanical rewriting of the source on every run)'],
 'push': ['the tables and lists of a state are copied entry by entry (one arbitrary entry each; 0, 2 and 3 entries are bounded)', 'types, assembled instructions and the member tables of structs are not changed once they are built', 'operands are copied before the expression that has them (contract of cpt.postorder)', 'commands reach the state only through the program and context they are given; log settings are no part of it'],
 'syn': ['names of a program are words of the lexer that are not reserved (the parser makes no others); labels of the form __...__ are internal', 'str and repr of int and float, and int() and float() of them, are inverse (CPython); digits are ASCII digits', 'sly: the parse loop is the LR driver of its tables, the lexer takes the first alternative of its pattern (re) at each position', 'an operand is printed alone exactly as inside another expression (the accesses to it are compared), independent of its depth', 'declaration sections hold at most 3 entries, contracts and interval bounds of MLTL one arrangement each (bounded)', 'n-ary operators are the same up to left association'],
 'typ': ['struct names differ from the names of the base types', 'names are declared once when a variable is looked up (the section job decides that: bounded to programs of at most 3 declarations)', 'array types up to nesting 2, two enumerations and two structures stand for all', 'the is_const marking of types is not specified', 'the rule leaves open (accepting and rejecting are both allowed): <<, >>, nested prev, bitwise and arithmetic operators on Booleans and enumerations (except ~ on Booleans), ordering of Booleans and enumerations'],
 'map': ['the decimal digits are those of ASCII', 'cpt.postorder and postorder_with_definitions hand every node to the caller (contract)', 'log.debug lines have no effect (dropped by the extraction)', 'signal identifiers are -1 or columns of the current mapping when the atomics are computed (contracts of assign_signal_ids and type_check; a later mapping is caught by the two checks of assemble)', 'the booleanizer is enabled before the program is type checked'],
 'num': ['+ and * are associative and commutative (floating point treated as mathematical numbers)', 'machine integers in C2PO are Python integers: exact'],
}
PLAN = {   # property: (job modules, assumptions, falsifier rounds)
 'C01': (['pxf'], ['trav', 'print', 'num'], 500),
 'C02': (['pxf'], ['trav', 'print', 'num'], 500),
 'C03': (['pcse'], ['trav', 'cse'], 400),
 'C05': (['pdes'], ['trav', 'des'], 400),
 'C09': (['pbnd'], ['bnd'], 24),
 'C12': (['pmap', 'csig'], ['trav', 'map', 'sig'], 400),
 'C10': (['ppush'], ['push'], 800),
 'C11': (['pround'], ['syn'], 800),
 'C07': (['psat'], ['sat'], 60),
 'C08': (['ptype'], ['trav', 'typ'], 400),
 'C06': (['pasm'], ['trav', 'asm'], 300),
 'C04': (['cdel', 'pdel'], ['trav', 'delay', 'sib', 'mon'], 2500),
}
def run(c):
    mods, ass, rounds = PLAN[c.prop]
    jobs = []
    for m in mods:
        try: jobs += importlib.import_module(m).jobs(c.prop, c.tier)
        except Exception as e: c.errs.append((m, f'{type(e).__name__}: {e}'))
    c.prove(jobs)
    r = rounds * (15 if c.tier == 'thorough' else 1)
    c.falsify('fpy', c.prop, r)
    if not c.bad and (c.errs or c.vac or any(x[1] != 'proved' for x in c.res + c.bres)):
        c.seed += 77; c.falsify('fpy', c.prop, r*6); c.seed -= 77
    c.rule = 'a generated specification that went through the real code and was compared with the reference'
    return c.finish(PT, [x for a in ass for x in PA[a]], f'python3-vt lib/check.py {c.prop} (symbolic execution of /repo/compiler/c2po, z3)')
