"""Extraction: clang compiles the real C sources of /repo to LLVM IR; this module parses the textual IR.

The IR is what clang makes of the file on disk (same -std and -D flags as the Makefile), run through
LLVM's always-inline, sroa and mem2reg passes only.  Nothing is dropped except debug/tbaa metadata,
attributes and llvm.lifetime markers.
"""
import re, subprocess, os, tempfile, pathlib
REPO = pathlib.Path(os.environ.get('VERIF_REPO', '/repo'))
CSRC = REPO / 'monitors' / 'c' / 'src'
FILES = ['engines/mltl.c', 'engines/booleanizer.c', 'engines/engines.c', 'lib.c', 'internals/process_binary.c',
         'memory/monitor.c', 'memory/shared_connection_queue.c', 'instructions/mltl.c', 'instructions/booleanizer.c']

class ExtractError(Exception):
    pass

def run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode != 0:
        raise ExtractError(f"{' '.join(map(str, cmd))}: {r.stderr[-2000:]}")
    return r.stdout

def c_sources():
    """every C file of the monitor library (not the command line front end)"""
    return sorted(p for p in CSRC.rglob('*.c') if 'cli' not in p.parts)

# functions verified (or replaced by their contract) as units of their own; any other function the sources define is a
# helper, and is inlined by LLVM into its callers before verification
UNITS = set('''check_operand_data push_result r2u2_aux_contract_report r2u2_aux_formula_report r2u2_bz_get_param1_float_from_binary
 r2u2_bz_get_param1_int_from_binary r2u2_bz_set_from_binary r2u2_bz_update r2u2_engine_step r2u2_load_bool_signal r2u2_load_float_signal
 r2u2_load_int_signal r2u2_load_specification r2u2_load_string_signal r2u2_mltl_configure_instruction_dispatch r2u2_mltl_set_from_binary
 r2u2_mltl_update r2u2_monitor_clock_reset r2u2_monitor_hard_reset r2u2_monitor_soft_reset r2u2_process_binary r2u2_scq_read r2u2_scq_write r2u2_step'''.split())
def helpers_inline(text):
    def f(m):
        return m.group(0) if m.group(1) in UNITS else re.sub(r'(#\d+ )?\{$', r'alwaysinline \1{', m.group(0))
    text = re.sub(r'^define .*?@([\w.]+)\(.*\{$', f, text, flags=re.M)
    return re.sub(r'^(attributes #\d+ = \{.*?)\b(noinline|optnone)\b ?', r'\1', text, flags=re.M)

def extract(defs=()):
    out = []
    with tempfile.TemporaryDirectory() as d:
        lls = []
        for i, p in enumerate(c_sources()):
            o = f'{d}/{i}.ll'
            run(['clang', '-std=c99', '-D_POSIX_C_SOURCE=200112L', *defs, '-O1', '-Xclang', '-disable-llvm-passes',
                 '-fno-strict-aliasing', '-fno-discard-value-names', '-w', '-S', '-emit-llvm', '-o', o, str(p)])
            lls.append(o)
        run(['llvm-link-18', '-S', '-o', f'{d}/all.ll', *lls])
        a = pathlib.Path(f'{d}/all.ll'); a.write_text(helpers_inline(a.read_text()))
        run(['opt-18', '-S', '-passes=always-inline,function(sroa,mem2reg,dce,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts>)',
             '-o', f'{d}/o.ll', f'{d}/all.ll'])
        return pathlib.Path(f'{d}/o.ll').read_text()

# ---------------------------------------------------------------- parsing
TOK = re.compile(r'''\s*(c"(?:[^"\\]|\\.)*"|"(?:[^"\\]|\\.)*"|%"[^"]*"|@"[^"]*"|[%@][-\w$.]+|[-+]?\d+\.\d+(?:e[-+]?\d+)?|0x[0-9A-Fa-f]+|-?\d+|\.\.\.|!\w*|\#\d+|[\w.]+|[][(){}<>,=*:])''')

def toks(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise ExtractError('lex: ' + s[i:i+60])
        out.append(m.group(1)); i = m.end()
    return out

class Ty:
    """('i',w) ('ptr',) ('double',) ('struct',[..],packed) ('array',n,t) ('void',)"""

class P:
    def __init__(self, ts, mod):
        self.t, self.i, self.m = ts, 0, mod
    def peek(self, k=0):
        return self.t[self.i+k] if self.i+k < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def eat(self, x):
        if self.peek() == x:
            self.i += 1; return True
        return False
    def need(self, x):
        if not self.eat(x):
            raise ExtractError(f'expected {x} at {self.t[self.i:self.i+6]} in {" ".join(self.t)[:200]}')
    ATTR = {'noundef','zeroext','signext','nonnull','nocapture','noalias','readonly','writeonly','immarg','returned','inreg','inbounds','nuw','nsw','exact','disjoint','nneg','dso_local','local_unnamed_addr','unnamed_addr','internal','external','private','tail','notail','musttail','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','range','volatile','constant','global','hidden','common'}
    def attrs(self):
        while True:
            x = self.peek()
            if x in self.ATTR:
                self.i += 1
            elif x in ('align',):
                self.i += 2
            elif x in ('dereferenceable','dereferenceable_or_null','sret','byval','memory','allocsize','elementtype'):
                self.i += 1
                if self.peek() == '(':
                    d = 0
                    while True:
                        y = self.next()
                        if y == '(': d += 1
                        if y == ')':
                            d -= 1
                            if d == 0: break
            else:
                return
    def ty(self):
        x = self.next()
        if re.fullmatch(r'i\d+', x): return ('i', int(x[1:]))
        if x in ('ptr', 'double', 'void', 'float', 'label', 'metadata'): return (x,)
        if x.startswith('%'): return ('named', x)
        if x == '[':
            n = int(self.next()); self.need('x'); t = self.ty(); self.need(']'); return ('array', n, t)
        if x == '{' or x == '<':
            pk = False
            if x == '<': self.need('{'); pk = True
            fs = []
            while self.peek() != '}':
                fs.append(self.ty()); self.eat(',')
            self.need('}')
            if pk: self.need('>')
            return ('struct', tuple(fs), pk)
        raise ExtractError('type ' + x + ' in ' + ' '.join(self.t)[:120])
    def val(self, ty):
        """operand: ('r',name) ('g',name) ('c',int/float/bool) ('null',) ('undef',) ('zero',) ('gep',...)"""
        self.attrs()
        x = self.next()
        if x.startswith('%'): return ('r', x)
        if x.startswith('@'): return ('g', x)
        if x == 'true': return ('c', True)
        if x == 'false': return ('c', False)
        if x == 'null': return ('null',)
        if x in ('undef', 'poison'): return ('undef',)
        if x == 'zeroinitializer': return ('zero',)
        if re.fullmatch(r'-?\d+', x): return ('c', int(x))
        if re.fullmatch(r'0x[0-9A-Fa-f]+', x): return ('fhex', int(x, 16))
        if re.match(r'[-+]?\d+\.', x): return ('f', float(x))
        if x.startswith('c"'): return ('str', x[2:-1])
        if x == 'getelementptr':
            self.attrs(); self.need('('); self.attrs()
            st = self.ty(); self.need(',')
            pt = self.ty(); b = self.val(pt); idx = []
            while self.eat(','):
                t = self.ty(); idx.append((t, self.val(t)))
            self.need(')')
            return ('gep', st, b, idx)
        if x == '[' or x == '{':
            end = {'[': ']', '{': '}'}[x]; vs = []
            while self.peek() != end:
                t = self.ty(); vs.append((t, self.val(t))); self.eat(',')
            self.need(end)
            return ('agg', vs)
        raise ExtractError('value ' + x + ' in ' + ' '.join(self.t)[:160])
    def tv(self):
        t = self.ty(); return (t, self.val(t))

class Module:
    def __init__(self, text):
        self.types, self.globals, self.funcs, self.decls = {}, {}, {}, {}
        lines = text.split('\n'); i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                n, r = l.split(' = type ', 1)
                self.types[n.strip()] = P(toks(r), self).ty() if r.strip() != 'opaque' else ('opaque',)
            elif l.startswith('@'):
                n, r = l.split(' = ', 1)
                self.globals[n.strip()] = r
            elif l.startswith('declare'):
                m = re.search(r'@([\w.$]+)\(', l)
                self.decls[m.group(1)] = l
            elif l.startswith('define'):
                body = []; i += 1
                while lines[i] != '}':
                    body.append(lines[i]); i += 1
                f = Func(self, l, body); self.funcs[f.name] = f
            i += 1
    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t
    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i': return max(1, (t[1] + 7)//8)
        if k in ('ptr', 'double'): return 8
        if k == 'float': return 4
        if k == 'array': return t[1]*self.size(t[2])
        if k == 'struct':
            o, a = 0, 1
            for f in t[1]:
                al = 1 if t[2] else self.align(f); a = max(a, al)
                o = (o + al - 1)//al*al + self.size(f)
            return (o + a - 1)//a*a
        raise ExtractError('size ' + str(t))
    def align(self, t):
        t = self.resolve(t)
        if t[0] == 'array': return self.align(t[2])
        if t[0] == 'struct': return 1 if t[2] else max([1]+[self.align(f) for f in t[1]])
        return self.size(t)
    def field(self, t, k):
        t = self.resolve(t); o = 0
        for j, f in enumerate(t[1]):
            al = 1 if t[2] else self.align(f)
            o = (o + al - 1)//al*al
            if j == k: return o, f
            o += self.size(f)
        raise ExtractError('field')

class Func:
    def __init__(self, mod, header, body):
        m = re.search(r'@([\w.$]+)\(', header)
        self.name, self.mod = m.group(1), mod
        s = header[m.end():]
        d, j = 1, 0
        while d:
            if s[j] == '(': d += 1
            if s[j] == ')': d -= 1
            j += 1
        p = P(toks(s[:j-1]), mod); self.params = []
        while p.peek() is not None:
            if p.eat('...'): break
            t = p.ty(); p.attrs(); self.params.append((p.next(), t)); p.eat(',')
        h = P(toks(header[len('define'):m.start()]), mod); h.attrs()
        self.ret = h.ty()
        self.blocks, self.order = {}, []
        cur = None; buf = ''
        depth = 0
        for l in body:
            l = re.sub(r'\s*;.*$', '', l) if not re.search(r'c"', l) else l
            if not l.strip(): continue
            m = re.match(r'^("?[-\w$.]+"?):', l)
            if m and not l.startswith(' '):
                cur = '%' + m.group(1); self.blocks[cur] = []; self.order.append(cur); continue
            if cur is None:
                cur = '%entry'; self.blocks[cur] = []; self.order.append(cur)
            buf = (buf + ' ' + l.strip()) if buf else l.strip()
            if buf.count('[') != buf.count(']'): continue
            self.blocks[cur].append(parse_inst(mod, buf)); buf = ''

def parse_inst(mod, s):
    s = re.sub(r'(, )?![\w.]+ (![\w]+|\d+)', '', s)
    s = re.sub(r'(, ![\w.]+)', '', s)
    p = P(toks(s), mod)
    dst = None
    if p.peek(1) == '=':
        dst = p.next(); p.next()
    p.attrs()
    op = p.next()
    p.attrs()
    if op in ('add','sub','mul','and','or','xor','shl','lshr','ashr','urem','udiv','srem','sdiv','fadd','fsub','fmul','fdiv','frem'):
        t = p.ty(); a = p.val(t); p.need(','); b = p.val(t); return (op, dst, t, a, b)
    if op == 'fneg':
        t, a = p.tv(); return (op, dst, t, a)
    if op in ('icmp', 'fcmp'):
        c = p.next(); p.attrs(); t = p.ty(); a = p.val(t); p.need(','); b = p.val(t); return (op, dst, c, t, a, b)
    if op in ('zext','sext','trunc','bitcast','sitofp','uitofp','fptosi','fptoui','ptrtoint','inttoptr','freeze'):
        t, a = p.tv()
        t2 = t
        if op != 'freeze': p.need('to'); t2 = p.ty()
        return ('cast', dst, op, t, a, t2)
    if op == 'load':
        t = p.ty(); p.need(','); _, a = p.tv(); return (op, dst, t, a)
    if op == 'store':
        t, v = p.tv(); p.need(','); _, a = p.tv(); return (op, None, t, v, a)
    if op == 'getelementptr':
        t = p.ty(); p.need(','); _, b = p.tv(); idx = []
        while p.eat(','): idx.append(p.tv())
        return ('gep', dst, t, b, idx)
    if op == 'alloca':
        return (op, dst, p.ty())
    if op == 'br':
        if p.peek() == 'label':
            p.next(); return ('jmp', None, p.next())
        _, c = p.tv(); p.need(','); p.need('label'); a = p.next(); p.need(','); p.need('label'); b = p.next()
        return ('br', None, c, a, b)
    if op == 'switch':
        t, v = p.tv(); p.need(','); p.need('label'); d = p.next(); p.need('['); cs = []
        while p.peek() != ']':
            _, c = p.tv(); p.need(','); p.need('label'); cs.append((c[1], p.next()))
        return ('switch', None, t, v, d, cs)
    if op == 'ret':
        t = p.ty(); return ('ret', None, t, None if t == ('void',) else p.val(t))
    if op == 'phi':
        t = p.ty(); inc = []
        while p.eat('['):
            v = p.val(t); p.need(','); b = p.next(); p.need(']'); p.eat(','); inc.append((v, b))
        return ('phi', dst, t, inc)
    if op == 'select':
        _, c = p.tv(); p.need(','); t, a = p.tv(); p.need(','); _, b = p.tv(); return ('select', dst, t, c, a, b)
    if op == 'unreachable':
        return ('unreachable', None)
    if op == 'extractvalue':
        t, a = p.tv(); p.need(','); return ('extractvalue', dst, t, a, int(p.next()))
    if op == 'insertvalue':
        t, a = p.tv(); p.need(','); t2, b = p.tv(); p.need(','); return ('insertvalue', dst, t, a, b, int(p.next()))
    if op == 'call':
        p.attrs(); rt = p.ty()
        if p.peek() == '(':
            d = 0
            while True:
                y = p.next()
                if y == '(': d += 1
                if y == ')':
                    d -= 1
                    if d == 0: break
        callee = p.val(('ptr',)); p.need('('); args = []
        while p.peek() != ')':
            t = p.ty()
            if t == ('metadata',):
                p.next(); p.eat(','); continue
            v = p.val(t); p.attrs(); args.append((t, v)); p.eat(',')
        return ('call', dst, rt, callee, args)
    raise ExtractError('instruction ' + s[:100])

if __name__ == '__main__':
    m = Module(extract())
    for f in m.funcs.values(): print(f.name, f.params, f.ret, len(f.blocks))
