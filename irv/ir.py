"""Parser for the textual LLVM IR that clang-18/opt-18 print (the subset they emit for C).

The parser is strict: an instruction it does not know raises IRError, so that nothing is
silently skipped.  Debug/TBAA metadata and lifetime markers are dropped.
"""
import re

class IRError(Exception):
    pass

# ----------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a", "b")
    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b
    def __repr__(self):
        return f"{self.k}{'' if self.a is None else self.a}"
    def __eq__(self, o):
        return isinstance(o, Ty) and (self.k, self.a, self.b) == (o.k, o.a, o.b)
    def __hash__(self):
        return hash((self.k, str(self.a), str(self.b)))

_tok = re.compile(r'''\s*(?:
   (c?"(?:[^"\\]|\\.)*")
 | ([%@][-a-zA-Z$._0-9]+|[%@]"[^"]*")
 | (![-a-zA-Z$._0-9]*(?:\([^)]*\))?)
 | (\#\d+)
 | (-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+)
 | ([-a-zA-Z$._][-a-zA-Z$._0-9]*)
 | (\.\.\.)
 | ([()\[\]{}<>,=*:|])
)''', re.X)

def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        if s[i] == ';':
            break
        if s[i].isspace():
            i += 1
            continue
        if s[i:i+2] == '0x':
            m = re.match(r'0x[0-9A-Fa-fKLMH]+', s[i:])
            out.append(m.group(0)); i += m.end(); continue
        m = _tok.match(s, i)
        if not m:
            raise IRError("cannot tokenize: " + s[i:i+60])
        out.append(m.group(0).strip())
        i = m.end()
    return out

PARAM_ATTR = {"noundef", "zeroext", "signext", "nonnull", "nocapture", "readonly", "writeonly",
              "readnone", "noalias", "returned", "immarg", "inreg", "writable", "dead_on_unwind",
              "allocptr", "allocalign", "nofree", "swiftself", "range"}
CC = {"fastcc", "ccc", "coldcc", "tail", "musttail", "notail"}

class Toks:
    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod
    def peek(self, k=0):
        return self.t[self.i+k] if self.i+k < len(self.t) else None
    def next(self):
        v = self.peek()
        if v is None: raise IRError("eol in " + " ".join(self.t))
        self.i += 1
        return v
    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False
    def expect(self, v):
        g = self.next()
        if g != v: raise IRError(f"expected {v} got {g} in {' '.join(self.t)}")
    # ---- types
    def type(self):
        t = self.next()
        if t == 'ptr': ty = Ty('ptr')
        elif t == 'void': ty = Ty('void')
        elif t in ('double', 'float', 'x86_fp80', 'label', 'metadata', 'opaque'): ty = Ty(t)
        elif re.fullmatch(r'i\d+', t): ty = Ty('i', int(t[1:]))
        elif t == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']')
            ty = Ty('arr', n, e)
        elif t == '<':
            if self.peek() == '{':
                raise IRError("packed struct")
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>')
            ty = Ty('vec', n, e)
        elif t == '{':
            fs = []
            if not self.accept('}'):
                while True:
                    fs.append(self.type())
                    if self.accept('}'): break
                    self.expect(',')
            ty = Ty('struct', tuple(fs))
        elif t[0] == '%':
            ty = Ty('named', t[1:])
        else:
            raise IRError("type? " + t + " in " + ' '.join(self.t))
        # function type suffix
        if self.peek() == '(' and ty.k != 'label':
            save = self.i
            self.next()
            ps = []
            ok = True
            if not self.accept(')'):
                while True:
                    if self.accept('...'): ps.append('...')
                    else:
                        try: ps.append(self.type())
                        except IRError:
                            ok = False; break
                    if self.accept(')'): break
                    if not self.accept(','):
                        ok = False; break
            if ok: return Ty('func', ty, tuple(ps))
            self.i = save
        return ty
    # ---- operands: ('loc',name) ('int',v) ('dbl',bits) ('glob',name) ('null',) ('undef',) ('zero',) ('cexpr',op,...) ('str',bytes)
    def value(self, ty):
        t = self.next()
        if t[0] == '%': return ('loc', t[1:])
        if t[0] == '@': return ('glob', t[1:].strip('"'))
        if t == 'null': return ('null',)
        if t in ('undef', 'poison'): return ('undef',)
        if t == 'zeroinitializer': return ('zero',)
        if t == 'true': return ('int', 1)
        if t == 'false': return ('int', 0)
        if ty.k == 'double' or ty.k == 'float':
            import struct
            if t.startswith('0x'):
                return ('dbl', int(t[2:], 16))
            return ('dbl', struct.unpack('<Q', struct.pack('<d', float(t)))[0])
        if re.fullmatch(r'-?\d+', t): return ('int', int(t))
        if t == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'): self.next()
            self.expect('(')
            bty = self.type(); self.expect(',')
            self.type(); base = self.value(Ty('ptr'))
            idx = []
            while self.accept(','):
                if self.peek() == 'inrange': self.next()
                ity = self.type(); idx.append((ity, self.value(ity)))
            self.expect(')')
            return ('cgep', bty, base, idx)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            self.expect('(')
            sty = self.type(); v = self.value(sty); self.expect('to'); dty = self.type(); self.expect(')')
            return ('ccast', t, sty, v, dty)
        if t in ('sub', 'add', 'mul'):
            while self.peek() in ('nsw', 'nuw'): self.next()
            self.expect('(')
            ta = self.type(); a = self.value(ta); self.expect(',')
            tb = self.type(); b = self.value(tb); self.expect(')')
            return ('cbin', t, ta, a, b)
        if t.startswith('c"'): return ('str', t)
        if t in ('[', '{'):
            close = ']' if t == '[' else '}'
            vs = []
            if not self.accept(close):
                while True:
                    ety = self.type(); vs.append((ety, self.value(ety)))
                    if self.accept(close): break
                    self.expect(',')
            return ('agg', vs)
        if t == '<':
            vs = []
            while True:
                ety = self.type(); vs.append((ety, self.value(ety)))
                if self.accept('>'): break
                self.expect(',')
            return ('agg', vs)
        raise IRError("value? " + t + " in " + ' '.join(self.t))
    def skip_attrs(self):
        byval = None
        while True:
            t = self.peek()
            if t in PARAM_ATTR:
                self.next()
                if self.peek() == '(' and t in ('range', 'dereferenceable'):
                    self._parens()
                continue
            if t in ('align',):
                self.next()
                if self.peek() == '(': self._parens()
                else: self.next()
                continue
            if t in ('byval', 'sret', 'elementtype'):
                self.next(); self.expect('('); byval = (t, self.type()); self.expect(')')
                continue
            if t in ('dereferenceable', 'dereferenceable_or_null', 'captures', 'nofpclass', 'memory'):
                self.next(); self._parens(); continue
            return byval
    def _parens(self):
        self.expect('('); d = 1
        while d:
            t = self.next()
            if t == '(': d += 1
            elif t == ')': d -= 1

class Instr:
    __slots__ = ("op", "res", "ty", "a", "flags", "text", "x")
    def __init__(self, op, res=None, ty=None, a=(), flags=(), text="", x=None):
        self.op, self.res, self.ty, self.a, self.flags, self.text, self.x = op, res, ty, a, flags, text, x
    def __repr__(self): return self.text

class Func:
    def __init__(self, name, rty, params, internal, mod):
        self.name, self.rty, self.params, self.internal, self.mod = name, rty, params, internal, mod
        self.blocks = {}     # name -> [Instr]
        self.order = []
        self.noreturn = False
        self.loops = None

BINOPS = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr",
          "fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"trunc", "zext", "sext", "fptosi", "fptoui", "sitofp", "uitofp", "bitcast", "ptrtoint", "inttoptr", "fpext", "fptrunc"}

class Module:
    def __init__(self, path, text):
        self.path = path
        self.structs = {}
        self.globals = {}   # name -> dict(ty, init, const, external, internal)
        self.funcs = {}
        self.declared = {}
        self.attrs = {}
        self._parse(text)
    # ------------------------------------------------------------ layout
    def size(self, ty):
        k = ty.k
        if k == 'i': return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}[ty.a]
        if k == 'ptr' or k == 'double': return 8
        if k == 'float': return 4
        if k == 'arr': return ty.a * self.size(ty.b)
        if k == 'vec': return ty.a * self.size(ty.b)
        if k == 'x86_fp80': return 16
        fs = self.fields(ty)
        off, al = 0, 1
        for f in fs:
            a = self.align(f); al = max(al, a)
            off = (off + a - 1) // a * a + self.size(f)
        return (off + al - 1) // al * al
    def align(self, ty):
        if ty.k == 'arr': return self.align(ty.b)
        if ty.k in ('struct', 'named'):
            return max([self.align(f) for f in self.fields(ty)] or [1])
        return min(self.size(ty), 16)
    def fields(self, ty):
        if ty.k == 'struct': return ty.a
        if ty.k == 'named':
            s = self.structs[ty.a]
            return self.fields(s)
        raise IRError("fields of " + repr(ty))
    def is_struct(self, ty): return ty.k in ('struct', 'named')
    def field_off(self, ty, i):
        off = 0
        for j, f in enumerate(self.fields(ty)):
            a = self.align(f)
            off = (off + a - 1) // a * a
            if j == i: return off, f
            off += self.size(f)
        raise IRError("field index")
    # ------------------------------------------------------------ parse
    def _parse(self, text):
        lines = text.split('\n')
        # attribute groups first
        for ln in lines:
            if ln.startswith('attributes #'):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', ln)
                self.attrs[m.group(1)] = m.group(2).split()
        i, n = 0, len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('%') and ' = type ' in ln:
                nm, rest = ln.split(' = type ', 1)
                if rest.strip() != 'opaque':
                    self.structs[nm[1:]] = Toks(tokenize(rest), self).type()
            elif ln.startswith('@'):
                self._global(ln)
            elif ln.startswith('declare'):
                self._proto(ln, False)
            elif ln.startswith('define'):
                f = self._proto(ln, True)
                body = []
                i += 1
                while lines[i] != '}':
                    body.append(lines[i]); i += 1
                f.bodylines = body
                f.parsed = False
            i += 1
    def _global(self, ln):
        m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
        name = m.group(1).strip('"'); rest = m.group(2)
        words = rest.split()
        g = dict(external='external' in words[:4], const=False, init=None, ty=None, internal=('internal' in words[:3] or 'private' in words[:3]))
        m2 = re.search(r'\b(global|constant)\b (.*)$', rest)
        if not m2:
            self.globals[name] = g; return
        g['const'] = m2.group(1) == 'constant'
        t = Toks(tokenize(m2.group(2)), self)
        g['ty'] = t.type()
        if not g['external'] and t.peek() not in (None, ','):
            try: g['init'] = t.value(g['ty'])
            except IRError: g['init'] = None
        self.globals[name] = g
    def _proto(self, ln, define):
        s = ln
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', s)
        name = m.group(1).strip('"')
        head = s[:m.start()]
        internal = ' internal ' in head + ' '
        toks = Toks(tokenize(s[m.end():]), self)
        params = []; vararg = False
        if not toks.accept(')'):
            while True:
                if toks.accept('...'):
                    vararg = True
                else:
                    ty = toks.type(); bv = toks.skip_attrs()
                    pn = None
                    if toks.peek() and toks.peek()[0] == '%': pn = toks.next()[1:]
                    params.append((ty, pn, bv))
                if toks.accept(')'): break
                toks.expect(',')
        hw = [w for w in head.split() if w not in ('define', 'declare', 'internal', 'dso_local', 'local_unnamed_addr', 'hidden', 'noundef', 'zeroext', 'signext', 'nonnull', 'noalias', 'weak', 'linkonce_odr', 'available_externally')]
        try:
            rty = Toks(tokenize(' '.join(hw)), self).type()
        except IRError:
            rty = Ty('void')
        f = Func(name, rty, params, internal, self)
        f.vararg = vararg
        for a in re.findall(r'#\d+', s):
            if 'noreturn' in self.attrs.get(a, []): f.noreturn = True
        if define: self.funcs[name] = f
        else: self.declared[name] = f
        return f
    def parse_body(self, f):
        if f.parsed: return
        f.parsed = True
        cur = None
        lines = f.bodylines
        i = 0
        # entry label may be implicit
        while i < len(lines):
            ln = lines[i]
            s = ln.strip()
            if not s or s.startswith(';'):
                i += 1; continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                cur = m.group(1).strip('"')
                f.blocks[cur] = []; f.order.append(cur)
                i += 1; continue
            if cur is None:
                cur = '%entry'; f.blocks[cur] = []; f.order.append(cur)
            if s.startswith('switch') and s.endswith('['):
                while not lines[i].strip().startswith(']'):
                    i += 1
                    s += ' ' + lines[i].strip()
            ins = self._instr(s, f)
            if ins is not None: f.blocks[cur].append(ins)
            i += 1
        self._cfg(f)
    def _instr(self, s, f):
        text = s
        # drop metadata suffixes
        s = re.sub(r',\s*![a-zA-Z.]+\s+![0-9a-zA-Z]+', '', s)
        res = None
        m = re.match(r'^%("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', s)
        if m:
            res, s = m.group(1).strip('"'), m.group(2)
        t = Toks(tokenize(s), self)
        op = t.next()
        while op in CC: op = t.next()
        if op in BINOPS:
            fl = []
            while t.peek() in ('nsw', 'nuw', 'exact', 'disjoint', 'fast', 'nnan'): fl.append(t.next())
            ty = t.type(); a = t.value(ty); t.expect(','); b = t.value(ty)
            return Instr(op, res, ty, (a, b), fl, text)
        if op == 'fneg':
            ty = t.type(); a = t.value(ty)
            return Instr(op, res, ty, (a,), (), text)
        if op in ('icmp', 'fcmp'):
            pred = t.next(); ty = t.type(); a = t.value(ty); t.expect(','); b = t.value(ty)
            return Instr(op, res, ty, (a, b), (), text, pred)
        if op in CASTS:
            while t.peek() in ('nneg', 'nuw', 'nsw'): t.next()
            sty = t.type(); a = t.value(sty); t.expect('to'); dty = t.type()
            return Instr(op, res, dty, (a,), (), text, sty)
        if op == 'load':
            if t.peek() == 'volatile': t.next()
            ty = t.type(); t.expect(','); pty = t.type(); p = t.value(pty)
            return Instr('load', res, ty, (p,), (), text)
        if op == 'store':
            if t.peek() == 'volatile': t.next()
            ty = t.type(); v = t.value(ty); t.expect(','); pty = t.type(); p = t.value(pty)
            return Instr('store', None, ty, (v, p), (), text)
        if op == 'getelementptr':
            while t.peek() in ('inbounds', 'nuw', 'nusw'): t.next()
            bty = t.type(); t.expect(','); t.type(); base = t.value(Ty('ptr')); idx = []
            while t.accept(','):
                ity = t.type(); idx.append((ity, t.value(ity)))
            return Instr('gep', res, bty, (base, idx), (), text)
        if op == 'alloca':
            ty = t.type(); cnt = None
            if t.accept(','):
                if t.peek() and re.fullmatch(r'i\d+', t.peek()):
                    cty = t.type(); cnt = (cty, t.value(cty))
            return Instr('alloca', res, ty, (cnt,), (), text)
        if op == 'phi':
            ty = t.type(); inc = []
            while True:
                t.expect('['); v = t.value(ty); t.expect(','); b = t.next()[1:].strip('"'); t.expect(']')
                inc.append((v, b))
                if not t.accept(','): break
            return Instr('phi', res, ty, tuple(inc), (), text)
        if op == 'select':
            cty = t.type(); c = t.value(cty); t.expect(',')
            ty = t.type(); a = t.value(ty); t.expect(','); t.type(); b = t.value(ty)
            return Instr('select', res, ty, (c, a, b), (), text)
        if op == 'br':
            if t.peek() == 'label':
                t.next(); return Instr('br', None, None, (t.next()[1:].strip('"'),), (), text)
            ty = t.type(); c = t.value(ty); t.expect(','); t.expect('label'); a = t.next()[1:].strip('"')
            t.expect(','); t.expect('label'); b = t.next()[1:].strip('"')
            return Instr('condbr', None, None, (c, a, b), (), text)
        if op == 'switch':
            ty = t.type(); v = t.value(ty); t.expect(','); t.expect('label'); d = t.next()[1:].strip('"')
            t.expect('['); cases = []
            while not t.accept(']'):
                cty = t.type(); cv = t.value(cty); t.expect(','); t.expect('label'); cases.append((cv[1], t.next()[1:].strip('"')))
            return Instr('switch', None, ty, (v, d, tuple(cases)), (), text)
        if op == 'ret':
            ty = t.type()
            if ty.k == 'void': return Instr('ret', None, ty, (), (), text)
            return Instr('ret', None, ty, (t.value(ty),), (), text)
        if op == 'unreachable':
            return Instr('unreachable', text=text)
        if op == 'extractvalue':
            ty = t.type(); v = t.value(ty); idx = []
            while t.accept(','): idx.append(int(t.next()))
            return Instr('extractvalue', res, ty, (v, tuple(idx)), (), text)
        if op == 'insertvalue':
            ty = t.type(); v = t.value(ty); t.expect(','); ety = t.type(); e = t.value(ety); idx = []
            while t.accept(','): idx.append(int(t.next()))
            return Instr('insertvalue', res, ty, (v, e, tuple(idx), ety), (), text)
        if op == 'freeze':
            ty = t.type(); return Instr('freeze', res, ty, (t.value(ty),), (), text)
        if op == 'call':
            while t.peek() in ('fastcc', 'nnan', 'fast'): t.next()
            t.skip_attrs()
            rty = t.type()
            if rty.k == 'func': rty = rty.a
            cal = t.value(Ty('ptr'))
            t.expect('(')
            args = []
            if not t.accept(')'):
                while True:
                    aty = t.type()
                    if aty.k == 'metadata':
                        while t.peek() not in (',', ')'): t.next()
                        args.append((aty, ('undef',), None))
                    else:
                        bv = t.skip_attrs(); args.append((aty, t.value(aty), bv))
                    if t.accept(')'): break
                    t.expect(',')
            nr = False
            while t.peek():
                a = t.next()
                if a[0] == '#' and 'noreturn' in self.attrs.get(a, []): nr = True
            if cal[0] == 'glob' and (cal[1].startswith('llvm.lifetime') or cal[1].startswith('llvm.dbg') or cal[1].startswith('llvm.experimental.noalias') or cal[1] == 'llvm.assume'):
                return None
            return Instr('call', res, rty, (cal, tuple(args)), (), text, nr)
        raise IRError("unknown instruction: " + text)
    # ------------------------------------------------------------ CFG / natural loops
    def _cfg(self, f):
        succ = {}
        for b, ins in f.blocks.items():
            t = ins[-1]
            if t.op == 'br': succ[b] = [t.a[0]]
            elif t.op == 'condbr': succ[b] = [t.a[1], t.a[2]]
            elif t.op == 'switch': succ[b] = [t.a[1]] + [c[1] for c in t.a[2]]
            else: succ[b] = []
        f.succ = succ
        pred = {b: [] for b in f.blocks}
        for b, ss in succ.items():
            for s_ in ss: pred[s_].append(b)
        f.pred = pred
        entry = f.order[0]
        # dominators (iterative)
        rpo, seen = [], set()
        def dfs(b):
            st = [(b, iter(succ[b]))]; seen.add(b)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y); st.append((y, iter(succ[y]))); break
                else:
                    rpo.append(x); st.pop()
        dfs(entry); rpo.reverse()
        idx = {b: i for i, b in enumerate(rpo)}
        dom = {b: None for b in rpo}; dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == entry: continue
                ps = [dom[p] for p in pred[b] if p in idx and dom[p] is not None]
                nd = set.intersection(*ps) | {b}
                if nd != dom[b]: dom[b] = nd; ch = True
        loops = {}
        for b in rpo:
            for s_ in succ[b]:
                if s_ in dom[b]:
                    body = loops.setdefault(s_, {s_})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st += [p for p in pred[x] if p in idx]
        f.loops = loops
        # irreducible check
        for b in rpo:
            for s_ in succ[b]:
                if idx[s_] <= idx[b] and s_ not in dom[b]:
                    raise IRError("irreducible control flow in " + f.name)
        f.entry = entry

def parse_file(path):
    with open(path) as fh:
        return Module(path, fh.read())
