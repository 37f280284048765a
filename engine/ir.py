"""LLVM IR (text, clang 18) -> Python code.

Each TU is one Module; functions are parsed and translated lazily, the first time they are
called.  Integers are Python ints (unsigned, wrapped) or rt.SInt (symbolic bit-vectors), i1 is
bool/int 0-1 or real.B (symbolic), doubles are Fraction / real.R (symbolic real) / float (only
nan and +-inf), pointers are ints (object id << 32 | offset).
"""
import re
from fractions import Fraction
import struct

class Unsupported(Exception):
    pass

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<glob>@(?:"[^"]*"|[-\w.$]+))
 | (?P<loc>%(?:"[^"]*"|[-\w.$]+))
 | (?P<meta>![-\w.]*(?:\([^)]*\))?)
 | (?P<attr>\#\d+)
 | (?P<hex>0x[0-9A-Fa-fKLMHR]+)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
 | (?P<id>[A-Za-z_$][\w.$]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[\[\](){}<>,=*:])
)''', re.X)

def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '':
                break
            if s[pos:].lstrip().startswith(';'):
                break
            raise Unsupported('tokenize: ' + s[pos:pos+60])
        pos = m.end()
        k = m.lastgroup
        out.append((k, m.group(k)))
    return out

VOID = ('void',)
PTR = ('ptr',)
LABEL = ('label',)
META = ('metadata',)
DBL = ('f', 64)
FLT = ('f', 32)

def I(n):
    return ('i', n)

class TypeEnv:
    def __init__(self):
        self.named = {}      # name -> raw text
        self.cache = {}

    def get(self, name):
        t = self.cache.get(name)
        if t is None:
            raw = self.named.get(name)
            if raw is None or raw == 'opaque':
                t = ('opaque', name)
            else:
                t = P(tokenize(raw), None, self).type()
            self.cache[name] = t
        return t

def align_of(t):
    k = t[0]
    if k == 'i':
        n = t[1]
        return 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
    if k == 'f':
        return {32: 4, 64: 8, 80: 16, 128: 16}[t[1]]
    if k == 'ptr':
        return 8
    if k == 'arr':
        return align_of(t[2])
    if k == 'vec':
        s = size_of(t)
        return s
    if k == 'st':
        if t[2]:
            return 1
        return max([align_of(x) for x in t[1]] or [1])
    raise Unsupported('align_of %r' % (t,))

_sz = {}
def size_of(t):
    r = _sz.get(t)
    if r is not None:
        return r
    k = t[0]
    if k == 'i':
        n = t[1]
        r = 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
    elif k == 'f':
        r = {32: 4, 64: 8, 80: 16, 128: 16}[t[1]]
    elif k == 'ptr':
        r = 8
    elif k == 'arr':
        r = t[1] * size_of(t[2])
    elif k == 'vec':
        r = t[1] * size_of(t[2])
    elif k == 'st':
        offs, r = layout(t)
    elif k == 'opaque':
        r = 4096
    else:
        raise Unsupported('size_of %r' % (t,))
    _sz[t] = r
    return r

_ly = {}
def layout(t):
    r = _ly.get(t)
    if r is None:
        off = 0
        offs = []
        for x in t[1]:
            a = 1 if t[2] else align_of(x)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += size_of(x)
        a = align_of(t)
        off = (off + a - 1) // a * a
        r = (tuple(offs), off)
        _ly[t] = r
    return r

def unq(s):
    """strip sigil and quotes"""
    s = s[1:]
    if s and s[0] == '"':
        s = s[1:-1]
    return s

PARAM_ATTRS = set('''noundef nonnull readonly readnone writeonly nocapture noalias signext zeroext inreg returned
 nofree nest swiftself swifterror immarg dead_on_unwind writable allocptr allocalign captures dead_on_return noext inalloca preallocated
 local_unnamed_addr unnamed_addr dso_local dso_preemptable tail musttail notail fast nnan ninf nsz arcp contract afn reassoc
 nuw nsw exact inbounds volatile disjoint nneg samesign inrange initonly atomic
 internal private linkonce_odr linkonce weak weak_odr external available_externally common appending extern_weak hidden default protected
 thread_local global constant cc ccc fastcc coldcc'''.split())

def decode_cstr(s):
    # s: c"...."
    s = s[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i+1:i+3], 16))
            i += 3
        else:
            out += s[i].encode('latin1', 'replace') if ord(s[i]) < 256 else s[i].encode('utf8')
            i += 1
    return bytes(out)

def fconst(tok, bits):
    k, v = tok
    if k == 'hex':
        if v[2] in 'KLMHR':
            raise Unsupported('fp const ' + v)
        x = struct.unpack('>d', struct.pack('>Q', int(v, 16)))[0]
    else:
        x = float(v)
    return x

class P:
    """token-stream parser with operand codegen"""
    def __init__(self, toks, fn, env):
        self.t = toks
        self.i = 0
        self.fn = fn
        self.env = env

    def peek(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise Unsupported('expected %s got %r in %r' % (v, x, self.t[:12]))

    def skip_attrs(self):
        """skip parameter / instruction attributes; returns dict of interesting ones"""
        d = {}
        while self.i < len(self.t):
            k, v = self.t[self.i]
            if k == 'attr':
                self.i += 1
            elif k == 'id' and v in PARAM_ATTRS:
                self.i += 1
            elif k == 'id' and v in ('align', 'addrspace'):
                self.i += 1
                if self.accept('('):
                    self.next(); self.expect(')')
                else:
                    self.next()
            elif k == 'id' and v in ('dereferenceable', 'dereferenceable_or_null', 'range', 'nofpclass', 'captures', 'memory', 'allocsize', 'alloc-family'):
                self.i += 1
                if self.peek()[1] == '(':
                    self.paren()
            elif k == 'id' and v in ('sret', 'byval', 'byref', 'elementtype', 'preallocated', 'inalloca'):
                self.i += 1
                self.expect('(')
                d[v] = self.type()
                self.expect(')')
            elif k == 'str':
                self.i += 1
                if self.accept('='):
                    self.next()
            else:
                break
        return d

    def paren(self):
        d = 0
        while True:
            k, v = self.next()
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1
                if d == 0:
                    return

    def type(self):
        k, v = self.next()
        if k == 'id':
            if v == 'ptr':
                t = PTR
                if self.peek()[1] == 'addrspace':
                    self.next(); self.paren()
            elif v == 'void':
                t = VOID
            elif v == 'double':
                t = DBL
            elif v == 'float':
                t = FLT
            elif v == 'x86_fp80':
                t = ('f', 80)
            elif v == 'fp128':
                t = ('f', 128)
            elif v == 'label':
                t = LABEL
            elif v == 'metadata':
                t = META
            elif v == 'token':
                t = ('token',)
            elif v[0] == 'i' and v[1:].isdigit():
                t = ('i', int(v[1:]))
            else:
                raise Unsupported('type ' + v)
        elif k == 'loc':
            t = self.env.get(unq(v))
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif v == '{':
            t = self.struct_body(False)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                t = self.struct_body(True)
                self.expect('>')
            else:
                if self.peek()[1] == 'vscale':
                    raise Unsupported('vscale')
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        else:
            raise Unsupported('type tok %r' % ((k, v),))
        # function type suffix:  ret (args...)
        if self.peek()[1] == '(' and self.fn != 'notfnty' and self.allow_fnty:
            self.paren()
            t = ('fnty', t)
        return t

    allow_fnty = False

    def struct_body(self, packed):
        el = []
        if self.accept('}'):
            return ('st', (), packed)
        while True:
            el.append(self.type())
            if self.accept('}'):
                break
            self.expect(',')
        return ('st', tuple(el), packed)

    # ---- constants / operands -> python expression -----------------------------------------
    def value(self, t):
        k, v = self.next()
        f = self.fn
        if k == 'loc':
            return f.reg(v)
        if k == 'glob':
            return f.glob(unq(v))
        if k == 'num' or k == 'hex':
            if t[0] == 'i':
                n = int(v) & ((1 << t[1]) - 1)
                return str(n)
            if t[0] == 'f':
                return f.fcst(fconst((k, v), t[1]))
            raise Unsupported('num of type %r' % (t,))
        if k == 'id':
            if v == 'true':
                return '1'
            if v == 'false':
                return '0'
            if v == 'null':
                return '0'
            if v in ('undef', 'poison'):
                return f.undef(t)
            if v == 'zeroinitializer':
                return f.zero(t)
            if v == 'none':
                return '0'
            if v == 'splat':
                self.expect('(')
                et = self.type()
                e = self.value(et)
                self.expect(')')
                return '(' + ','.join([e] * t[1]) + ',)'
            if v == 'getelementptr':
                self.skip_attrs()
                self.expect('(')
                st = self.type()
                self.expect(',')
                self.type()
                base = self.value(PTR)
                idx = []
                while self.accept(','):
                    self.skip_attrs()
                    it = self.type()
                    idx.append((it, self.value(it)))
                self.expect(')')
                return f.gep(st, base, idx)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'trunc', 'zext', 'sext'):
                self.expect('(')
                st = self.type()
                e = self.value(st)
                self.expect('to')
                tt = self.type()
                self.expect(')')
                if v in ('ptrtoint', 'inttoptr', 'addrspacecast') or st == tt:
                    return e
                return f.cast(v, st, e, tt)
            if v in ('add', 'sub', 'mul', 'shl', 'xor', 'and', 'or'):
                self.skip_attrs()
                self.expect('(')
                t1 = self.type(); a = self.value(t1)
                self.expect(',')
                t2 = self.type(); b = self.value(t2)
                self.expect(')')
                return f.binop(v, t1, a, b)
            if v == 'icmp':
                pred = self.next()[1]
                self.expect('(')
                t1 = self.type(); a = self.value(t1)
                self.expect(',')
                t2 = self.type(); b = self.value(t2)
                self.expect(')')
                return f.icmp(pred, t1, a, b)
            if v == 'select':
                self.expect('(')
                t1 = self.type(); c = self.value(t1)
                self.expect(',')
                t2 = self.type(); a = self.value(t2)
                self.expect(',')
                t3 = self.type(); b = self.value(t3)
                self.expect(')')
                return f.select(t2, c, a, b)
            if v in ('dso_local_equivalent', 'no_cfi'):
                return self.value(t)
            raise Unsupported('value id ' + v)
        if v in ('{', '[', '<'):
            close = {'{': '}', '[': ']', '<': '>'}[v]
            packed = False
            if v == '<' and self.peek()[1] == '{':
                self.next(); close = '}'; packed = True
            el = []
            if not self.accept(close):
                while True:
                    et = self.type()
                    self.skip_attrs()
                    el.append(self.value(et))
                    if self.accept(close):
                        break
                    self.expect(',')
            if packed:
                self.expect('>')
            return '(' + ''.join(e + ',' for e in el) + ')'
        if k == 'str':
            b = decode_cstr(v)
            return '(' + ''.join('%d,' % c for c in b) + ')'
        raise Unsupported('value %r' % ((k, v),))

    def tyval(self):
        t = self.type()
        a = self.skip_attrs()
        if t == META:
            # skip metadata operand
            while self.peek()[1] not in (',', ')', None):
                self.next()
            return t, '0', a
        return t, self.value(t), a


class Global:
    __slots__ = ('name', 'type', 'init', 'ext', 'mod', 'const', 'local', 'tls')

class FuncSrc:
    __slots__ = ('name', 'mod', 'head', 'body', 'local', 'nargs', 'code')

DEFRE = re.compile(r'^define\s.*?(@(?:"[^"]*"|[-\w.$]+))\(')
GLOBRE = re.compile(r'^(@(?:"[^"]*"|[-\w.$]+)) = (.*)$')
LOCALRE = re.compile(r'\b(internal|private)\b')

class Module:
    def __init__(self, path, tag):
        self.path = path
        self.tag = tag
        self.env = TypeEnv()
        self.globals = {}
        self.aliases = {}
        self.funcs = {}
        self.decls = set()
        self.ctors = []
        self.load()

    def load(self):
        cur = None
        with open(self.path, encoding='utf8', errors='replace') as fh:
            for line in fh:
                if cur is not None:
                    if line.startswith('}'):
                        cur = None
                    else:
                        cur.body.append(line.rstrip('\n'))
                    continue
                c = line[:1]
                if c == '%':
                    n, _, rest = line.partition(' = type ')
                    self.env.named[unq(n.strip())] = rest.strip()
                elif c == '@':
                    m = GLOBRE.match(line)
                    self.add_global(unq(m.group(1)), m.group(2))
                elif c == 'd':
                    if line.startswith('define'):
                        m = DEFRE.match(line)
                        f = FuncSrc()
                        f.name = unq(m.group(1))
                        f.mod = self
                        f.head = line.rstrip('\n')
                        f.local = bool(LOCALRE.search(line[:line.index('@')]))
                        f.body = []
                        f.code = None
                        self.funcs[f.name] = f
                        cur = f
                    elif line.startswith('declare'):
                        m = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', line)
                        self.decls.add(unq(m.group(1)))

    def add_global(self, name, rest):
        if re.search(r'(^|\s)alias\s', rest.split('@')[0]):
            # @a = ... alias type, ptr @b
            m = re.search(r'alias\s+.*?,\s*ptr\s+(@(?:"[^"]*"|[-\w.$]+))', rest)
            if m:
                self.aliases[name] = unq(m.group(1))
                return
            raise Unsupported('alias ' + rest)
        if name == 'llvm.global_ctors':
            for m in re.finditer(r'\{ i32 (\d+), ptr (@(?:"[^"]*"|[-\w.$]+))', rest):
                self.ctors.append((int(m.group(1)), unq(m.group(2))))
            return
        if name.startswith('llvm.'):
            return
        g = Global()
        g.name = name
        g.mod = self
        m = re.match(r'(.*?)\b(global|constant)\b\s+(.*)$', rest)
        pre = m.group(1)
        g.const = m.group(2) == 'constant'
        g.ext = bool(re.search(r'\b(external|extern_weak)\b', pre))
        g.local = bool(LOCALRE.search(pre))
        g.tls = 'thread_local' in pre
        g.type = None
        g.init = m.group(3)
        self.globals[name] = g


class FT:
    """function translator"""
    def __init__(self, src, prog):
        self.src = src
        self.mod = src.mod
        self.prog = prog
        self.regs = {}
        self.consts = {}

    def reg(self, v):
        r = self.regs.get(v)
        if r is None:
            r = 'r%d' % len(self.regs)
            self.regs[v] = r
        return r

    def glob(self, name):
        return self.prog.glob_expr(self.mod, name)

    def fcst(self, x):
        if x != x:
            return 'NAN'
        if x in (float('inf'),):
            return 'PINF'
        if x == float('-inf'):
            return 'MINF'
        return self.prog.const(Fraction(x))

    def undef(self, t):
        if t[0] in ('st',):
            return '(' + ''.join(self.undef(x) + ',' for x in t[1]) + ')'
        if t[0] in ('arr', 'vec'):
            return '(' + ','.join([self.undef(t[2])] * t[1]) + ',)'
        return 'UNDEF'

    def zero(self, t):
        if t[0] == 'st':
            return '(' + ''.join(self.zero(x) + ',' for x in t[1]) + ')'
        if t[0] in ('arr', 'vec'):
            return '(' + ','.join([self.zero(t[2])] * t[1]) + ',)'
        if t[0] == 'f':
            return self.fcst(0.0)
        return '0'

    def gep(self, st, base, idx):
        off = 0
        dyn = []
        t = st
        first = True
        for it, e in idx:
            cst = None
            if re.fullmatch(r'-?\d+', e):
                cst = int(e)
                n = it[1]
                if cst >> (n - 1) & 1:
                    cst -= 1 << n
            if first:
                sz = size_of(t)
                first = False
            else:
                if t[0] == 'st':
                    off += layout(t)[0][cst]
                    t = t[1][cst]
                    continue
                t = t[2]
                sz = size_of(t)
            if cst is not None:
                off += cst * sz
            else:
                dyn.append('s%d(%s)%s' % (it[1], e, '*%d' % sz if sz != 1 else ''))
        s = base
        for d in dyn:
            s += '+' + d
        if off or (not dyn and False):
            s += '+%d' % off if off > 0 else '%d' % off
        return '(' + s + ')' if s != base else base

    def binop(self, op, t, a, b):
        if t[0] == 'vec':
            return 'vmap(lambda x,y:%s,%s,%s)' % (self.binop(op, t[2], 'x', 'y'), a, b)
        n = t[1]
        M = (1 << n) - 1
        if n == 1:
            if op == 'and':
                return 'b_and(%s,%s)' % (a, b)
            if op == 'or':
                return 'b_or(%s,%s)' % (a, b)
            if op in ('xor', 'add', 'sub'):
                return 'b_xor(%s,%s)' % (a, b)
            if op == 'mul':
                return 'b_and(%s,%s)' % (a, b)
        if op == 'add':
            return '((%s+%s)&%d)' % (a, b, M)
        if op == 'sub':
            return '((%s-%s)&%d)' % (a, b, M)
        if op == 'mul':
            return '((%s*%s)&%d)' % (a, b, M)
        if op == 'shl':
            return 'i_shl(%s,%s,%d)' % (a, b, n)
        if op == 'lshr':
            return 'i_lshr(%s,%s,%d)' % (a, b, n)
        if op == 'ashr':
            return 'i_ashr(%s,%s,%d)' % (a, b, n)
        if op == 'and':
            return '(%s&%s)' % (a, b)
        if op == 'or':
            return '(%s|%s)' % (a, b)
        if op == 'xor':
            return '(%s^%s)' % (a, b)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            return 'i_%s(%s,%s,%d)' % (op, a, b, n)
        raise Unsupported('binop ' + op)

    def fbin(self, op, t, a, b):
        if t[0] == 'vec':
            return 'vmap(lambda x,y:%s,%s,%s)' % (self.fbin(op, t[2], 'x', 'y'), a, b)
        if op == 'fadd':
            return 'f_add(%s,%s)' % (a, b)
        if op == 'fsub':
            return 'f_sub(%s,%s)' % (a, b)
        if op == 'fmul':
            return 'f_mul(%s,%s)' % (a, b)
        if op == 'fdiv':
            return 'f_div(%s,%s)' % (a, b)
        if op == 'frem':
            return 'f_rem(%s,%s)' % (a, b)
        raise Unsupported(op)

    def icmp(self, pred, t, a, b):
        if t[0] == 'vec':
            raise Unsupported('vector icmp')
        if t[0] == 'i' and t[1] == 1:
            if pred == 'eq':
                return 'b_not(b_xor(%s,%s))' % (a, b)
            if pred == 'ne':
                return 'b_xor(%s,%s)' % (a, b)
            if pred in ('ult', 'sgt'):
                return 'b_and(b_not(%s),%s)' % (a, b)
            if pred in ('ugt', 'slt'):
                return 'b_and(%s,b_not(%s))' % (a, b)
            if pred in ('ule', 'sge'):
                return 'b_or(b_not(%s),%s)' % (a, b)
            if pred in ('uge', 'sle'):
                return 'b_or(%s,b_not(%s))' % (a, b)
        n = 64 if t[0] == 'ptr' else t[1]
        if pred == 'eq':
            return '(%s==%s)' % (a, b)
        if pred == 'ne':
            return '(%s!=%s)' % (a, b)
        op = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[pred[1:]]
        if pred[0] == 'u':
            return '(%s%s%s)' % (a, op, b)
        return '(s%d(%s)%ss%d(%s))' % (n, a, op, n, b)

    def select(self, t, c, a, b):
        if t[0] == 'f':
            return 'f_select(%s,%s,%s)' % (c, a, b)
        if t == ('i', 1):
            return 'b_select(%s,%s,%s)' % (c, a, b)
        return '(%s if T(%s) else %s)' % (a, c, b)

    def cast(self, op, st, e, tt):
        if op in ('ptrtoint', 'inttoptr', 'addrspacecast'):
            n = tt[1] if tt[0] == 'i' else 64
            return e if n >= 64 else '(%s&%d)' % (e, (1 << n) - 1)
        if st[0] == 'vec' or tt[0] == 'vec':
            if op == 'bitcast':
                raise Unsupported('vector bitcast')
            return 'vmap1(lambda x:%s,%s)' % (self.cast(op, st[2], 'x', tt[2]), e)
        if op == 'trunc':
            if tt[1] == 1:
                return 'i_trunc1(%s)' % e
            return 'i_trunc(%s,%d,%d)' % (e, st[1], tt[1])
        if op == 'zext':
            return 'i_zext(%s,%d,%d)' % (e, st[1], tt[1])
        if op == 'sext':
            return 'i_sext(%s,%d,%d)' % (e, st[1], tt[1])
        if op == 'fptosi':
            return 'f_toint(%s,%d,1)' % (e, tt[1])
        if op == 'fptoui':
            return 'f_toint(%s,%d,0)' % (e, tt[1])
        if op == 'sitofp':
            return 'f_fromint(%s,%d,1)' % (e, st[1])
        if op == 'uitofp':
            return 'f_fromint(%s,%d,0)' % (e, st[1])
        if op == 'fpext':
            return e
        if op == 'fptrunc':
            return 'f_trunc32(%s)' % e
        if op == 'bitcast':
            if st == tt:
                return e
            if st[0] == 'f' and tt[0] == 'i':
                return 'f_bits(%s,%d)' % (e, tt[1])
            if st[0] == 'i' and tt[0] == 'f':
                return 'f_frombits(%s,%d)' % (e, tt[1])
            if st[0] == 'ptr' or tt[0] == 'ptr':
                return e
        raise Unsupported('cast ' + op)

    # -------------------------------------------------------------------------------------
    def load(self, t, p):
        k = t[0]
        if k == 'f':
            return 'ld_f(%s,%d)' % (p, size_of(t))
        if k == 'i':
            if t[1] == 1:
                return 'i_trunc1(ld_i(%s,1))' % p
            return 'ld_i(%s,%d)' % (p, size_of(t))
        if k == 'ptr':
            return 'ld_i(%s,8)' % p
        if k == 'st':
            offs, _ = layout(t)
            return '(' + ''.join(self.load(x, '(%s+%d)' % (p, o)) + ',' for x, o in zip(t[1], offs)) + ')'
        if k in ('arr', 'vec'):
            s = size_of(t[2])
            return '(' + ''.join(self.load(t[2], '(%s+%d)' % (p, j * s)) + ',' for j in range(t[1])) + ')'
        raise Unsupported('load %r' % (t,))

    def store(self, t, v, p, out):
        k = t[0]
        if k == 'f':
            out.append('st_f(%s,%d,%s)' % (p, size_of(t), v))
        elif k == 'i':
            if t[1] == 1:
                v = 'i_zext(%s,1,8)' % v
            out.append('st_i(%s,%d,%s)' % (p, size_of(t), v))
        elif k == 'ptr':
            out.append('st_i(%s,8,%s)' % (p, v))
        elif k == 'st':
            offs, _ = layout(t)
            out.append('_sv=%s' % v)
            for j, (x, o) in enumerate(zip(t[1], offs)):
                self.store(x, '_sv[%d]' % j, '(%s+%d)' % (p, o), out)
        elif k in ('arr', 'vec'):
            s = size_of(t[2])
            out.append('_sv=%s' % v)
            for j in range(t[1]):
                self.store(t[2], '_sv[%d]' % j, '(%s+%d)' % (p, j * s), out)
        else:
            raise Unsupported('store %r' % (t,))

    def translate(self):
        src = self.src
        # header: parameters
        head = src.head
        at = head.index('@')
        m = re.search(r'@(?:"[^"]*"|[-\w.$]+)\(', head)
        start = m.end()
        d = 1
        j = start
        instr = False
        while d:
            c = head[j]
            if c == '"':
                instr = not instr
            elif not instr:
                if c == '(':
                    d += 1
                elif c == ')':
                    d -= 1
            j += 1
        ptoks = tokenize(head[start:j-1])
        p = P(ptoks, self, self.mod.env)
        params = []
        vararg = False
        nparam = 0
        while p.i < len(ptoks):
            if p.peek()[0] == 'dots':
                vararg = True
                p.next()
                break
            p.type()
            p.skip_attrs()
            if p.peek()[0] == 'loc':
                nm = p.next()[1]
            else:
                nm = '%' + str(nparam)
            params.append(self.reg(nm))
            nparam += 1
            p.accept(',')
        # blocks
        blocks = []
        cur = None
        body = src.body
        i = 0
        first_label = '%' + str(nparam)
        lines = []
        while i < len(body):
            l = body[i]
            i += 1
            if not l.strip() or l.lstrip().startswith(';'):
                continue
            # join continuation
            if re.match(r'^(?:"[^"]*"|[-\w.$]+):', l):
                lines.append(('L', l))
                continue
            if re.match(r'\s*(switch|%\S+ = landingpad|.*\binvoke\b)', l) or '= landingpad' in l:
                if re.match(r'\s*switch', l) and not l.rstrip().endswith(']'):
                    while not body[i].strip().startswith(']'):
                        l += ' ' + body[i]; i += 1
                    l += ' ' + body[i]; i += 1
                else:
                    while i < len(body) and body[i].startswith('          '):
                        l += ' ' + body[i].strip(); i += 1
            lines.append(('I', l))
        for kind, l in lines:
            if kind == 'L':
                lab = l[:l.index(':')] if l[0] != '"' else l[:l.index('"', 1) + 1]
                cur = ['%' + lab, []]
                blocks.append(cur)
            else:
                if cur is None:
                    cur = [first_label, []]
                    blocks.append(cur)
                cur[1].append(l)
        self.bidx = {b[0]: k for k, b in enumerate(blocks)}
        # first pass: phis
        self.phis = {}
        parsed = []
        for lab, ins in blocks:
            ph = []
            rest = []
            for l in ins:
                # strip metadata suffix
                toks = tokenize(l)
                if len(toks) > 2 and toks[2] == ('id', 'phi') and toks[1][1] == '=':
                    q = P(toks, self, self.mod.env)
                    q.i = 3
                    q.skip_attrs()
                    t = q.type()
                    inc = {}
                    while q.accept('['):
                        v = q.value(t)
                        q.expect(',')
                        lb = q.next()[1]
                        q.expect(']')
                        inc[lb] = v
                        if not q.accept(','):
                            break
                    ph.append((self.reg(toks[0][1]), inc))
                else:
                    rest.append(toks)
            self.phis[lab] = ph
            parsed.append((lab, rest))
        code = []
        self.has_alloca = any(len(t) > 2 and t[2] == ('id', 'alloca') for _, r in parsed for t in r)
        bcode = []
        for lab, rest in parsed:
            out = []
            self.curlab = lab
            for toks in rest:
                self.instr(toks, out)
            bcode.append(out)
        nb = len(bcode)
        L = []
        args = ','.join(params)
        if vararg:
            args += (',' if args else '') + '*_va'
        L.append('def FN(%s):' % args)
        if self.has_alloca:
            L.append(' _al=[]')
        if nb == 1 and not any('continue' in s for s in bcode[0]):
            for s in bcode[0]:
                L.append(' ' + s)
        else:
            L.append(' B=0')
            L.append(' while 1:')
            def emit(lo, hi, ind):
                if hi - lo == 1:
                    for s in bcode[lo]:
                        L.append(' ' * ind + s)
                    return
                mid = (lo + hi) // 2
                L.append(' ' * ind + 'if B<%d:' % mid)
                emit(lo, mid, ind + 1)
                L.append(' ' * ind + 'else:')
                emit(mid, hi, ind + 1)
            emit(0, nb, 2)
        text = '\n'.join(L)
        return text

    def goto(self, lab, ind=''):
        """list of statements for the edge curlab -> lab"""
        out = []
        ph = self.phis.get(lab, [])
        dst = []
        srcs = []
        for r, inc in ph:
            v = inc[self.curlab]
            if v != r:
                dst.append(r)
                srcs.append(v)
        if dst:
            out.append(','.join(dst) + '=' + ','.join(srcs))
        out.append('B=%d' % self.bidx[lab])
        out.append('continue')
        return out

    def ret(self, out, e):
        if self.has_alloca:
            out.append('_rv=%s' % e)
            out.append('free_al(_al)')
            out.append('return _rv')
        else:
            out.append('return ' + e)

    def call_args(self, p):
        args = []
        p.expect('(')
        if not p.accept(')'):
            while True:
                t = p.type()
                a = p.skip_attrs()
                if t == META:
                    d = 0
                    while True:
                        v = p.peek()[1]
                        if d == 0 and v in (',', ')'):
                            break
                        if v == '(':
                            d += 1
                        if v == ')':
                            d -= 1
                        p.next()
                    args.append('0')
                else:
                    v = p.value(t)
                    if 'byval' in a:
                        v = 'byval_copy(%s,%d)' % (v, size_of(a['byval']))
                    args.append(v)
                if p.accept(')'):
                    break
                p.expect(',')
        return args

    def parse_call(self, p):
        """after call/invoke keyword: returns (rettype, callee expr or name, args)"""
        p.skip_attrs()
        p.allow_fnty = True
        # return type (maybe function type) - careful: type followed by '(' only if fn type
        rt = p.type()
        p.allow_fnty = False
        if rt[0] == 'fnty':
            rt = rt[1]
        k, v = p.next()
        if k == 'glob':
            callee = ('g', unq(v))
        elif k == 'loc':
            callee = ('r', self.reg(v))
        elif k == 'id' and v == 'asm':
            raise Unsupported('inline asm')
        else:
            p.i -= 1
            callee = ('r', p.value(PTR))
        args = self.call_args(p)
        p.skip_attrs()
        return rt, callee, args

    def call_expr(self, callee, args):
        if callee[0] == 'r':
            return 'icall(%s)(%s)' % (callee[1], ','.join(args))
        name = callee[1]
        return self.prog.call_expr(self.mod, name, args)

    def instr(self, toks, out):
        p = P(toks, self, self.mod.env)
        res = None
        if toks[0][0] == 'loc' and len(toks) > 1 and toks[1][1] == '=':
            res = self.reg(toks[0][1])
            p.i = 2
        k, op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            k, op = p.next()
        asg = (res + '=') if res else ''
        if op == 'ret':
            t = p.type()
            if t == VOID:
                self.ret(out, 'None')
            else:
                self.ret(out, p.value(t))
        elif op == 'br':
            if p.peek()[1] == 'label':
                p.next()
                out.extend(self.goto(p.next()[1]))
            else:
                p.type()
                c = p.value(I(1))
                p.expect(','); p.expect('label')
                l1 = p.next()[1]
                p.expect(','); p.expect('label')
                l2 = p.next()[1]
                out.append('if T(%s):' % c)
                out.extend(' ' + s for s in self.goto(l1))
                out.extend(self.goto(l2))
        elif op == 'switch':
            t = p.type()
            v = p.value(t)
            p.expect(','); p.expect('label')
            dflt = p.next()[1]
            p.expect('[')
            out.append('_sw=%s' % v)
            while not p.accept(']'):
                ct = p.type()
                cv = p.value(ct)
                p.expect(','); p.expect('label')
                lb = p.next()[1]
                out.append('if T(_sw==%s):' % cv)
                out.extend(' ' + s for s in self.goto(lb))
            out.extend(self.goto(dflt))
        elif op == 'unreachable':
            out.append('unreachable()')
        elif op == 'resume':
            t = p.type()
            v = p.value(t)
            if self.has_alloca:
                out.append('free_al(_al)')
            out.append('resume(%s)' % v)
        elif op == 'alloca':
            p.skip_attrs()
            t = p.type()
            cnt = '1'
            while p.accept(','):
                if p.peek()[1] in ('align', 'addrspace'):
                    p.next(); p.next()
                elif p.peek()[0] == 'meta':
                    break
                else:
                    ct = p.type()
                    cnt = p.value(ct)
            sz = size_of(t)
            out.append('%s=new_obj(%s,2);_al.append(%s)' % (res, ('%d' % sz) if cnt == '1' else '%d*(%s)' % (sz, cnt), res))
        elif op == 'load':
            p.skip_attrs()
            t = p.type()
            p.expect(',')
            p.type()
            a = p.value(PTR)
            out.append(asg + self.load(t, a))
        elif op == 'store':
            p.skip_attrs()
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.type()
            a = p.value(PTR)
            self.store(t, v, a, out)
        elif op == 'getelementptr':
            p.skip_attrs()
            st = p.type()
            p.expect(',')
            p.type()
            base = p.value(PTR)
            idx = []
            while p.accept(','):
                if p.peek()[0] == 'meta':
                    break
                it = p.type()
                idx.append((it, p.value(it)))
            out.append(asg + self.gep(st, base, idx))
        elif op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'urem', 'sdiv', 'srem'):
            p.skip_attrs()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            out.append(asg + self.binop(op, t, a, b))
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            p.skip_attrs()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            out.append(asg + self.fbin(op, t, a, b))
        elif op == 'fneg':
            p.skip_attrs()
            t = p.type()
            a = p.value(t)
            out.append(asg + ('vmap1(f_neg,%s)' % a if t[0] == 'vec' else 'f_neg(%s)' % a))
        elif op == 'icmp':
            p.skip_attrs()
            pred = p.next()[1]
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            out.append(asg + self.icmp(pred, t, a, b))
        elif op == 'fcmp':
            p.skip_attrs()
            pred = p.next()[1]
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            out.append(asg + 'f_cmp_%s(%s,%s)' % (pred, a, b))
        elif op == 'select':
            p.skip_attrs()
            ct = p.type()
            c = p.value(ct)
            p.expect(',')
            t = p.type()
            a = p.value(t)
            p.expect(',')
            p.type()
            b = p.value(t)
            out.append(asg + self.select(t, c, a, b))
        elif op in ('trunc', 'zext', 'sext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            p.skip_attrs()
            st = p.type()
            e = p.value(st)
            p.expect('to')
            tt = p.type()
            out.append(asg + self.cast(op, st, e, tt))
        elif op == 'freeze':
            t = p.type()
            out.append(asg + 'freeze(%s)' % p.value(t))
        elif op == 'extractvalue':
            t = p.type()
            e = p.value(t)
            while p.accept(','):
                if p.peek()[0] == 'meta':
                    break
                e += '[%s]' % p.next()[1]
            out.append(asg + e)
        elif op == 'insertvalue':
            t = p.type()
            e = p.value(t)
            p.expect(',')
            vt = p.type()
            v = p.value(vt)
            idx = []
            while p.accept(','):
                if p.peek()[0] == 'meta':
                    break
                idx.append(p.next()[1])
            out.append(asg + 'insertv(%s,%s,(%s,))' % (e, v, ','.join(idx)))
        elif op == 'extractelement':
            t = p.type(); e = p.value(t); p.expect(','); it = p.type(); ix = p.value(it)
            out.append(asg + '%s[%s]' % (e, ix))
        elif op == 'insertelement':
            t = p.type(); e = p.value(t); p.expect(','); vt = p.type(); v = p.value(vt); p.expect(','); it = p.type(); ix = p.value(it)
            out.append(asg + 'insertv(%s,%s,(%s,))' % (e, v, ix))
        elif op == 'shufflevector':
            t = p.type(); a = p.value(t); p.expect(','); p.type(); b = p.value(t); p.expect(','); mt = p.type(); mk = p.value(mt)
            out.append(asg + 'shuffle(%s,%s,%s)' % (a, b, mk))
        elif op == 'atomicrmw':
            p.skip_attrs()
            rop = p.next()[1]
            p.type()
            a = p.value(PTR)
            p.expect(',')
            t = p.type()
            v = p.value(t)
            r = res or '_rm'
            out.append('_ra=%s' % a)
            out.append('%s=ld_i(_ra,%d)' % (r, size_of(t)))
            if rop == 'xchg':
                nv = v
            elif rop in ('add', 'sub', 'and', 'or', 'xor'):
                nv = self.binop(rop, t, r, v)
            else:
                raise Unsupported('atomicrmw ' + rop)
            out.append('st_i(_ra,%d,%s)' % (size_of(t), nv))
        elif op == 'cmpxchg':
            p.skip_attrs()
            p.type()
            a = p.value(PTR)
            p.expect(',')
            t = p.type(); c = p.value(t)
            p.expect(',')
            p.type(); v = p.value(t)
            out.append('_ra=%s;_ro=ld_i(_ra,%d);_rk=T(_ro==%s)' % (a, size_of(t), c))
            out.append('if _rk: st_i(_ra,%d,%s)' % (size_of(t), v))
            out.append('%s=(_ro,_rk)' % res)
        elif op == 'fence':
            pass
        elif op == 'call':
            rt, callee, args = self.parse_call(p)
            if callee[0] == 'g' and callee[1].startswith('llvm.'):
                n = callee[1]
                if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.assume', 'llvm.invariant', 'llvm.donothing', 'llvm.prefetch')):
                    if res:
                        out.append(res + '=0')
                    return
            out.append(asg + self.call_expr(callee, args))
        elif op == 'invoke':
            rt, callee, args = self.parse_call(p)
            p.expect('to'); p.expect('label')
            l1 = p.next()[1]
            p.expect('unwind'); p.expect('label')
            l2 = p.next()[1]
            out.append('try:')
            out.append(' ' + asg + self.call_expr(callee, args))
            out.append('except CxxExc as _e:')
            out.append(' EXC=_e')
            out.extend(' ' + s for s in self.goto(l2))
            out.extend(self.goto(l1))
        elif op == 'landingpad':
            t = p.type()
            cl = []
            cleanup = False
            while p.i < len(toks):
                k, v = p.next()
                if v == 'cleanup':
                    cleanup = True
                elif v == 'catch':
                    ct = p.type()
                    cl.append(p.value(ct))
                elif v == 'filter':
                    ct = p.type()
                    p.value(ct)
                    cleanup = True
                else:
                    break
            out.append('%s=landing(EXC,(%s),%s)' % (res, ''.join(c + ',' for c in cl), cleanup))
        else:
            raise Unsupported('instr ' + op)
