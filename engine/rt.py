"""Run-time of the symbolic executor: memory, integer ops, calls, exceptions, externals."""
import math, re, struct, sys
from fractions import Fraction
import z3
import real
from real import (R, B, ctx, NEG, ZER, POS, NAN, PINF, MINF, T, add, sub, mul, neg, div, b_not, b_and, b_or, b_xor)
import ir
from ir import Unsupported

M64 = (1 << 64) - 1

class Violation(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind = kind
        self.msg = msg

class EndPath(Exception):
    """path ends (assumption false, exit)"""
    def __init__(self, why):
        self.why = why

class CxxExc(Exception):
    def __init__(self, ptr, ti, dtor):
        self.ptr = ptr
        self.ti = ti
        self.dtor = dtor

# ---------------------------------------------------------------- undefined values
class Undef:
    def _s(self, *a): return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __and__ = __rand__ = _s
    __or__ = __ror__ = __xor__ = __rxor__ = __neg__ = __lshift__ = __rshift__ = _s
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _s
    __hash__ = object.__hash__
    def __bool__(self):
        raise Violation('uninit', 'branch on uninitialised value')
    def __index__(self):
        raise Violation('uninit', 'address from uninitialised value')
    def __repr__(self): return 'UNDEF'
UNDEF = Undef()

class Raw:
    """value loaded from bytes of different cells (partly initialised or mixed)"""
    __slots__ = ('cells', 'n')
    def __init__(self, n, cells):
        self.n = n
        self.cells = cells       # list of (rel off, size, val)
    def _bad(self, *a):
        raise Violation('uninit', 'partly uninitialised value used')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __and__ = __rand__ = __or__ = __ror__ = __xor__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __bool__ = _bad
    __hash__ = object.__hash__

# ---------------------------------------------------------------- symbolic integers
def bvv(x, w):
    return x.e if x.__class__ is SInt else z3.BitVecVal(x, w)

class SInt:
    __slots__ = ('e', 'w')
    def __init__(self, e, w=None):
        self.e = e
        self.w = w or e.size()
    def _fit(self, o):
        if o.__class__ is SInt:
            if o.w == self.w:
                return o.e
            if o.w < self.w:
                return z3.ZeroExt(self.w - o.w, o.e)
            return z3.Extract(self.w - 1, 0, o.e)
        if o.__class__ is SSInt:
            return o.ext(self.w)
        return z3.BitVecVal(o, self.w)
    def __add__(self, o): return mki(self.e + self._fit(o))
    __radd__ = __add__
    def __sub__(self, o): return mki(self.e - self._fit(o))
    def __rsub__(self, o): return mki(self._fit(o) - self.e)
    def __mul__(self, o): return mki(self.e * self._fit(o))
    __rmul__ = __mul__
    def __and__(self, o):
        if o.__class__ is int and o == (1 << self.w) - 1:
            return self
        return mki(self.e & self._fit(o))
    __rand__ = __and__
    def __or__(self, o): return mki(self.e | self._fit(o))
    __ror__ = __or__
    def __xor__(self, o): return mki(self.e ^ self._fit(o))
    __rxor__ = __xor__
    def __eq__(self, o): return mkb(self.e == self._fit(o))
    def __ne__(self, o): return mkb(self.e != self._fit(o))
    def __lt__(self, o): return mkb(z3.ULT(self.e, self._fit(o)))
    def __le__(self, o): return mkb(z3.ULE(self.e, self._fit(o)))
    def __gt__(self, o): return mkb(z3.UGT(self.e, self._fit(o)))
    def __ge__(self, o): return mkb(z3.UGE(self.e, self._fit(o)))
    def __hash__(self): return self.e.hash()
    def __rshift__(self, k): return mki(z3.LShR(self.e, k))
    def __bool__(self): return T(self != 0)

class SSInt:
    """signed view"""
    __slots__ = ('e', 'w')
    def __init__(self, e):
        self.e = e
        self.w = e.size()
    def ext(self, w):
        return self.e if w == self.w else z3.SignExt(w - self.w, self.e) if w > self.w else z3.Extract(w - 1, 0, self.e)
    def _fit(self, o):
        if o.__class__ is SSInt:
            return o.e if o.w == self.w else o.ext(self.w)
        return z3.BitVecVal(o, self.w)
    def __lt__(self, o): return mkb(self.e < self._fit(o))
    def __le__(self, o): return mkb(self.e <= self._fit(o))
    def __gt__(self, o): return mkb(self.e > self._fit(o))
    def __ge__(self, o): return mkb(self.e >= self._fit(o))
    def __mul__(self, o): return SInt(self.ext(64) * o)
    def __add__(self, o):
        return SInt(self.ext(64)) + o
    __radd__ = __add__

def mki(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    return SInt(e)

def mkb(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return B('bv', e)

def _mk_s(n):
    half = 1 << (n - 1)
    full = 1 << n
    def s(x):
        if x.__class__ is int:
            return x - full if x >= half else x
        if x.__class__ is SInt:
            return SSInt(x.e)
        if x.__class__ is bool:
            return int(x)
        if x.__class__ is Undef:
            return x
        return s(toint(x, n))
    return s
s8, s16, s32, s64 = _mk_s(8), _mk_s(16), _mk_s(32), _mk_s(64)
s128 = _mk_s(128)
s1 = _mk_s(1)

def toint(x, n):
    """coerce a double payload or i1 into an integer"""
    if x.__class__ is int or x.__class__ is SInt:
        return x
    if x.__class__ is bool:
        return int(x)
    if x.__class__ is B:
        return 1 if T(x) else 0
    if x.__class__ in (Fraction, float):
        return f_bits(x, 64)
    if x.__class__ is Undef:
        return x
    if x.__class__ is R:
        raise Unsupported('integer operation on symbolic double')
    raise Unsupported('toint %r' % (x,))

def i_shl(a, b, n):
    if a.__class__ is int and b.__class__ is int:
        return (a << b) & ((1 << n) - 1) if b < n else 0
    if a is UNDEF or b is UNDEF: return UNDEF
    return mki(bvv(a, n) << bvv(b, n))
def i_lshr(a, b, n):
    if a.__class__ is int and b.__class__ is int:
        return a >> b if b < n else 0
    if a is UNDEF or b is UNDEF: return UNDEF
    if a.__class__ is Fraction or a.__class__ is float:
        return i_lshr(f_bits(a, 64), b, n)
    return mki(z3.LShR(bvv(a, n), bvv(b, n)))
def i_ashr(a, b, n):
    if a.__class__ is int and b.__class__ is int:
        if a >> (n - 1):
            a -= 1 << n
        return (a >> min(b, n)) & ((1 << n) - 1)
    if a is UNDEF or b is UNDEF: return UNDEF
    return mki(bvv(a, n) >> bvv(b, n))
def i_udiv(a, b, n):
    if b.__class__ is int:
        if b == 0: raise Violation('ub', 'integer division by zero')
        if a.__class__ is int:
            return a // b
    elif T(b == 0): raise Violation('ub', 'integer division by zero')
    return mki(z3.UDiv(bvv(a, n), bvv(b, n)))
def i_urem(a, b, n):
    if b.__class__ is int:
        if b == 0: raise Violation('ub', 'integer division by zero')
        if a.__class__ is int:
            return a % b
    elif T(b == 0): raise Violation('ub', 'integer division by zero')
    return mki(z3.URem(bvv(a, n), bvv(b, n)))
def i_sdiv(a, b, n):
    if b.__class__ is int and b == 0: raise Violation('ub', 'integer division by zero')
    if a.__class__ is int and b.__class__ is int:
        h = 1 << (n - 1)
        x = a - (1 << n) if a >= h else a
        y = b - (1 << n) if b >= h else b
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0): q = -q
        return q & ((1 << n) - 1)
    if b.__class__ is SInt and T(b == 0): raise Violation('ub', 'integer division by zero')
    return mki(bvv(a, n) / bvv(b, n))
def i_srem(a, b, n):
    if b.__class__ is int and b == 0: raise Violation('ub', 'integer division by zero')
    if a.__class__ is int and b.__class__ is int:
        h = 1 << (n - 1)
        x = a - (1 << n) if a >= h else a
        y = b - (1 << n) if b >= h else b
        q = abs(x) % abs(y)
        if x < 0: q = -q
        return q & ((1 << n) - 1)
    if b.__class__ is SInt and T(b == 0): raise Violation('ub', 'integer division by zero')
    return mki(z3.SRem(bvv(a, n), bvv(b, n)))

def i_trunc(a, n, m):
    if a.__class__ is int:
        return a & ((1 << m) - 1)
    if a.__class__ is SInt:
        return mki(z3.Extract(m - 1, 0, a.e))
    if a is UNDEF: return a
    if a.__class__ is Raw:
        return UNDEF
    return toint(a, n) & ((1 << m) - 1)
def i_trunc1(a):
    if a.__class__ is int:
        return a & 1
    if a.__class__ is SInt:
        return mkb(z3.Extract(0, 0, a.e) == 1)
    if a is UNDEF: return a
    return toint(a, 8) & 1
def i_zext(a, n, m):
    if a.__class__ is int:
        return a
    if a.__class__ is SInt:
        return SInt(z3.ZeroExt(m - n, a.e))
    if a.__class__ is bool:
        return int(a)
    if a.__class__ is B:
        return 1 if T(a) else 0
    return a
def i_sext(a, n, m):
    if a.__class__ is int:
        return a if not a >> (n - 1) else (a - (1 << n)) & ((1 << m) - 1)
    if a.__class__ is SInt:
        return SInt(z3.SignExt(m - n, a.e))
    if a.__class__ is bool:
        return ((1 << m) - 1) if a else 0
    if a.__class__ is B:
        return ((1 << m) - 1) if T(a) else 0
    return a

def b_select(c, a, b):
    if c is UNDEF:
        return UNDEF
    if c.__class__ is not B:
        return a if c else b
    if a.__class__ is not B and b.__class__ is not B:
        if a is UNDEF or b is UNDEF:
            return a if T(c) else b
        a = bool(a); b = bool(b)
        if a == b:
            return a
        return c if a else b_not(c)
    if a.__class__ is not B and a is not UNDEF:
        return b_or(c, b) if a else b_and(b_not(c), b)
    if b.__class__ is not B and b is not UNDEF:
        return b_or(b_not(c), a) if b else b_and(c, a)
    return a if T(c) else b

# logical ops with UNDEF
_and, _or, _xor, _not = b_and, b_or, b_xor, b_not
def b_and(a, b):
    if a is UNDEF or b is UNDEF:
        if (a.__class__ in (int, bool) and not a) or (b.__class__ in (int, bool) and not b): return False
        return UNDEF
    return _and(a, b)
def b_or(a, b):
    if a is UNDEF or b is UNDEF:
        if (a.__class__ in (int, bool) and a) or (b.__class__ in (int, bool) and b): return True
        return UNDEF
    return _or(a, b)
def b_xor(a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    return _xor(a, b)
def b_not(a):
    if a is UNDEF: return UNDEF
    return _not(a)

# ---------------------------------------------------------------- doubles
def _fcoerce(x):
    c = x.__class__
    if c is Fraction or c is R or c is float or c is Undef:
        return x
    if c is int:
        return f_frombits(x, 64)
    if c is Raw:
        return UNDEF
    raise Unsupported('double operand %r' % (x,))

def f_add(a, b):
    if a.__class__ is Fraction and b.__class__ is Fraction:
        return a + b
    if a is UNDEF or b is UNDEF: return UNDEF
    return add(a, b)
def f_sub(a, b):
    if a.__class__ is Fraction and b.__class__ is Fraction:
        return a - b
    if a is UNDEF or b is UNDEF: return UNDEF
    return add(a, neg(b))
def f_mul(a, b):
    if a.__class__ is Fraction and b.__class__ is Fraction:
        return a * b
    if a is UNDEF or b is UNDEF: return UNDEF
    return mul(a, b)
def f_div(a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    return div(a, b)
def f_neg(a):
    if a is UNDEF: return a
    return neg(a)
def f_rem(a, b):
    if a.__class__ is Fraction and b.__class__ is Fraction and b != 0:
        q = abs(a) % abs(b)
        return q if a >= 0 else -q
    raise Unsupported('symbolic fmod')

def f_select(c, a, b):
    if c.__class__ is not B:
        return a if c else b
    if a is UNDEF or b is UNDEF or not ctx.ite_mode or a.__class__ not in (Fraction, R) or b.__class__ not in (Fraction, R):
        return a if T(c) else b
    # |x| idiom and trivial
    k = quick(c)
    if k is None:
        k = state.explorer.implied(c)
    if k is not None:
        return a if k else b
    if c.kind == 'cmp' and real.known_mask(c.a) in (POS | ZER, NEG | ZER):
        return a if T(c) else b         # degenerate boundary (zero vector, ..): its own path
    return real.ite(c, a, b)

def quick(b):
    """truth of b from what is already known on the path, or None"""
    if b.__class__ is not B:
        return bool(b)
    if b.kind == 'cmp':
        k = real.known_mask(b.a)
        m = k & b.b
        if m == k: return True
        if m == 0: return False
        return None
    if b.kind == 'and':
        r = True
        for x in b.a:
            q = quick(x)
            if q is False: return False
            if q is None: r = None
        return r
    if b.kind == 'or':
        r = False
        for x in b.a:
            q = quick(x)
            if q is True: return True
            if q is None: r = None
        return r
    return None

def _unord(a, b):
    return (a.__class__ is float and a != a) or (b.__class__ is float and b != b)

def _mkcmp(mask):
    py = {real.NEG: lambda a, b: a < b, real.NEG | real.ZER: lambda a, b: a <= b, real.POS: lambda a, b: a > b,
          real.POS | real.ZER: lambda a, b: a >= b, real.ZER: lambda a, b: a == b, real.NEG | real.POS: lambda a, b: a != b,
          7: lambda a, b: True, 0: lambda a, b: False}[mask]
    cm = real.cmpmask
    def o(a, b):
        ca, cb = a.__class__, b.__class__
        if ca is Fraction and cb is Fraction:
            return py(a, b)
        if ca is Undef or cb is Undef: return UNDEF
        if ca is float or cb is float:
            if a != a if ca is float else False: return False
            if b != b if cb is float else False: return False
            # infinities
            x = a if ca is float else 0.0
            y = b if cb is float else 0.0
            return py(x, y)
        return cm(a, b, mask)
    def u(a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if _unord(a, b): return True
        return o(a, b)
    return o, u

f_cmp_olt, f_cmp_ult = _mkcmp(real.NEG)
f_cmp_ole, f_cmp_ule = _mkcmp(real.NEG | real.ZER)
f_cmp_ogt, f_cmp_ugt = _mkcmp(real.POS)
f_cmp_oge, f_cmp_uge = _mkcmp(real.POS | real.ZER)
f_cmp_oeq, f_cmp_ueq = _mkcmp(real.ZER)
f_cmp_one, f_cmp_une = _mkcmp(real.NEG | real.POS)
def f_cmp_ord(a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    return not _unord(a, b)
def f_cmp_uno(a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    return _unord(a, b)
def f_cmp_true(a, b): return True
def f_cmp_false(a, b): return False

def f_toint(a, n, signed):
    if a is UNDEF: return a
    if a.__class__ is Fraction:
        v = int(a)
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
        if not lo <= v <= hi:
            raise Violation('ub', 'double to integer conversion out of range')
        return v & ((1 << n) - 1)
    if a.__class__ is float:
        raise Violation('ub', 'conversion of NaN/inf to integer')
    # symbolic: fork on the integer part
    lo, hi = real.poly_interval(a)
    if hi - lo > 64 or lo == MINF or hi == PINF:
        raise Unsupported('symbolic double to int')
    for v in range(math.floor(lo), math.ceil(hi) + 1):
        # trunc toward zero
        if v > 0:
            c = real.b_and(real.ge(a, Fraction(v)), real.lt(a, Fraction(v + 1)))
        elif v < 0:
            c = real.b_and(real.gt(a, Fraction(v - 1)), real.le(a, Fraction(v)))
        else:
            c = real.b_and(real.gt(a, Fraction(-1)), real.lt(a, Fraction(1)))
        if T(c):
            return v & ((1 << n) - 1)
    raise EndPath('infeasible')

def f_fromint(a, n, signed):
    if a.__class__ is bool:
        a = int(a)
    if a.__class__ is int:
        if signed and a >> (n - 1):
            a -= 1 << n
        return Fraction(a)
    if a is UNDEF: return a
    if a.__class__ is B:
        return real.ite(a, Fraction(-1 if signed and n == 1 else 1), Fraction(0)) if ctx.ite_mode and quick(a) is None else Fraction(1 if T(a) else 0)
    if a.__class__ is SInt:
        return Fraction(f_fromint(concretize(a), n, signed))
    raise Unsupported('int to double')

def f_bits(a, n):
    if a is UNDEF or a.__class__ is R or a.__class__ is int:
        return a
    if n == 64:
        return struct.unpack('<Q', struct.pack('<d', float(a)))[0]
    return struct.unpack('<I', struct.pack('<f', float(a)))[0]

def f_frombits(a, n):
    if a.__class__ is not int:
        if a.__class__ is Raw:
            return UNDEF
        if a.__class__ is SInt:
            raise Unsupported('symbolic bits to double')
        return a
    if n == 64:
        x = struct.unpack('<d', struct.pack('<Q', a))[0]
    else:
        x = struct.unpack('<f', struct.pack('<I', a))[0]
    if x != x or x in (PINF, MINF):
        return x
    return Fraction(x)

def f_trunc32(a):
    if a.__class__ is Fraction:
        return Fraction(struct.unpack('<f', struct.pack('<f', float(a)))[0])
    return a

def freeze(a):
    return 0 if a is UNDEF else a

def vmap(f, a, b):
    return tuple(f(x, y) for x, y in zip(a, b))
def vmap1(f, a):
    return tuple(f(x) for x in a)
def insertv(t, v, idx):
    l = list(t)
    if len(idx) == 1:
        l[idx[0]] = v
    else:
        l[idx[0]] = insertv(l[idx[0]], v, idx[1:])
    return tuple(l)
def shuffle(a, b, m):
    n = len(a)
    c = tuple(a) + (tuple(b) if isinstance(b, tuple) else (UNDEF,) * n)
    return tuple(UNDEF if x is UNDEF else c[x] for x in m)

def unreachable():
    raise Violation('unreachable', 'unreachable code executed (undefined behaviour)')

# ---------------------------------------------------------------- memory
class Obj:
    __slots__ = ('size', 'cells', 'alive', 'kind', 'name', 'al8', 'data')
    def __init__(self, size, kind, name=''):
        self.size = size
        self.kind = kind       # 1 heap, 2 stack, 3 function, 4 global, 5 read-only global, 6 external blob
        self.name = name
        self.cells = {}
        self.alive = True
        self.al8 = True
        self.data = None
    def clone(self):
        o = Obj(self.size, self.kind, self.name)
        o.cells = dict(self.cells)
        o.alive = self.alive
        o.al8 = self.al8
        o.data = self.data
        return o

class Mem:
    pass

objs = {}
base_objs = {}
state = Mem()
state.next = 16
state.steps = 0

def fetch(i):
    o = objs.get(i)
    if o is None:
        b = base_objs.get(i)
        if b is None:
            g = state.prog.lazy_global(i)
            if g is None:
                raise Violation('memory', 'invalid pointer (null or wild) object %x' % i)
            return g
        o = objs[i] = b.clone()
    return o

KIND = {1: 'heap', 2: 'stack', 3: 'function', 4: 'global', 5: 'constant', 6: 'external'}

def new_obj(size, kind, name=''):
    if size.__class__ is not int:
        size = concretize(size)
    i = state.next
    state.next = i + 1
    objs[i] = Obj(size, kind, name)
    return i << 32

def free_al(al):
    for p in al:
        o = objs[p >> 32]
        o.alive = False
        o.cells = {}

def conc_addr(p, n):
    """symbolic address: first ask whether it can leave its object, then enumerate"""
    if p is UNDEF:
        raise Violation('uninit', 'address from uninitialised value')
    if p.__class__ is SInt:
        return state.explorer.concretize_addr(p, n)
    if p.__class__ is bool:
        return int(p)
    raise Unsupported('address %r' % (p,))

def concretize(v):
    if v.__class__ is int:
        return v
    if v.__class__ is SInt:
        return state.explorer.concretize_int(v)
    if v is UNDEF:
        raise Violation('uninit', 'uninitialised integer used')
    return toint(v, 64)

def check(o, off, n, p, what):
    if not o.alive:
        raise Violation('memory', '%s of %d bytes in freed %s object %s' % (what, n, KIND[o.kind], o.name))
    if o.kind == 3:
        raise Violation('memory', '%s in function %s' % (what, o.name))
    if off + n > o.size:
        if off >= 0xf0000000:
            off -= 1 << 32
        raise Violation('memory', '%s of %d bytes at offset %d of %s object %s of size %d' % (what, n, off, KIND[o.kind], o.name, o.size))

def ld_i(p, n):
    if p.__class__ is not int:
        p = conc_addr(p, n)
    o = objs.get(p >> 32)
    if o is None:
        o = fetch(p >> 32)
    off = p & 0xffffffff
    c = o.cells.get(off)
    if c is not None and c[0] == n:
        return c[1]
    return ld_slow(o, off, n, p)

def ld_f(p, n):
    v = ld_i(p, n)
    c = v.__class__
    if c is R or c is Fraction or c is float or c is Undef:
        return v
    if c is int:
        return f_frombits(v, n * 8)
    if c is Raw:
        return UNDEF
    raise Unsupported('load double of %r' % (v,))

def cell_bytes(size, val):
    """list of byte values (ints / UNDEF / z3) of a cell"""
    if val.__class__ in (Fraction, float):
        val = f_bits(val, size * 8)
    if val.__class__ is bool:
        val = int(val)
    if val.__class__ is int:
        return list(val.to_bytes(size, 'little'))
    if val.__class__ is SInt:
        return [mki(z3.Extract(8 * k + 7, 8 * k, val.e)) for k in range(size)]
    if val is UNDEF:
        return [UNDEF] * size
    if val.__class__ is Raw:
        out = [UNDEF] * size
        for ro, sz, v in val.cells:
            out[ro:ro + sz] = cell_bytes(sz, v)
        return out
    if val.__class__ is B:
        return [1 if T(val) else 0] + [0] * (size - 1)
    raise Unsupported('bytes of a symbolic double')

def ld_slow(o, off, n, p):
    check(o, off, n, p, 'read')
    cells = o.cells
    bs = [UNDEF] * n
    miss = n
    raws = []
    for k in range(max(0, off - 15), off + n):
        c = cells.get(k)
        if c is None or k + c[0] <= off:
            continue
        raws.append((k, c))
    if not raws:
        if o.kind == 6:
            return 0
        return UNDEF
    if len(raws) == 1 and raws[0][0] == off and raws[0][1][0] == n:
        return raws[0][1][1]
    allint = True
    for k, c in raws:
        if c[1].__class__ is R:
            # only whole cells can be carried
            if k < off or k + c[0] > off + n:
                raise Unsupported('partial load of a symbolic double')
            allint = False
    if not allint:
        return Raw(n, [(k - off, c[0], c[1]) for k, c in raws])
    for k, c in raws:
        b = cell_bytes(c[0], c[1])
        for j in range(c[0]):
            q = k + j - off
            if 0 <= q < n:
                bs[q] = b[j]
    if any(x is UNDEF for x in bs):
        if o.kind == 6:
            bs = [0 if x is UNDEF else x for x in bs]
        else:
            return Raw(n, [(j, 1, x) for j, x in enumerate(bs) if x is not UNDEF])
    if all(x.__class__ is int for x in bs):
        return int.from_bytes(bytes(bs), 'little')
    e = z3.Concat(*[bvv(x, 8) for x in reversed(bs)]) if n > 1 else bvv(bs[0], 8)
    return mki(e)

def st_i(p, n, v):
    if p.__class__ is not int:
        p = conc_addr(p, n)
    o = objs.get(p >> 32)
    if o is None:
        o = fetch(p >> 32)
    off = p & 0xffffffff
    if not o.alive or off + n > o.size or o.kind == 5 or o.kind == 3:
        if o.kind == 5:
            raise Violation('memory', 'write to constant %s' % o.name)
        check(o, off, n, p, 'write')
    cells = o.cells
    if n == 8 and not off & 7 and o.al8:
        cells[off] = (8, v)
        return
    c = cells.get(off)
    if c is None or c[0] != n:
        clear_range(o, off, n)
        if n != 8 or off & 7:
            o.al8 = False
    if v.__class__ is Raw:
        for ro, sz, x in v.cells:
            cells[off + ro] = (sz, x)
        o.al8 = False
        return
    cells[off] = (n, v)

def st_f(p, n, v):
    st_i(p, n, v)

def clear_range(o, off, n):
    """remove [off, off+n) keeping the uncovered bytes of overlapping cells"""
    cells = o.cells
    if n > 64 and len(cells) < n:
        keys = [k for k in cells if off - 16 < k < off + n]
    else:
        keys = range(max(0, off - 15), off + n)
    for k in list(keys):
        c = cells.get(k)
        if c is None:
            continue
        sz = c[0]
        if k + sz <= off:
            continue
        del cells[k]
        if k >= off and k + sz <= off + n:
            continue
        o.al8 = False
        if c[1].__class__ is R:
            continue
        bs = cell_bytes(sz, c[1])
        for j in range(sz):
            if k + j < off or k + j >= off + n:
                if bs[j] is not UNDEF:
                    cells[k + j] = (1, bs[j])

def memcpy(d, s, n):
    n = concretize(n)
    if n == 0:
        return
    if d.__class__ is not int: d = conc_addr(d, n)
    if s.__class__ is not int: s = conc_addr(s, n)
    so = fetch(s >> 32)
    soff = s & 0xffffffff
    check(so, soff, n, s, 'read')
    do = fetch(d >> 32)
    doff = d & 0xffffffff
    check(do, doff, n, d, 'write')
    if do.kind == 5:
        raise Violation('memory', 'write to constant %s' % do.name)
    items = []
    cells = so.cells
    keys = [k for k in cells if soff - 16 < k < soff + n] if len(cells) < n * 2 + 32 else [k for k in range(max(0, soff - 15), soff + n) if k in cells]
    aligned = True
    for k in keys:
        sz, v = cells[k]
        if k + sz <= soff:
            continue
        if k >= soff and k + sz <= soff + n:
            items.append((k - soff, sz, v))
            if sz != 8 or (k - soff + doff) & 7:
                aligned = False
        else:
            aligned = False
            bs = cell_bytes(sz, v)
            for j in range(sz):
                if soff <= k + j < soff + n and bs[j] is not UNDEF:
                    items.append((k + j - soff, 1, bs[j]))
    clear_range(do, doff, n)
    if not aligned:
        do.al8 = False
    dc = do.cells
    for k, sz, v in items:
        dc[doff + k] = (sz, v)
    if so.kind == 6:
        pass

def memset(d, b, n):
    n = concretize(n)
    if n == 0:
        return
    if d.__class__ is not int: d = conc_addr(d, n)
    b = concretize(b) if b is not UNDEF else UNDEF
    o = fetch(d >> 32)
    off = d & 0xffffffff
    check(o, off, n, d, 'write')
    clear_range(o, off, n)
    if b is UNDEF:
        return
    v8 = int.from_bytes(bytes([b]) * 8, 'little')
    k = off
    end = off + n
    while k < end:
        if not k & 7 and k + 8 <= end:
            o.cells[k] = (8, v8)
            k += 8
        else:
            o.al8 = False
            o.cells[k] = (1, b)
            k += 1

def byval_copy(p, n):
    q = new_obj(n, 2, 'byval')
    memcpy(q, p, n)
    return q

def rd_cstr(p, lim=4096):
    out = []
    while len(out) < lim:
        c = ld_i(p, 1)
        c = concretize(c)
        if c == 0:
            return bytes(out).decode('latin1')
        out.append(c)
        p += 1
    raise Unsupported('long string')

def rd_bytes(p, n):
    return [concretize(ld_i(p + k, 1)) for k in range(n)]

def mk_cstr(s):
    b = s.encode('latin1') + b'\0'
    p = new_obj(len(b), 1, 'cstr')
    for i, c in enumerate(b):
        st_i(p + i, 1, c)
    return p

# ---------------------------------------------------------------- exceptions
exc_by_ptr = {}
catch_stack = []

def ti_name(ti):
    o = fetch(ti >> 32)
    return o.name

STD_BASES = {
    '_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt9bad_alloc': '_ZTISt9exception',
    '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12out_of_range': '_ZTISt11logic_error',
    '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt12domain_error': '_ZTISt11logic_error',
    '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt14overflow_error': '_ZTISt13runtime_error', '_ZTISt15underflow_error': '_ZTISt13runtime_error',
    '_ZTISt8bad_cast': '_ZTISt9exception', '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc', '_ZTISt10bad_typeid': '_ZTISt9exception',
    '_ZTISt12bad_weak_ptr': '_ZTISt9exception', '_ZTISt17bad_function_call': '_ZTISt9exception', '_ZTINSt8ios_base7failureB5cxx11E': '_ZTISt13runtime_error',
}

def ti_bases(ti):
    """names of the type and its bases (single, offset 0)"""
    seen = []
    while True:
        n = ti_name(ti)
        seen.append(n)
        if n in STD_BASES:
            b = STD_BASES[n]
            while b:
                seen.append(b)
                b = STD_BASES.get(b)
            return seen
        o = fetch(ti >> 32)
        if o.size >= 24 and 16 in o.cells and o.kind != 6:
            ti = o.cells[16][1]
            if ti.__class__ is not int or ti >> 32 not in objs and ti >> 32 not in base_objs and state.prog.lazy_global(ti >> 32) is None:
                return seen
            continue
        return seen

def landing(e, clauses, cleanup):
    names = None
    for c in clauses:
        if c == 0:
            return (e.ptr, 1)
        if names is None:
            names = ti_bases(e.ti)
        if ti_name(c) in names:
            return (e.ptr, c >> 32)
    if cleanup:
        return (e.ptr, 0)
    raise e

def resume(v):
    raise exc_by_ptr[v[0]]

def throw_std(name, msg):
    """throw a modelled standard exception object"""
    p = new_obj(16, 1, 'exception ' + name)
    std_exc_init(p, name, msg)
    ti = state.prog.address_of('_ZTISt' + name)
    e = CxxExc(p, ti, 0)
    e.what = msg
    exc_by_ptr[p] = e
    raise e

def std_exc_init(p, name, msg):
    vt = state.prog.fake_exc_vtable()
    st_i(p, 8, vt)
    st_i(p + 8, 8, mk_cstr(msg) if isinstance(msg, str) else msg)

def icall(p):
    if p.__class__ is not int:
        p = conc_addr(p, 8)
    o = fetch(p >> 32)
    if o.kind != 3 or p & 0xffffffff:
        raise Violation('memory', 'call through invalid function pointer')
    return o.data

# ---------------------------------------------------------------- program
class Program:
    def __init__(self, modules):
        self.mods = modules
        self.addr = {}           # symbol key -> address
        self.bykey = {}
        self.lazy = {}           # object id -> (kind, payload)
        self.ns = {}
        self.cst = {}
        self.compiled = {}
        self.functab = {}
        self.gtab = {}
        self.names = {}
        self.called = set()
        self.overrides = {}
        for m in modules:
            for n, f in m.funcs.items():
                if not f.local and n not in self.functab:
                    self.functab[n] = f
            for n, g in m.globals.items():
                if not g.local and not g.ext and n not in self.gtab:
                    self.gtab[n] = g
        g = globals()
        for k in list(g):
            if not k.startswith('__'):
                self.ns[k] = g[k]
        self.ns['T'] = T_
        state.prog = self

    def const(self, fr):
        k = self.cst.get(fr)
        if k is None:
            k = 'K%d' % len(self.cst)
            self.cst[fr] = k
            self.ns[k] = fr
        return k

    def resolve(self, mod, name, depth=0):
        """-> (key, kind, payload)"""
        a = mod.aliases.get(name)
        if a is not None and depth < 5:
            return self.resolve(mod, a, depth + 1)
        f = mod.funcs.get(name)
        if f is not None and f.local:
            return ((mod.tag, name), 'f', f)
        g = mod.globals.get(name)
        if g is not None and g.local:
            return ((mod.tag, name), 'g', g)
        if name in self.functab:
            return (name, 'f', self.functab[name])
        if name in self.gtab:
            return (name, 'g', self.gtab[name])
        for m in self.mods:
            if name in m.aliases:
                return self.resolve(m, m.aliases[name], depth + 1)
        if g is not None:
            return (name, 'xg', g)
        return (name, 'xf', name)

    def fix_addresses(self):
        """give every symbol its address now, so that decisions recorded in one process mean the same in another"""
        for m in self.mods:
            for n in list(m.funcs) + list(m.globals) + list(m.aliases) + list(getattr(m, 'decls', ())):
                self.address(m, n)
        if '$errno' not in self.addr:
            self.addr['$errno'] = (len(self.addr) + 0x100000) << 32

    def address(self, mod, name):
        key, kind, pl = self.resolve(mod, name)
        a = self.addr.get(key)
        if a is None:
            i = len(self.addr) + 0x100000
            a = self.addr[key] = i << 32
            self.lazy[i] = (kind, pl, key)
        return a

    def address_of(self, name):
        """address of a global-scope symbol by name (typeinfo etc.)"""
        for m in self.mods:
            if name in m.globals:
                return self.address(m, name)
        a = self.addr.get(name)
        if a is None:
            i = len(self.addr) + 0x100000
            a = self.addr[name] = i << 32
            self.lazy[i] = ('xg', None, name)
        return a

    def glob_expr(self, mod, name):
        return str(self.address(mod, name))

    def lazy_global(self, i):
        l = self.lazy.get(i)
        if l is None:
            return None
        kind, pl, key = l
        name = key if isinstance(key, str) else key[1]
        if kind == 'f' or kind == 'xf':
            o = Obj(1, 3, name)
            o.data = self.func_callable(kind, pl, key)
        elif kind == 'xg':
            o = Obj(4096, 6, name)
            init_external_global(o, name)
        else:
            g = pl
            q = ir.P(ir.tokenize(strip_tail(g.init)), GInit(g.mod, self), g.mod.env)
            t = q.type()
            o = Obj(ir.size_of(t), 4, name)
            objs[i] = o
            expr = q.value(t)
            val = eval(expr, self.ns)
            write_init(o, 0, t, val)
            if g.const:
                o.kind = 5
        objs[i] = o
        return o

    def func_callable(self, kind, pl, key):
        name = key if isinstance(key, str) else key[1]
        return self.binder(kind, pl, key)

    def binder(self, kind, pl, key):
        """python callable for a function symbol; compiled on first call"""
        name = key if isinstance(key, str) else key[1]
        c = self.compiled.get(key)
        if c is not None:
            return c
        ext = self.overrides.get(name) or EXT.get(name)
        if ext is None:
            ext = ext_by_pattern(name)
        if ext is not None:
            self.compiled[key] = ext
            return ext
        if kind == 'xf':
            def missing(*a, _n=name):
                raise Unsupported('external function ' + _n)
            self.compiled[key] = missing
            return missing
        src = pl
        prog = self
        def lazyf(*a):
            fn = prog.compile(src, key)
            return fn(*a)
        self.compiled[key] = lazyf
        return lazyf

    def compile(self, src, key):
        fn = self.functions.get(key) if hasattr(self, 'functions') else None
        if fn is not None:
            return fn
        if not hasattr(self, 'functions'):
            self.functions = {}
        ft = ir.FT(src, self)
        text = ft.translate()
        ns = self.ns
        try:
            exec(compile(text, src.name, 'exec'), ns)
        except SyntaxError as e:
            raise Unsupported('translation of %s: %s' % (src.name, e))
        fn = ns.pop('FN')
        self.functions[key] = fn
        self.called.add(src.name)
        self.compiled[key] = fn
        nm = self.names.get(key)
        if nm:
            ns[nm] = fn
        return fn

    def call_expr(self, mod, name, args):
        key, kind, pl = self.resolve(mod, name)
        nm = self.names.get(key)
        if nm is None:
            nm = 'F%d' % len(self.names)
            self.names[key] = nm
            self.ns[nm] = self.binder(kind, pl, key)
        if kind == 'xf' and name.startswith('llvm.'):
            pass
        return '%s(%s)' % (nm, ','.join(args))

    def run_ctors(self):
        for m in self.mods:
            for pr, n in sorted(m.ctors):
                if 'src_mex' in n:
                    continue
                f = self.binder(*(lambda r: (r[1], r[2], r[0]))(self.resolve(m, n)))
                f()

    def snapshot(self):
        global base_objs
        base_objs.clear()
        base_objs.update(objs)
        objs.clear()
        self.base_next = state.next

    def restore(self):
        objs.clear()
        exc_by_ptr.clear()
        del catch_stack[:]
        state.next = self.base_next

    def fake_exc_vtable(self):
        a = self.addr.get('$excvt')
        if a is None:
            fs = []
            for n, f in (('D2', lambda p: None), ('D0', lambda p: None), ('what', lambda p: ld_i(p + 8, 8))):
                i = len(self.addr) + 0x100000
                self.addr['$exc' + n] = i << 32
                o = Obj(1, 3, 'std::exception::' + n)
                o.data = f
                base_objs[i] = o
                fs.append(i << 32)
            i = len(self.addr) + 0x100000
            o = Obj(40, 5, 'vtable std::exception')
            o.cells = {0: (8, 0), 8: (8, 0), 16: (8, fs[0]), 24: (8, fs[1]), 32: (8, fs[2])}
            base_objs[i] = o
            a = self.addr['$excvt'] = (i << 32) + 16
        return a

class GInit:
    """operand printer used for global initialisers"""
    def __init__(self, mod, prog):
        self.mod = mod
        self.prog = prog
        self.f = ir.FT.__new__(ir.FT)
        self.f.mod = mod
        self.f.prog = prog
    def __getattr__(self, k):
        return getattr(self.f, k)

def strip_tail(s):
    """drop ', align 8' / comdat / section suffixes of a global definition"""
    d = 0
    instr = False
    for i, c in enumerate(s):
        if c == '"':
            instr = not instr
        elif not instr:
            if c in '([{<':
                d += 1
            elif c in ')]}>':
                d -= 1
            elif c == ',' and d == 0:
                return s[:i]
    return s

def write_init(o, off, t, v):
    k = t[0]
    if k == 'st':
        offs, _ = ir.layout(t)
        if v.__class__ is not tuple:
            raise Unsupported('init')
        for x, oo, vv in zip(t[1], offs, v):
            write_init(o, off + oo, x, vv)
    elif k in ('arr', 'vec'):
        s = ir.size_of(t[2])
        for j in range(t[1]):
            write_init(o, off + j * s, t[2], v[j])
    else:
        n = ir.size_of(t)
        if v is UNDEF:
            return
        if n != 8 or off & 7:
            o.al8 = False
        o.cells[off] = (n, v)

def init_external_global(o, name):
    if name in ('_ZSt4cout', '_ZSt4cerr', '_ZSt4clog'):
        vt = 0x0f0001
        base_objs.setdefault(vt, Obj(64, 6, 'fake stream vtable'))
        ct = 0x0f0002
        c = Obj(1024, 6, 'fake ctype')
        c.al8 = False
        c.cells[56] = (1, 1)
        for k in range(256):
            c.cells[57 + k] = (1, k)
        base_objs.setdefault(ct, c)
        o.cells[0] = (8, (vt << 32) + 32)
        o.cells[240] = (8, ct << 32)
    elif name.startswith('_ZTTNSt'):
        base_objs.setdefault(0x0f0001, Obj(64, 6, 'fake stream vtable'))
        for k in range(0, o.size, 8):
            o.cells[k] = (8, (0x0f0001 << 32) + 32)
    elif name == '__libc_single_threaded':
        o.al8 = False
        o.cells[0] = (1, 1)

def T_(b):
    c = b.__class__
    if c is bool or c is int:
        return b
    if c is B:
        return ctx.decide(b)
    if c is SInt:
        return T(b != 0)
    if c is Undef:
        raise Violation('uninit', 'branch on uninitialised value')
    return bool(b)

# ---------------------------------------------------------------- externals
EXT = {}
def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d

@ext('_Znwm', '_Znam', 'malloc')
def _new(n, *a):
    n = concretize(n)
    if n > 1 << 30:
        throw_std('9bad_alloc', 'std::bad_alloc')
    return new_obj(n, 1, 'new')
@ext('_ZnwmSt11align_val_t', '_ZnamSt11align_val_t')
def _newal(n, al):
    return _new(n)
@ext('calloc')
def _calloc(a, b):
    p = _new(a * b)
    memset(p, 0, a * b)
    return p
@ext('realloc')
def _realloc(p, n):
    q = _new(n)
    if p:
        o = fetch(p >> 32)
        memcpy(q, p, min(o.size, n))
        _del(p)
    return q
@ext('_ZdlPv', '_ZdaPv', 'free', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def _del(p, *a):
    if p.__class__ is not int:
        p = conc_addr(p, 1)
    if p == 0:
        return
    o = fetch(p >> 32)
    if o.kind != 1 or p & 0xffffffff:
        raise Violation('memory', 'free of a pointer that is not the start of a heap block')
    if not o.alive:
        raise Violation('memory', 'double free')
    o.alive = False
    o.cells = {}
@ext('posix_memalign')
def _pma(pp, al, n):
    st_i(pp, 8, _new(n))
    return 0
@ext('aligned_alloc')
def _aa(al, n):
    return _new(n)

@ext('memcpy', 'memmove')
def _memcpy(d, s, n):
    memcpy(d, s, n)
    return d
@ext('memset')
def _memset(d, b, n):
    memset(d, b & 255 if b.__class__ is int else b, n)
    return d
@ext('strlen')
def _strlen(p):
    n = 0
    while concretize(ld_i(p + n, 1)):
        n += 1
    return n
@ext('bcmp', 'memcmp')
def _memcmp(a, b, n):
    n = concretize(n)
    for k in range(n):
        x = concretize(ld_i(a + k, 1)); y = concretize(ld_i(b + k, 1))
        if x != y:
            return 1 if x > y else 0xffffffff
    return 0
@ext('memchr')
def _memchr(p, c, n):
    n = concretize(n); c = concretize(c) & 255
    for k in range(n):
        if concretize(ld_i(p + k, 1)) == c:
            return p + k
    return 0
@ext('strcmp')
def _strcmp(a, b):
    k = 0
    while True:
        x = concretize(ld_i(a + k, 1)); y = concretize(ld_i(b + k, 1))
        if x != y:
            return 1 if x > y else 0xffffffff
        if x == 0:
            return 0
        k += 1
@ext('strncmp')
def _strncmp(a, b, n):
    for k in range(concretize(n)):
        x = concretize(ld_i(a + k, 1)); y = concretize(ld_i(b + k, 1))
        if x != y:
            return 1 if x > y else 0xffffffff
        if x == 0:
            return 0
    return 0

@ext('__cxa_allocate_exception')
def _cae(n):
    return new_obj(concretize(n), 1, 'exception')
@ext('__cxa_free_exception')
def _cfe(p):
    return None
@ext('__cxa_throw')
def _cthrow(p, ti, dt):
    e = CxxExc(p, ti, dt)
    exc_by_ptr[p] = e
    raise e
@ext('__cxa_begin_catch')
def _cbc(p):
    catch_stack.append(p)
    return p
@ext('__cxa_get_exception_ptr')
def _cge(p):
    return p
@ext('__cxa_end_catch')
def _cec():
    if catch_stack:
        catch_stack.pop()
@ext('__cxa_rethrow')
def _crt():
    raise exc_by_ptr[catch_stack[-1]]
@ext('__cxa_guard_acquire')
def _cga(p):
    return 0 if concretize(ld_i(p, 1)) else 1
@ext('__cxa_guard_release')
def _cgr(p):
    st_i(p, 1, 1)
@ext('__cxa_guard_abort', '__cxa_atexit', '__cxa_thread_atexit', 'atexit')
def _zero(*a):
    return 0
@ext('_ZSt9terminatev', '__clang_call_terminate', 'abort', '__cxa_pure_virtual', '__cxa_call_terminate')
def _term(*a):
    raise Violation('abort', 'std::terminate/abort called')
@ext('__assert_fail', '_ZSt21__glibcxx_assert_failPKciS0_S0_')
def _assertf(a, *r):
    try:
        m = ' '.join(rd_cstr(x) for x in (a,) + r if x.__class__ is int and x >> 32)
    except Exception:
        m = ''
    raise Violation('assert', 'assertion failed: ' + m)
@ext('llvm.trap', 'llvm.ubsantrap')
def _trap(*a):
    raise Violation('abort', 'trap')

@ext('__dynamic_cast')
def _dyncast(p, src, dst, hint):
    if p == 0:
        return 0
    vt = ld_i(p, 8)
    ti = ld_i(vt - 8, 8)
    return p if ti_name(dst) in ti_bases(ti) else 0

for _n, _m in (('13runtime_error', 'ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE'), ):
    pass

def _std_exc_ctor_str(p, s):
    try:
        d = ld_i(s, 8); n = concretize(ld_i(s + 8, 8))
        msg = bytes(rd_bytes(d, n)).decode('latin1')
    except Exception:
        msg = '?'
    std_exc_init(p, '', msg)
def _std_exc_ctor_c(p, s):
    std_exc_init(p, '', rd_cstr(s))
for _n in ('13runtime_error', '11logic_error', '12length_error', '12out_of_range', '16invalid_argument', '12domain_error', '11range_error', '14overflow_error', '15underflow_error'):
    for _c in ('C1', 'C2'):
        EXT['_ZNSt%s%sERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE' % (_n, _c)] = _std_exc_ctor_str
        EXT['_ZNSt%s%sEPKc' % (_n, _c)] = _std_exc_ctor_c
    for _c in ('D0', 'D1', 'D2'):
        EXT['_ZNSt%s%sEv' % (_n, _c)] = _zero
EXT['_ZNSt9exceptionD2Ev'] = EXT['_ZNSt9exceptionD1Ev'] = EXT['_ZNSt9exceptionD0Ev'] = _zero
EXT['_ZNKSt9exception4whatEv'] = lambda p: mk_cstr('std::exception')
EXT['_ZNKSt13runtime_error4whatEv'] = lambda p: ld_i(p + 8, 8)
EXT['_ZNKSt11logic_error4whatEv'] = lambda p: ld_i(p + 8, 8)

def _thrower(name):
    def f(msg=0, *a):
        throw_std(name, rd_cstr(msg) if msg else name)
    return f
EXT['_ZSt20__throw_length_errorPKc'] = _thrower('12length_error')
EXT['_ZSt20__throw_out_of_rangePKc'] = _thrower('12out_of_range')
EXT['_ZSt24__throw_out_of_range_fmtPKcz'] = _thrower('12out_of_range')
EXT['_ZSt24__throw_invalid_argumentPKc'] = _thrower('16invalid_argument')
EXT['_ZSt19__throw_logic_errorPKc'] = _thrower('11logic_error')
EXT['_ZSt21__throw_runtime_errorPKc'] = _thrower('13runtime_error')
EXT['_ZSt17__throw_bad_allocv'] = _thrower('9bad_alloc')
EXT['_ZSt28__throw_bad_array_new_lengthv'] = _thrower('20bad_array_new_length')
EXT['_ZSt16__throw_bad_castv'] = _thrower('8bad_cast')
EXT['_ZSt20__throw_bad_weak_ptrv'] = _thrower('12bad_weak_ptr')
EXT['_ZSt25__throw_bad_function_callv'] = _thrower('17bad_function_call')

# ---- math
def _fabs(x):
    if x is UNDEF: return x
    return real.fabs(x)
def _sqrt(x):
    if x is UNDEF: return x
    return real.sqrt(x)
EXT['llvm.fabs.f64'] = EXT['fabs'] = _fabs
EXT['llvm.sqrt.f64'] = EXT['sqrt'] = _sqrt
def _minmax(gtmask):
    def f(a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if a.__class__ is float and a != a: return b
        if b.__class__ is float and b != b: return a
        return f_select(f_cmp_olt(a, b), *( (a, b) if not gtmask else (b, a)))
    return f
EXT['llvm.minnum.f64'] = EXT['fmin'] = _minmax(0)
EXT['llvm.maxnum.f64'] = EXT['fmax'] = _minmax(1)
EXT['llvm.fma.f64'] = EXT['fma'] = EXT['llvm.fmuladd.f64'] = lambda a, b, c: f_add(f_mul(a, b), c)
def _copysign(a, b):
    if b.__class__ is float and b != b: return real.fabs(a)
    m = real.fabs(a)
    return m if T(f_cmp_oge(b, Fraction(0))) else neg(m)
EXT['llvm.copysign.f64'] = EXT['copysign'] = _copysign
EXT['llvm.is.fpclass.f64'] = lambda x, m: isfpclass(x, m)
def isfpclass(x, m):
    m = concretize(m)
    if x is UNDEF: return UNDEF
    if x.__class__ is float:
        if x != x: return bool(m & 3)
        return bool(m & (4 if x < 0 else 512))
    # finite: treat as normal/zero
    posn, negn, zero = bool(m & 256), bool(m & 8), bool(m & 96)
    if posn and negn and zero: return True
    if not (posn or negn or zero): return False
    mask = (real.POS if posn else 0) | (real.NEG if negn else 0) | (real.ZER if zero else 0)
    return real.cmpmask(x, Fraction(0), mask)

import trig
for _k, _f in trig.TABLE.items():
    EXT[_k] = _f

for _w in (8, 16, 32, 64):
    _h = {8: s8, 16: s16, 32: s32, 64: s64}[_w]
    EXT['llvm.umax.i%d' % _w] = lambda a, b: a if T_(a >= b) else b
    EXT['llvm.umin.i%d' % _w] = lambda a, b: a if T_(a <= b) else b
    EXT['llvm.smax.i%d' % _w] = lambda a, b, s=_h: a if T_(s(a) >= s(b)) else b
    EXT['llvm.smin.i%d' % _w] = lambda a, b, s=_h: a if T_(s(a) <= s(b)) else b
    def _uadd(a, b, w=_w):
        r = concretize(a) + concretize(b)
        return (r & ((1 << w) - 1), r >> w != 0)
    def _umul(a, b, w=_w):
        r = concretize(a) * concretize(b)
        return (r & ((1 << w) - 1), r >> w != 0)
    def _usub(a, b, w=_w):
        r = concretize(a) - concretize(b)
        return (r & ((1 << w) - 1), r < 0)
    def _sadd(a, b, w=_w, s=_h):
        r = s(concretize(a)) + s(concretize(b))
        return (r & ((1 << w) - 1), not -(1 << (w-1)) <= r < 1 << (w-1))
    def _ssub(a, b, w=_w, s=_h):
        r = s(concretize(a)) - s(concretize(b))
        return (r & ((1 << w) - 1), not -(1 << (w-1)) <= r < 1 << (w-1))
    def _smul(a, b, w=_w, s=_h):
        r = s(concretize(a)) * s(concretize(b))
        return (r & ((1 << w) - 1), not -(1 << (w-1)) <= r < 1 << (w-1))
    EXT['llvm.uadd.with.overflow.i%d' % _w] = _uadd
    EXT['llvm.umul.with.overflow.i%d' % _w] = _umul
    EXT['llvm.usub.with.overflow.i%d' % _w] = _usub
    EXT['llvm.sadd.with.overflow.i%d' % _w] = _sadd
    EXT['llvm.ssub.with.overflow.i%d' % _w] = _ssub
    EXT['llvm.smul.with.overflow.i%d' % _w] = _smul
    def _usubsat(a, b, w=_w):
        return (a - b) & ((1 << w) - 1) if T_(a >= b) else 0
    EXT['llvm.usub.sat.i%d' % _w] = _usubsat
    def _uaddsat(a, b, w=_w):
        return min(concretize(a) + concretize(b), (1 << w) - 1)
    EXT['llvm.uadd.sat.i%d' % _w] = _uaddsat
    def _abs(a, p, w=_w, s=_h):
        return a if T_(s(a) >= 0) else (0 - a) & ((1 << w) - 1)
    EXT['llvm.abs.i%d' % _w] = _abs
    def _ctlz(a, z, w=_w):
        return w - concretize(a).bit_length()
    def _cttz(a, z, w=_w):
        a = concretize(a)
        return (a & -a).bit_length() - 1 if a else w
    def _ctpop(a):
        return bin(concretize(a)).count('1')
    EXT['llvm.ctlz.i%d' % _w] = _ctlz
    EXT['llvm.cttz.i%d' % _w] = _cttz
    EXT['llvm.ctpop.i%d' % _w] = _ctpop
    def _fshl(a, b, c, w=_w):
        a, b, c = concretize(a), concretize(b), concretize(c) % w
        return ((a << c) | (b >> (w - c))) & ((1 << w) - 1) if c else a
    def _fshr(a, b, c, w=_w):
        a, b, c = concretize(a), concretize(b), concretize(c) % w
        return ((b >> c) | (a << (w - c))) & ((1 << w) - 1) if c else b
    EXT['llvm.fshl.i%d' % _w] = _fshl
    EXT['llvm.fshr.i%d' % _w] = _fshr
    def _bswap(a, w=_w):
        return int.from_bytes(concretize(a).to_bytes(w // 8, 'little'), 'big')
    EXT['llvm.bswap.i%d' % _w] = _bswap

EXT['llvm.eh.typeid.for'] = EXT['llvm.eh.typeid.for.p0'] = lambda ti: ti >> 32
EXT['llvm.objectsize.i64.p0'] = lambda *a: M64
EXT['llvm.is.constant.i64'] = EXT['llvm.is.constant.i32'] = EXT['llvm.is.constant.i1'] = EXT['llvm.is.constant.i8'] = lambda a: False
EXT['llvm.expect.i1'] = EXT['llvm.expect.i64'] = lambda a, b: a
EXT['llvm.launder.invariant.group.p0'] = EXT['llvm.strip.invariant.group.p0'] = lambda p: p
EXT['llvm.ptrmask.p0.i64'] = lambda p, m: p & m
EXT['llvm.stacksave'] = EXT['llvm.stacksave.p0'] = lambda: 0
EXT['llvm.stackrestore'] = EXT['llvm.stackrestore.p0'] = lambda p: None
EXT['llvm.vector.reduce.fadd'] = None
del EXT['llvm.vector.reduce.fadd']

_errno = [0]
@ext('__errno_location')
def _el():
    p = state.prog.addr.get('$errno')
    if p is None:
        i = len(state.prog.addr) + 0x100000
        state.prog.addr['$errno'] = p = i << 32
    if p >> 32 not in objs:
        o = Obj(4, 4, 'errno')
        o.cells[0] = (4, 0)
        o.al8 = False
        objs[p >> 32] = o
    return p

environ = {}
@ext('getenv', 'secure_getenv')
def _getenv(p):
    return environ.get(rd_cstr(p), 0)
@ext('setenv')
def _setenv(n, v, o):
    n = rd_cstr(n)
    if n not in environ or o:
        t = rd_cstr(v).encode('latin-1') + b'\0'
        p = EXT['malloc'](len(t))
        for i, c in enumerate(t):
            st_i(p + i, 1, c)
        environ[n] = p
    return 0
@ext('unsetenv')
def _unsetenv(n):
    environ.pop(rd_cstr(n), None)
    return 0

NUMRE = re.compile(r'[ \t\n\v\f\r]*([+-]?(?:(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?|inf(?:inity)?|nan))', re.I)
INTRE = re.compile(r'[ \t\n\v\f\r]*([+-]?\d+)')
tokens_real = {}
tokens_int = {}

@ext('strtod')
def _strtod(p, endp):
    s = rd_cstr(p)
    m = NUMRE.match(s)
    if not m:
        if endp: st_i(endp, 8, p)
        return Fraction(0)
    if endp: st_i(endp, 8, p + m.end())
    t = m.group(1)
    v = tokens_real.get(t.lstrip('+-'))
    if v is not None:
        return neg(v) if t[0] == '-' else v
    x = tokens_int.get(t.lstrip('+-'))
    if x is not None:
        raise Unsupported('integer token read as real')
    f = float(t)
    if f != f or f in (PINF, MINF):
        return f
    return Fraction(f)

@ext('strtol', '__isoc23_strtol', 'strtoll', '__isoc23_strtoll')
def _strtol(p, endp, base=10):
    s = rd_cstr(p)
    m = INTRE.match(s)
    if not m:
        if endp: st_i(endp, 8, p)
        return 0
    if endp: st_i(endp, 8, p + m.end())
    t = m.group(1)
    v = tokens_int.get(t.lstrip('+-'))
    if v is not None:
        e = v if v.w == 64 else SInt(z3.SignExt(64 - v.w, v.e))
        return (0 - e) & M64 if t[0] == '-' else e
    v = int(t)
    lo, hi = -(1 << 63), (1 << 63) - 1
    if v < lo or v > hi:
        st_i(_el(), 4, 34)
        v = max(lo, min(hi, v))
    return v & M64
EXT['strtoul'] = EXT['__isoc23_strtoul'] = EXT['strtoull'] = EXT['__isoc23_strtoull'] = _strtol
EXT['atof'] = lambda p: _strtod(p, 0)
EXT['atoi'] = lambda p: _strtol(p, 0) & 0xffffffff

EXT['printf'] = EXT['puts'] = EXT['putchar'] = EXT['fflush'] = EXT['fprintf'] = EXT['fwrite'] = EXT['fputs'] = lambda *a: 0

# ordered maps: kept as search trees, not balanced (order and contents are what programs see)
def _rb_insert(left, x, p, h):
    if left.__class__ is not int:
        left = T_(left)
    st_i(x + 8, 8, p); st_i(x + 16, 8, 0); st_i(x + 24, 8, 0); st_i(x, 4, 1)
    if left:
        st_i(p + 16, 8, x)
        if p == h:
            st_i(h + 8, 8, x); st_i(h + 24, 8, x)
        elif p == ld_i(h + 16, 8):
            st_i(h + 16, 8, x)
    else:
        st_i(p + 24, 8, x)
        if p == ld_i(h + 24, 8):
            st_i(h + 24, 8, x)
    return 0
EXT['_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_'] = _rb_insert

def _rb_step(p, a, b):
    c = ld_i(p + b, 8)
    if c:
        while ld_i(c + a, 8):
            c = ld_i(c + a, 8)
        return c
    q = ld_i(p + 8, 8)
    while p == ld_i(q + b, 8):
        p, q = q, ld_i(q + 8, 8)
    return q if ld_i(p + b, 8) != q else p

def _rb_next(p):
    return _rb_step(p, 16, 24)

def _rb_prev(p):
    # the header is the one red node
    if ld_i(p, 4) == 0:
        return ld_i(p + 24, 8)
    return _rb_step(p, 24, 16)
for _c in ('PS_', 'PKS_'):
    EXT['_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base' if _c == 'PS_' else '_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base'] = _rb_next
    EXT['_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base' if _c == 'PS_' else '_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base'] = _rb_prev

def _stream_noop(p=0, *a):
    return p

def _empty_string(ret, *a):
    st_i(ret, 8, ret + 16)
    st_i(ret + 8, 8, 0)
    st_i(ret + 16, 1, 0)

# text streams hold nothing: what is written to them is dropped
def _empty_stream(off):
    def f(p, *a):
        b = p + off
        for i in range(1, 7):
            st_i(b + 8*i, 8, 0)
        _empty_string(b + 72)
        return 0
    return f

def ext_by_pattern(n):
    if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
        return lambda d, s, k, *a: memcpy(d, s, k)
    if n.startswith('llvm.memset'):
        return lambda d, b, k, *a: memset(d, b, k)
    if re.match(r'_ZNKSt7__cxx1118?9?basic_o?stringstreamI.*3strEv$', n) or re.match(r'_ZNKR?St7__cxx111\dbasic_o?stringstreamI.*3strEv$', n) or re.match(r'_ZNKSt7__cxx1115basic_stringbufI.*3strEv$', n):
        return _empty_string
    m = re.match(r'_ZNSt7__cxx111\dbasic_(o?)stringstreamI.*C[12]Ev$', n)
    if m:
        return _empty_stream(8 if m.group(1) else 24)
    if re.match(r'_ZNSt7__cxx111[589]basic_(o?stringstream|stringbuf)I.*(C[12]|D[012])', n):
        return _zero
    if n.startswith(('_ZNSo', '_ZStls', '_ZSt16__ostream_insert', '_ZSt4endl', '_ZSt5flush', '_ZNSt9basic_ios', '_ZNSt8ios_base', '_ZNSt6locale', '_ZN5EigenlsINS', '_ZNKSt5ctype', '_ZNSt13basic_ostream')):
        return _stream_noop
    return None
