"""Elementary functions over symbolic reals: angle atoms carry exact (cos, sin) pairs."""
import math
from fractions import Fraction
import real
from real import R, B, ctx, T, NAN, PINF, MINF, add, sub, mul, neg, div, scale, recip, power

F0, F1, F2 = Fraction(0), Fraction(1), Fraction(2)
PI_D = Fraction(math.pi)
PI_LO, PI_HI = PI_D, PI_D + Fraction(1, 10 ** 15)

def pi_multiple(c):
    """rational c recognised as k*pi/2 computed in double -> k, else None"""
    k = c / (PI_D / 2)
    n = round(k)
    if n and abs(k - n) < Fraction(1, 10 ** 14):
        return n
    return None

def lin(a):
    """R -> (const, {atom id: coef}) if linear, else None"""
    c = F0
    d = {}
    for m, v in a.t.items():
        if not m:
            c = Fraction(v)
        elif len(m) == 1 and m[0][1] == 1:
            d[m[0][0]] = Fraction(v)
        else:
            return None
    return c, d

def pair_of(atom):
    """(cos, sin) of an angle atom"""
    x = ctx.atoms[atom]
    p = ctx.intern.get(('pair', atom))
    if p is not None:
        return p
    if x.kind == 'var' and isinstance(x.extra, tuple) and x.extra[0] == 'angle':
        p = (x.extra[1], x.extra[2])
    elif x.kind == 'fun' and x.extra[0] == 'atan2':
        y, xx = x.extra[1]
        h = real.sqrt(add(mul(xx, xx), mul(y, y)))
        if T(real.eq(h, F0)):
            p = (F1, F0)
        else:
            p = (div(xx, h), div(y, h))
    elif x.kind == 'fun' and x.extra[0] == 'acos':
        c = x.extra[1][0]
        p = (c, real.sqrt(sub(F1, mul(c, c))))
    elif x.kind == 'fun' and x.extra[0] == 'asin':
        s = x.extra[1][0]
        p = (real.sqrt(sub(F1, mul(s, s))), s)
    else:
        return None
    ctx.intern[('pair', atom)] = p
    return p

def half_pair(atom):
    p = ctx.intern.get(('hpair', atom))
    if p is not None:
        return p
    c, s = pair_of(atom)
    # the angle lies in (-pi, pi] so cos(half) >= 0
    ch = real.sqrt(scale(add(F1, c), Fraction(1, 2)))
    if T(real.eq(ch, F0)):
        p = (F0, F1)
    else:
        p = (ch, div(s, scale(ch, F2)))
    ctx.intern[('hpair', atom)] = p
    return p

def addp(p, q):
    return (sub(mul(p[0], q[0]), mul(p[1], q[1])), add(mul(p[1], q[0]), mul(p[0], q[1])))

def multp(p, n):
    if n < 0:
        p = (p[0], neg(p[1]))
        n = -n
    r = (F1, F0)
    for _ in range(n):
        r = addp(r, p)
    return r

QUAD = [(F1, F0), (F0, F1), (-F1, F0), (F0, -F1)]

def const_pair(c):
    if c == 0:
        return (F1, F0)
    k = pi_multiple(c)
    if k is not None:
        return QUAD[k % 4]
    key = ('cospair', c)
    p = ctx.intern.get(key)
    if p is None:
        f = float(c)
        v = Fraction(math.cos(f))
        e = Fraction(1, 10 ** 14)
        a = real.fun_atom('cosc', (c,), lo=v - e, hi=v + e)
        s = real.sqrt(sub(F1, mul(a, a)))
        if math.sin(f) < 0:
            s = neg(s)
        p = ctx.intern[key] = (a, s)
    return p

def cs(a):
    """(cos, sin) of an angle expression"""
    if a.__class__ is float:
        return (NAN, NAN)
    if a.__class__ is Fraction:
        return const_pair(a)
    l = lin(a)
    if l is not None:
        c, d = l
        r = const_pair(c)
        ok = True
        for at, q in sorted(d.items()):
            if pair_of(at) is None:
                ok = False
                break
            if q.denominator == 1 and abs(q) <= 4:
                r = addp(r, multp(pair_of(at), int(q)))
            elif q.denominator == 2 and abs(q) <= 4:
                r = addp(r, multp(half_pair(at), int(q * 2)))
            else:
                ok = False
                break
        if ok:
            return r
    key = ('cospair', a.key())
    p = ctx.intern.get(key)
    if p is None:
        c = real.fun_atom('cos', (a,), lo=-F1, hi=F1)
        s = real.fun_atom('sin', (a,), lo=-F1, hi=F1)
        # unit relation  s^2 = 1 - c^2
        at = ctx.atoms[max(s.t)[0][0]]
        at_c = ctx.atoms[max(c.t)[0][0]]
        p = ctx.intern[key] = (c, s)
    return p

def cos(a):
    return cs(a)[0]
def sin(a):
    return cs(a)[1]
def tan(a):
    c, s = cs(a)
    return div(s, c)

def norm_dir(y, x):
    """scale (y, x) by a positive common factor"""
    ts = [t for t in (y, x) if t.__class__ is R]
    if not ts:
        m = max(abs(y), abs(x))
        return y / m, x / m
    lead = ts[0].t[max(ts[0].t)]
    k = Fraction(1) / abs(lead)
    y, x = scale(y, k), scale(x, k)
    # common positive atoms
    ats = None
    for t in (y, x):
        if t.__class__ is Fraction:
            if t != 0:
                ats = {}
                # constants have exponent 0 everywhere
            continue
    exps = None
    for t in (y, x):
        if t.__class__ is Fraction:
            if t == 0:
                continue
            ms = [()]
        else:
            ms = list(t.t)
        for m in ms:
            d = dict(m)
            if exps is None:
                exps = dict(d)
            else:
                for a in list(exps):
                    exps[a] = min(exps[a], d.get(a, 0))
                for a, e in d.items():
                    if e < 0 and a not in exps:
                        exps[a] = e
    g = tuple(sorted((a, -e) for a, e in (exps or {}).items() if e and real.atom_positive(a)))
    if g:
        gm = R({g: 1})
        y, x = mul(y, gm), mul(x, gm)
    return y, x

def atan2(y, x):
    if y.__class__ is float or x.__class__ is float:
        if (y.__class__ is float and y != y) or (x.__class__ is float and x != x):
            return NAN
        fy = y if y.__class__ is float else float(real.sign(y))
        fx = x if x.__class__ is float else float(real.sign(x))
        return Fraction(math.atan2(fy, fx))
    if y.__class__ is Fraction and y == 0:
        if x.__class__ is Fraction:
            return F0 if x >= 0 else PI_D
        if T(real.ge(x, F0)):
            return F0
        return PI_D
    if y.__class__ is R and real.is_zero_cheap(y):
        y = F0
        return atan2(y, x)
    if x.__class__ is Fraction and x == 0:
        s = real.sign(y)
        return PI_D / 2 * s
    y, x = norm_dir(y, x)
    k = ctx.intern.get(('katan2', y.key() if y.__class__ is R else y, x.key() if x.__class__ is R else x))
    if k is not None:
        return k
    # odd in y away from the cut
    if y.__class__ is R and y.t[max(y.t)] < 0 and (x > 0 if x.__class__ is Fraction else real.struct_sign(x) == real.POS):
        return neg(atan2(neg(y), x))
    if x.__class__ is Fraction and y.__class__ is Fraction:
        if x == y: return PI_D / 4
        if x == -y: return PI_D / 4 if False else (PI_D * 3 / 4 if y > 0 else -PI_D / 4)
    lo, hi = -PI_HI, PI_HI
    if x.__class__ is Fraction and x > 0:
        lo, hi = -PI_HI / 2, PI_HI / 2
    if y.__class__ is Fraction and x.__class__ is Fraction:
        v = Fraction(math.atan2(float(y), float(x)))
        lo, hi = v - Fraction(1, 10 ** 14), v + Fraction(1, 10 ** 14)
    return real.fun_atom('atan2', (y, x), lo=lo, hi=hi)

def atan(x):
    if x.__class__ is float:
        return NAN if x != x else (PI_D / 2 if x > 0 else -PI_D / 2)
    if x.__class__ is Fraction:
        if x == 0:
            return F0
    return atan2(x, F1)

def acos(x):
    if x.__class__ is float:
        return NAN
    if x.__class__ is Fraction:
        if x > 1 or x < -1: return NAN
        if x == 1: return F0
        if x == -1: return PI_D
        if x == 0: return PI_D / 2
    else:
        if T(real.gt(x, F1)) or T(real.lt(x, -F1)):
            return NAN
    return real.fun_atom('acos', (x,), lo=F0, hi=PI_HI)

def asin(x):
    if x.__class__ is float:
        return NAN
    if x.__class__ is Fraction:
        if x > 1 or x < -1: return NAN
        if x == 1: return PI_D / 2
        if x == -1: return -PI_D / 2
        if x == 0: return F0
    else:
        if T(real.gt(x, F1)) or T(real.lt(x, -F1)):
            return NAN
    return real.fun_atom('asin', (x,), lo=-PI_HI / 2, hi=PI_HI / 2)

def hypot(a, b):
    if a.__class__ is float or b.__class__ is float:
        return NAN if (a != a or b != b) else PINF
    return real.sqrt(add(mul(a, a), mul(b, b)))

def pow_(x, y):
    if x.__class__ is float or y.__class__ is float:
        if y.__class__ is Fraction and y == 0: return F1
        if x.__class__ is Fraction and x == 1: return F1
        if (x.__class__ is float and x != x) or (y.__class__ is float and y != y): return NAN
        try:
            r = math.pow(float(x) if x.__class__ is not R else float(real.sign(x)) * 2, float(y))
            return r if r != r or abs(r) == PINF else Fraction(r)
        except Exception:
            return NAN
    if y.__class__ is Fraction:
        if y == 0: return F1
        if y.denominator == 1 and abs(y) <= 8:
            if y > 0:
                return power(x, int(y))
            return div(F1, power(x, int(-y)))
        if y.denominator in (2, 4, 8) and abs(y) <= 8:
            n = int(math.floor(y))
            f = y - n
            # x^n * x^(f)
            if x.__class__ is R and T(real.lt(x, F0)) or x.__class__ is Fraction and x < 0:
                return NAN
            r = F1
            root = x
            while f:
                root = real.sqrt(root)
                f *= 2
                if f >= 1:
                    r = mul(r, root)
                    f -= 1
            if n == 0:
                return r
            if n < 0 and T(real.eq(x, F0)):
                return PINF if y < 0 else F0
            return mul(r, power(x, n)) if n > 0 else mul(r, recip(power(x, -n)))
    if x.__class__ is Fraction:
        if x == 1: return F1
        if x < 0: return NAN
        z = x == 0
    else:
        if T(real.lt(x, F0)):
            return NAN
        z = T(real.eq(x, F0))
    if z:
        s = real.sign(y)
        return F0 if s > 0 else PINF if s < 0 else F1
    # split the integer part of the exponent
    if y.__class__ is R:
        c = Fraction(y.t.get((), 0))
        k = math.floor(c)
        e = sub(y, Fraction(k))
    else:
        k = math.floor(y)
        e = y - k
    r = real.fun_atom('pow', (x, e), lo=F0)
    if k > 0:
        r = mul(r, power(x, k))
    elif k < 0:
        r = mul(r, recip(power(x, -k)))
    return r

def und(f):
    def g(*a):
        for x in a:
            if x.__class__ not in (Fraction, R, float):
                import rt
                if x is rt.UNDEF:
                    return x
                raise rt.Unsupported('math operand')
        return f(*a)
    return g

def intfun(fl):
    def f(x):
        if x.__class__ is float: return x
        if x.__class__ is Fraction: return Fraction(fl(x))
        import rt
        raise rt.Unsupported('symbolic rounding')
    return f

def exp(x):
    if x.__class__ is Fraction and x == 0: return F1
    if x.__class__ is float: return NAN if x != x else PINF if x > 0 else F0
    return real.fun_atom('exp', (x,), lo=F0)
def log(x):
    if x.__class__ is Fraction and x == 1: return F0
    if x.__class__ is float: return x
    return real.fun_atom('log', (x,))

TABLE = {}
for n, f in (('sin', sin), ('cos', cos), ('tan', tan), ('atan', atan), ('atan2', atan2), ('acos', acos), ('asin', asin),
             ('pow', pow_), ('hypot', hypot), ('exp', exp), ('log', log),
             ('floor', intfun(math.floor)), ('ceil', intfun(math.ceil)), ('round', intfun(lambda x: math.floor(abs(x) + Fraction(1, 2)) * (1 if x >= 0 else -1))),
             ('trunc', intfun(int)), ('rint', intfun(round)), ('nearbyint', intfun(round))):
    TABLE[n] = und(f)
    TABLE['llvm.%s.f64' % n] = und(f)
def sincos(x, ps, pc):
    import rt
    c, s = cs(x)
    rt.st_f(ps, 8, s); rt.st_f(pc, 8, c)
TABLE['sincos'] = sincos
def powi(x, n):
    import rt
    n = rt.s32(rt.concretize(n))
    return pow_(x, Fraction(n))
TABLE['llvm.powi.f64.i32'] = und(lambda x, n: x) if False else powi
