"""Symbolic reals: canonical Laurent polynomials with rational coefficients over atoms.

An atom is an input variable, or is defined from earlier terms:
  var   input with bounds                     sqrt  s>=0, s^2 = radicand
  den   d = polynomial (a denominator, != 0)  let   v = polynomial (size cut)
  ite   v = cond ? a : b                      fun   uninterpreted-with-axioms (atan2, acos, pow..)
Reductions applied on construction make the form canonical modulo: s^2 = radicand for sqrt atoms and
u_k^2 = 1 - u_1^2 - .. for unit vectors (inputs that lie on the unit sphere).
"""
from fractions import Fraction
import math
import numpy as np

NAN = float('nan')
PINF = float('inf')
MINF = float('-inf')
MAXTERMS = 40000

class TooBig(Exception):
    pass

NEG, ZER, POS = 1, 2, 4

class Atom:
    __slots__ = ('id', 'kind', 'name', 'lo', 'hi', 'poly', 'extra', 'deps', 'group')
    def __repr__(self):
        return self.name

class Ctx:
    """per-path symbolic state"""
    def __init__(self):
        self.reset()

    def reset(self):
        self.atoms = []
        self.intern = {}
        self.known = {}        # canonical poly key -> sign mask
        self.bnd = {}          # key of a canonical poly without its constant -> [lo, lo strict, hi, hi strict]
        self.pc = []           # list of B (path condition incl. assumptions)
        self.vars = []         # var atoms in creation order
        self.groups = []       # unit groups: list of lists of atom ids
        self.samples = {}      # var id -> np.array
        self.ns = 0
        self.mask = None
        self.vals = {}         # atom id -> np array
        self.ite_mode = True
        self.cut = MAXTERMS
        self.cval = {}
        self.products = {}     # key of an expanded product -> its factors
        self.decide = None     # callback

ctx = Ctx()

def new_atom(kind, name, lo=None, hi=None, poly=None, extra=None):
    a = Atom()
    a.id = len(ctx.atoms)
    a.kind = kind
    a.name = name
    a.lo = lo
    a.hi = hi
    a.poly = poly
    a.extra = extra
    a.group = None
    ctx.atoms.append(a)
    return a

def norm_c(c):
    if c.__class__ is Fraction and c.denominator == 1:
        return c.numerator
    return c

class R:
    __slots__ = ('t', '_k')
    def __init__(self, t):
        self.t = t
        self._k = None

    def key(self):
        k = self._k
        if k is None:
            k = self._k = frozenset(self.t.items())
        return k

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return hash(self.key())

    # python-level arithmetic used by the engine itself (never by translated code)
    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return sub(self, o)
    def __rsub__(self, o): return sub(o, self)
    def __mul__(self, o): return mul(self, o)
    def __rmul__(self, o): return mul(o, self)
    def __neg__(self): return neg(self)

def show_m(m):
    return '*'.join(ctx.atoms[a].name + ('' if e == 1 else '^%d' % e) for a, e in m) or '1'

def show(r, lim=12):
    if not isinstance(r, R):
        return str(r)
    items = sorted(r.t.items(), key=lambda kv: kv[0])
    s = ' + '.join('%s*%s' % (c, show_m(m)) if m else str(c) for m, c in items[:lim])
    if len(items) > lim:
        s += ' + ...(%d terms)' % len(items)
    return s

def mk(t):
    """wrap a term dict: constant -> Fraction"""
    if not t:
        return Fraction(0)
    if len(t) == 1 and () in t:
        return Fraction(t[()])
    return R(t)

def terms(x):
    if x.__class__ is R:
        return x.t
    return {(): norm_c(Fraction(x))} if x != 0 else {}

def isnum(x):
    return x.__class__ is Fraction

def var(name, lo, hi):
    a = new_atom('var', name, lo, hi)
    ctx.vars.append(a)
    return R({((a.id, 1),): 1})

def atom_r(a):
    return R({((a.id, 1),): 1})

# ---- polynomial arithmetic ------------------------------------------------------------------
def add(a, b):
    if a.__class__ is Fraction and b.__class__ is Fraction:
        return a + b
    if a.__class__ is float or b.__class__ is float:
        return spec_add(a, b)
    ta, tb = terms(a), terms(b)
    if len(ta) < len(tb):
        ta, tb = tb, ta
    r = dict(ta)
    for m, c in tb.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v == 0:
                del r[m]
            else:
                r[m] = norm_c(v)
    if 1 < len(r) <= 60:
        at = ctx.atoms
        for m in tb:
            for x, e in m:
                if e < 0 and at[x].kind == 'den':
                    return mk(cancel(r))
    return mk(r)

def neg(a):
    if a.__class__ is Fraction or a.__class__ is float:
        return -a
    return R({m: -c for m, c in a.t.items()})

def sub(a, b):
    return add(a, neg(b))

def scale(a, c):
    if c == 0:
        return Fraction(0)
    if a.__class__ is Fraction:
        return a * c
    c = norm_c(c)
    return R({m: norm_c(v * c) for m, v in a.t.items()})

def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    r = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, e = m1[i]
        b, f = m2[j]
        if a == b:
            if e + f:
                r.append((a, e + f))
            i += 1; j += 1
        elif a < b:
            r.append(m1[i]); i += 1
        else:
            r.append(m2[j]); j += 1
    r.extend(m1[i:])
    r.extend(m2[j:])
    return tuple(r)

def needs_reduce(m):
    at = ctx.atoms
    for a, e in m:
        x = at[a]
        if x.kind == 'sqrt':
            if e != 1:
                return a, e
        elif x.kind == 'den':
            if e > 0:
                return a, e
        elif x.kind == 'ite':
            if e >= 2 and x.poly is not None:
                return a, e
        elif x.group is not None and e >= 2 and x.extra == 'last':
            return a, e
    return None

def reduce_terms(t):
    """apply rewriting rules until no monomial is reducible"""
    out = {}
    work = list(t.items())
    while work:
        m, c = work.pop()
        if c == 0:
            continue
        nr = needs_reduce(m)
        if nr is None:
            v = out.get(m)
            if v is None:
                out[m] = c
            else:
                v = v + c
                if v == 0:
                    del out[m]
                else:
                    out[m] = norm_c(v)
            continue
        a, e = nr
        x = ctx.atoms[a]
        rest = tuple(p for p in m if p[0] != a)
        if x.kind == 'sqrt':
            k, rem = e // 2, e % 2      # floor -> rem in {0,1}
            if rem:
                rest = mono_mul(rest, ((a, 1),))
            if k > 0:
                rp = terms(power(x.poly, k))
            else:
                rp = terms(power(recip(x.poly), -k))
        elif x.kind == 'den':
            rp = terms(power(x.poly, e))
        elif x.kind == 'ite':               # branches are opposite: x.poly is their common square
            k, rem = e // 2, e % 2
            if rem:
                rest = mono_mul(rest, ((a, 1),))
            rp = terms(power(x.poly, k))
        else:
            rep = ctx.groups[x.group][1]     # terms of 1 - sum others^2
            k, rem = e // 2, e % 2
            if rem:
                rest = mono_mul(rest, ((a, 1),))
            rp = terms(power(rep, k))
        for m2, c2 in rp.items():
            work.append((mono_mul(rest, m2), c * c2))
        if len(out) + len(work) > 20 * MAXTERMS:
            raise TooBig()
    return out

def mul(a, b):
    if a.__class__ is Fraction:
        if b.__class__ is Fraction:
            return a * b
        if b.__class__ is R:
            return scale(b, a)
    elif b.__class__ is Fraction and a.__class__ is R:
        return scale(a, b)
    if a.__class__ is float or b.__class__ is float:
        return spec_mul(a, b)
    ta, tb = a.t, b.t
    lim = ctx.cut
    if len(ta) * len(tb) > lim:
        # size cut: name the larger factor
        if len(ta) >= len(tb):
            a = let_atom(a); ta = a.t
        else:
            b = let_atom(b); tb = b.t
        if len(ta) * len(tb) > lim:
            a = let_atom(a); b = let_atom(b)
            ta, tb = a.t, b.t
    r = mk(_mul_terms(ta, tb))
    if len(ta) > 1 and len(tb) > 1 and r.__class__ is R and len(r.t) >= 10:
        ctx.products[r.key()] = (a, b)
    return r

def mul_full(a, b):
    """multiplication without size cuts (used for zero tests)"""
    if a.__class__ is R and b.__class__ is R:
        if len(a.t) * len(b.t) > 40 * MAXTERMS:
            raise TooBig()
        return mk(_mul_terms(a.t, b.t))
    return mul(a, b)

def _mul_terms(ta, tb):
    r = {}
    red = False
    if len(ta) < len(tb):
        ta, tb = tb, ta
    for m2, c2 in tb.items():
        for m1, c1 in ta.items():
            m = mono_mul(m1, m2)
            v = r.get(m)
            if v is None:
                r[m] = c1 * c2
            else:
                r[m] = v + c1 * c2
    for m in r:
        if needs_reduce(m) is not None:
            red = True
            break
    if red:
        r = reduce_terms(r)
    else:
        r = {m: norm_c(c) for m, c in r.items() if c != 0}
    if len(r) > 1 and any(e < 0 for m in r for _, e in m):
        r = cancel(r)
    return r

def power(a, k):
    if k == 0:
        return Fraction(1)
    r = a
    for _ in range(k - 1):
        r = mul(r, a)
    return r

def let_atom(r):
    key = ('let', r.key())
    a = ctx.intern.get(key)
    if a is None:
        a = new_atom('let', 'v%d' % len(ctx.atoms), poly=r)
        ctx.intern[key] = a
    return atom_r(a)

# ---- denominators ---------------------------------------------------------------------------
def content(t):
    """(leading coeff, gcd monomial) of a term dict"""
    ms = list(t)
    g = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for a in list(g):
            e = d.get(a, 0)
            f = g[a]
            # keep the minimum exponent (for negative: the most negative)
            if (e < f):
                if e == 0 and f > 0:
                    del g[a]
                else:
                    g[a] = e
        for a, e in d.items():
            if e < 0 and a not in g:
                g[a] = e
    gm = tuple(sorted((a, e) for a, e in g.items() if e))
    # missing atoms in some monomials with negative exponents handled: min(0,e)
    lead = max(ms)
    return t[lead], gm

def mono_inv(m):
    return tuple((a, -e) for a, e in m)

def recip(b):
    """1/b for b known non-zero"""
    if b.__class__ is Fraction:
        return 1 / b
    t = b.t
    if len(t) == 1:
        (m, c), = t.items()
        return mk(reduce_terms({mono_inv(m): norm_c(Fraction(1) / c)}))
    c, gm = content(t)
    ci = Fraction(1) / c
    gi = mono_inv(gm)
    bt = {mono_mul(m, gi): norm_c(v * ci) for m, v in t.items()}
    bt = reduce_terms(bt)
    if len(bt) == 1:
        (m, c2), = bt.items()
        return mk(reduce_terms({mono_mul(mono_inv(m), gi): norm_c(ci / c2)}))
    bp = R(bt)
    key = ('den', bp.key())
    a = ctx.intern.get(key)
    if a is None:
        a = new_atom('den', 'd%d' % len(ctx.atoms), poly=bp)
        ctx.intern[key] = a
        for p, aid, cc in _den_list():
            pass
    return mk(reduce_terms({mono_mul(((a.id, -1),), gi): norm_c(ci)}))

def _den_list():
    return ()

def cancel(t):
    """cancel a den atom when the terms carrying D^-k form an exact multiple of D's polynomial"""
    dens = {}
    for m in t:
        for a, e in m:
            if e < 0 and ctx.atoms[a].kind == 'den':
                d = dens.get(a)
                dens[a] = min(d, e) if d is not None else e
    for a, emin in sorted(dens.items(), reverse=True):
        x = ctx.atoms[a]
        grp = {}
        for m, c in t.items():
            for b, e in m:
                if b == a and e == emin:
                    grp[tuple(p for p in m if p[0] != a)] = c
                    break
        if not grp or len(grp) < len(x.poly.t) or len(grp) > 600:
            continue
        q = exact_div(grp, x.poly.t)
        if q is None:
            continue
        r = {m: c for m, c in t.items() if (a, emin) not in m}
        base = ((a, emin + 1),) if emin + 1 else ()
        for m, c in q.items():
            mm = mono_mul(m, base)
            v = r.get(mm, 0) + c
            if v == 0:
                r.pop(mm, None)
            else:
                r[mm] = norm_c(v)
        return cancel(r) if len(r) > 1 else r
    return t

def mono_key(m, order):
    return m

def exact_div(n, d):
    """exact division of term dicts (as Laurent polynomials), or None"""
    # order: lexicographic on dense exponent vectors
    ats = sorted({a for m in n for a, _ in m} | {a for m in d for a, _ in m})
    idx = {a: i for i, a in enumerate(ats)}
    def vec(m):
        v = [0] * len(ats)
        for a, e in m:
            v[idx[a]] = e
        return tuple(v)
    nd = {vec(m): c for m, c in n.items()}
    dd = {vec(m): c for m, c in d.items()}
    ld = max(dd)
    lc = dd[ld]
    q = {}
    steps = 0
    while nd:
        ln = max(nd)
        e = tuple(x - y for x, y in zip(ln, ld))
        c = Fraction(nd[ln]) / lc
        # polynomials in positive parts: refuse if the quotient exponent is far below all n
        q[e] = c
        for m, cc in dd.items():
            mm = tuple(x + y for x, y in zip(m, e))
            v = nd.get(mm, 0) - c * cc
            if v == 0:
                nd.pop(mm, None)
            else:
                nd[mm] = v
        steps += 1
        if steps > len(n) + 5 or len(nd) > 2 * len(n) + 20:
            return None
    res = {}
    for e, c in q.items():
        m = tuple((ats[i], x) for i, x in enumerate(e) if x)
        if needs_reduce(m):
            return None
        res[m] = norm_c(c)
    return res

def clear_den(r, keep_sign=True):
    """multiply by (even powers of) atoms with negative exponents -> polynomial with the same sign,
    expanding den atoms.  Atoms known positive may be multiplied an odd number of times."""
    if r.__class__ is not R:
        return r
    while True:
        mins = {}
        for m in r.t:
            for a, e in m:
                if e < 0:
                    mins[a] = min(mins.get(a, 0), e)
        if not mins:
            return r
        f = {}
        # latest den first
        a = max(mins)
        e = -mins[a]
        if keep_sign and e % 2 and not atom_positive(a):
            e += 1
        x = ctx.atoms[a]
        # multiply term by term:  c*m*a^(-j) * a^e  with a expanded when it is a den
        out = {}
        byexp = {}
        for m, c in r.t.items():
            j = 0
            for b, ee in m:
                if b == a:
                    j = ee
            rest = tuple(p for p in m if p[0] != a)
            byexp.setdefault(j + e, {})[rest] = c
        tot = Fraction(0)
        for k, t in byexp.items():
            term = mk(t)
            for _ in range(k):
                if x.kind == 'den':
                    term = mul_full(term, x.poly)
                else:
                    term = mul_full(term, atom_r(x))
            tot = add(tot, term)
        r = tot
        if r.__class__ is not R:
            return r

def atom_positive(a):
    x = ctx.atoms[a]
    if x.lo is not None and x.lo > 0:
        return True
    k = ctx.known.get(frozenset({((a, 1),): 1}.items()))
    if k is not None and k == POS:
        return True
    if x.kind == 'den' or x.kind == 'sqrt':
        p = x.poly
        if x.extra == 'nz':
            return True
        if known_mask(p) == POS:
            return True
        if any(e < 0 for m in p.t for _, e in m):
            p = clear_den(p)
            return known_mask(p) == POS
    return False

# ---- special values -------------------------------------------------------------------------
def spec_add(a, b):
    if a.__class__ is float and b.__class__ is float:
        return a + b
    return a if a.__class__ is float else b

def spec_mul(a, b):
    if a.__class__ is float and b.__class__ is float:
        return a * b
    if b.__class__ is float:
        a, b = b, a
    if a != a:
        return a
    s = sign(b)
    if s == 0:
        return NAN
    return a * s

def f_sum(xs):
    r = Fraction(0)
    for x in xs:
        r = add(r, x)
    return r

# ---- intervals ------------------------------------------------------------------------------
def atom_interval(a, depth=0):
    x = ctx.atoms[a]
    lo = x.lo if x.lo is not None else None
    hi = x.hi if x.hi is not None else None
    lo = float(lo) if lo is not None else MINF
    hi = float(hi) if hi is not None else PINF
    if x.kind == 'sqrt':
        lo = max(lo, 0.0)
        if depth < 3:
            l, h = poly_interval(x.poly, depth + 1)
            if h >= 0 and h < PINF:
                hi = min(hi, math.sqrt(h) * (1 + 1e-12))
            if l > 0:
                lo = max(lo, math.sqrt(l) * (1 - 1e-12))
    elif x.kind in ('den', 'let') and depth < 3:
        l, h = poly_interval(x.poly, depth + 1)
        lo = max(lo, l); hi = min(hi, h)
    km = ctx.known.get(frozenset({((a, 1),): 1}.items()))
    if km is not None:
        if not km & NEG:
            lo = max(lo, 0.0)
        if not km & POS:
            hi = min(hi, 0.0)
    return lo, hi

def ipow(lo, hi, e):
    if e < 0:
        if lo > 0 or hi < 0:
            lo, hi = 1 / hi if hi else MINF, 1 / lo if lo else PINF
            lo, hi = min(lo, hi), max(lo, hi)
        elif lo == 0:
            lo, hi = (1 / hi if hi > 0 else PINF), PINF
        else:
            if e % 2 == 0:
                return 0.0, PINF
            return MINF, PINF
        e = -e
    if e == 1:
        return lo, hi
    if e % 2 == 0:
        m = max(abs(lo), abs(hi))
        l = 0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi))
        try:
            return l ** e, m ** e
        except OverflowError:
            return l ** e if l < 1e100 else 0.0, PINF
    try:
        return lo ** e, hi ** e
    except OverflowError:
        return MINF, PINF

def imul(a, b):
    ps = []
    for x in a:
        for y in b:
            ps.append(0.0 if x == 0 or y == 0 else x * y)
    return min(ps), max(ps)

def fdown(q):
    f = float(q)
    return f if Fraction(f) <= q else math.nextafter(f, -math.inf)

def fup(q):
    f = float(q)
    return f if Fraction(f) >= q else math.nextafter(f, math.inf)

def poly_interval(p, depth=0):
    if p.__class__ is Fraction:
        return float(p), float(p)
    lo = hi = mag = 0.0
    cache = {}
    for m, c in p.t.items():
        iv = (1.0, 1.0)
        for a, e in m:
            ai = cache.get(a)
            if ai is None:
                ai = atom_interval(a, depth)
                b = ctx.bnd.get(frozenset({((a, 1),): 1}.items())) if ctx.bnd else None
                if b is not None:
                    ai = (ai[0] if b[0] is None else max(ai[0], fdown(b[0])), ai[1] if b[2] is None else min(ai[1], fup(b[2])))
                cache[a] = ai
            iv = imul(iv, ipow(ai[0], ai[1], e))
        iv = imul(iv, (float(c), float(c)))
        lo += iv[0]
        hi += iv[1]
        x = max(abs(iv[0]), abs(iv[1]))
        if x < PINF:
            mag += x
    # outward rounding slack
    if len(p.t) == 1:
        return lo, hi
    s = 1e-13 * mag
    return lo - s, hi + s

def sign_interval(p):
    return poly_interval(p)

# ---- canonical comparison atoms -------------------------------------------------------------
def canon_sign(p):
    """p (R) -> (canonical R, flipped?)"""
    m = max(p.t)
    c = p.t[m]
    if c == 1:
        return p, False
    if c == -1:
        return neg(p), True
    f = c < 0
    return scale(p, Fraction(1) / c), f

def flip(mask):
    return (mask & ZER) | (POS if mask & NEG else 0) | (NEG if mask & POS else 0)

def atom_sign(a):
    """mask of possible signs of an atom (exact knowledge only)"""
    x = ctx.atoms[a]
    k = ctx.known.get(frozenset({((a, 1),): 1}.items()), 7)
    if x.kind == 'sqrt':
        k &= POS | ZER
        if x.extra == 'nz':
            k &= POS
    if x.kind == 'den':
        k &= POS | NEG
        k &= ctx.known.get(canon_key(x.poly, False), 7) if x.poly.t[max(x.poly.t)] == 1 else 7
    if x.lo is not None:
        k &= POS if x.lo > 0 else POS | ZER if x.lo == 0 else 7
    if x.hi is not None:
        k &= NEG if x.hi < 0 else NEG | ZER if x.hi == 0 else 7
    return k

def canon_key(p, f):
    return p.key()

def term_mask(m, c):
    s = POS if c > 0 else NEG
    for a, e in m:
        k = atom_sign(a)
        if e % 2 == 0:
            k = POS if not k & ZER or e < 0 else POS | ZER
        r = 0
        for x in (NEG, ZER, POS):
            if s & x:
                for y in (NEG, ZER, POS):
                    if k & y:
                        r |= ZER if x == ZER or y == ZER else POS if x == y else NEG
        s = r
        if s == 7:
            return 7
    return s

def struct_sign(q):
    """sign mask of a sum whose terms all have the same sign, or of c*(1 - sum of squares of a unit vector's components)"""
    t = q.t
    c0 = t.get(())
    if c0 is not None and len(t) <= 4:
        g = None
        ok = True
        for m, c in t.items():
            if not m:
                continue
            if c != -c0 or len(m) != 1 or m[0][1] != 2:
                ok = False
                break
            x = ctx.atoms[m[0][0]]
            if x.group is None or (g is not None and x.group != g):
                ok = False
                break
            g = x.group
        if ok and g is not None:
            return (POS if c0 > 0 else NEG) | ZER
    if len(t) > 40:
        return 7
    u = 0
    strict = False
    for m, c in t.items():
        k = term_mask(m, c)
        u |= k
        if u & POS and u & NEG:
            return 7
        if not k & ZER:
            strict = True
    return u & ~ZER if strict else u | ZER

def nonconst_key(q):
    if () in q.t:
        return frozenset((m, c) for m, c in q.t.items() if m)
    return q.key()

def note_bound(q, mask):
    """record sign(q) in mask as a bound on q minus its constant; q canonical"""
    if mask not in (NEG, ZER, POS, NEG | ZER, POS | ZER):
        return
    c = -Fraction(q.t.get((), 0))
    k = nonconst_key(q)
    b = ctx.bnd.get(k)
    if b is None:
        b = ctx.bnd[k] = [None, False, None, False]
    if not mask & NEG:
        st = not mask & ZER
        if b[0] is None or c > b[0] or (c == b[0] and st):
            b[0], b[1] = c, st
    if not mask & POS:
        st = not mask & ZER
        if b[2] is None or c < b[2] or (c == b[2] and st):
            b[2], b[3] = c, st

def bound_mask(q):
    b = ctx.bnd.get(nonconst_key(q))
    if b is None:
        return 7
    c = Fraction(q.t.get((), 0))
    k = 7
    if b[0] is not None:
        v = b[0] + c
        if v > 0 or (v == 0 and b[1]):
            k &= POS
        elif v == 0:
            k &= POS | ZER
    if b[2] is not None:
        v = b[2] + c
        if v < 0 or (v == 0 and b[3]):
            k &= NEG
        elif v == 0:
            k &= NEG | ZER
    return k

# ---- constants (expressions without inputs): 60 digits ------------------------------------------
import mpmath
_MP = mpmath.mp.clone()
_MP.dps = 60
MPFUN = {'atan2': _MP.atan2, 'atan': _MP.atan, 'acos': _MP.acos, 'asin': _MP.asin, 'sin': _MP.sin, 'cos': _MP.cos, 'cosc': _MP.cos, 'tan': _MP.tan,
    'exp': _MP.exp, 'log': _MP.log, 'pow': _MP.power, 'floor': _MP.floor, 'ceil': _MP.ceil}

def const_atom(a):
    v = ctx.cval.get(a, 0)
    if v != 0 or a in ctx.cval:
        return v
    x = ctx.atoms[a]
    v = None
    try:
        if x.kind in ('den', 'let', 'sqrt'):
            v = const_val(x.poly)
            if v is not None:
                v = None if v[1] and x.kind != 'let' else v[0]
                if x.kind == 'sqrt' and v is not None:
                    v = _MP.sqrt(v) if v > 0 else None
        elif x.kind == 'fun' and x.extra[0] in MPFUN:
            args = [const_val(y) for y in x.extra[1]]
            if all(y is not None and not y[1] for y in args) and x.extra[0] not in ('floor', 'ceil'):
                v = MPFUN[x.extra[0]](*[y[0] for y in args])
                if not isinstance(v, _MP.mpf):
                    v = None
    except Exception:
        v = None
    ctx.cval[a] = v
    return v

def const_val(p):
    """(value, too close to zero to tell) of a constant expression, else None"""
    if p.__class__ is Fraction or p.__class__ is int:
        return _MP.mpf(p.numerator) / p.denominator, False
    if p.__class__ is not R:
        return None
    tot, mag = _MP.mpf(0), _MP.mpf(0)
    for m, c in p.t.items():
        t = _MP.mpf(Fraction(c).numerator) / Fraction(c).denominator
        for a, e in m:
            v = const_atom(a)
            if v is None:
                return None
            t *= v ** e
        tot += t
        mag += abs(t)
    return tot, not abs(tot) > mag * _MP.mpf(10) ** -40

def const_mask(p):
    v = const_val(p)
    if v is None or v[1]:
        return 7
    return POS if v[0] > 0 else NEG

def known_mask(p):
    if p.__class__ is Fraction:
        return POS if p > 0 else NEG if p < 0 else ZER
    cm = const_mask(p)
    if cm != 7:
        return cm
    q, f = canon_sign(p)
    k = ctx.known.get(q.key(), 7)
    if ctx.bnd and k not in (NEG, ZER, POS):
        k &= bound_mask(q)
    if len(q.t) > 1:
        k &= struct_sign(q)
    lo, hi = poly_interval(q)
    if lo > 0:
        k &= POS
    elif lo == 0 and len(q.t) == 1:
        k &= POS | ZER
    if hi < 0:
        k &= NEG
    elif hi == 0 and len(q.t) == 1:
        k &= NEG | ZER
    return flip(k) if f else k

class B:
    """symbolic boolean. kind: 'cmp' (R, mask) | 'bv' z3 expr | 'and'/'or' list | 'not'"""
    __slots__ = ('kind', 'a', 'b', 'z')
    def __init__(self, kind, a, b=None):
        self.kind = kind
        self.a = a
        self.b = b
        self.z = None
    def __repr__(self):
        if self.kind == 'cmp':
            op = {1: '<', 2: '==', 4: '>', 3: '<=', 6: '>=', 5: '!='}[self.b]
            return '(%s %s 0)' % (show(self.a), op)
        if self.kind in ('and', 'or'):
            return '(' + (' %s ' % self.kind).join(map(repr, self.a)) + ')'
        return '%s' % (self.a,)
    def __bool__(self):
        return decide(self)

def decide(b):
    return ctx.decide(b)

def cmpmask(x, y, mask):
    """boolean 'sign(x-y) in mask' for finite x, y: python bool or B"""
    if x.__class__ is Fraction and y.__class__ is Fraction:
        d = x - y
        return bool((POS if d > 0 else NEG if d < 0 else ZER) & mask)
    d = sub(x, y)
    if d.__class__ is Fraction:
        return bool((POS if d > 0 else NEG if d < 0 else ZER) & mask)
    if mask == 7:
        return True
    if mask == 0:
        return False
    if ctx.products:
        f = ctx.products.get(d.key())
        while f is not None:
            # sign of a product with a factor of known strict sign
            for g, h in (f, f[::-1]):
                k = known_sign(g)
                if k == POS or k == NEG:
                    if k == NEG:
                        mask = flip(mask)
                    d = h
                    break
            else:
                break
            if d.__class__ is not R:
                return cmpmask(d, Fraction(0), mask)
            f = ctx.products.get(d.key())
    d = strip_factors(strip_monomial(clear_den(d)))
    while d.__class__ is R and len(d.t) == 1:
        (m, c), = d.t.items()
        if len(m) == 1 and m[0][1] == 1 and ctx.atoms[m[0][0]].kind == 'sqrt':
            # sign(s) = sign(radicand)
            d = strip_monomial(clear_den(scale(ctx.atoms[m[0][0]].poly, Fraction(c))))
        else:
            break
    d = unroot(d)
    if d.__class__ is Fraction:
        return bool((POS if d > 0 else NEG if d < 0 else ZER) & mask)
    q, f = canon_sign(d)
    if f:
        mask = flip(mask)
    h = half_turn(q)
    if h is not None:
        if h.__class__ is int:
            return bool(h & mask)
        return cmpmask(h, Fraction(0), mask)
    k = known_mask(q)
    m = k & mask
    if m == k:
        return True
    if m == 0:
        return False
    return B('cmp', q, mask)

def half_turn(q):
    """q = angle -/+ pi/2 with the angle an atan2 atom of known sign: the sign of the cosine decides"""
    if len(q.t) != 2 or () not in q.t:
        return None
    m = max(q.t)
    if len(m) != 1 or m[0][1] != 1 or ctx.atoms[m[0][0]].kind != 'fun':
        return None
    e = ctx.atoms[m[0][0]].extra
    if e[0] != 'atan2' or abs(q.t[()]) != PI_HALF:
        return None
    y, x = e[1]
    k = known_sign(y)
    if q.t[()] < 0:
        if k == POS:
            return neg(x)
        return NEG if k in (NEG, ZER | NEG) and known_sign(x) == POS or k == NEG else None
    if k == NEG:
        return x
    return POS if k == POS or k == ZER else None

PI_HALF = Fraction(math.pi) / 2

def known_sign(p):
    r = 0
    for k in (NEG, ZER, POS):
        v = cmpmask(p, Fraction(0), k)
        if v is True:
            return k
        if v is not False:
            r |= k
    return r

def sgn_mask(p):
    if p.__class__ is R:
        p = strip_factors(strip_monomial(p))
    return known_mask(p)

def unroot(d):
    """a*s + b with s a square root and the signs of a, b known and opposite: compare squares instead"""
    for _ in range(4):
        if d.__class__ is not R or len(d.t) < 2 or len(d.t) > 60:
            return d
        best = None
        cnt = {}
        for m in d.t:
            for a, e in m:
                if ctx.atoms[a].kind == 'sqrt' and ctx.atoms[a].poly.__class__ is R:
                    cnt[a] = cnt.get(a, 0) + 1
        done = True
        for a in sorted(cnt, reverse=True):
            al, be = {}, {}
            ok = True
            for m, c in d.t.items():
                e = dict(m).get(a, 0)
                if e == 1:
                    al[tuple(p for p in m if p[0] != a)] = c
                elif e == 0:
                    be[m] = c
                else:
                    ok = False
            if not ok or not be:
                continue
            al, be = mk(al), mk(be)
            ka, kb = sgn_mask(al), sgn_mask(be)
            if ka == POS and not kb & POS:
                f = 1
            elif ka == NEG and not kb & NEG:
                f = -1
            else:
                continue
            try:
                n = sub(mul_full(mul_full(al, al), ctx.atoms[a].poly), mul_full(be, be))
                n = clear_den(n)
            except TooBig:
                continue
            if f < 0:
                n = neg(n)
            if n.__class__ is Fraction:
                return n
            if len(n.t) > 400:
                continue
            d = strip_factors(strip_monomial(n))
            done = False
            break
        if done:
            return d
    return d

def strip_factors(d):
    """divide out positive denominator polynomials"""
    if d.__class__ is not R or len(d.t) < 2 or len(d.t) > 300:
        return d
    ats = None
    for x in ctx.atoms:
        if x.kind == 'den' or x.kind == 'sqrt':
            p = x.poly
            if p.__class__ is not R or len(p.t) < 2 or len(p.t) > len(d.t) or len(p.t) > 12:
                continue
            if ats is None:
                ats = {a for m in d.t for a, _ in m}
            if any(e < 0 for m in p.t for _, e in m):
                continue
            if not {a for m in p.t for a, _ in m} <= ats:
                continue
            while len(p.t) <= len(d.t):
                k = known_mask(p)
                if x.kind == 'den':
                    k &= POS | NEG
                if k != POS and k != NEG:
                    break
                q = exact_div(d.t, p.t)
                if q is None or any(e < 0 for m in q for _, e in m):
                    break
                d = mk(q)
                if k == NEG:
                    d = neg(d)
                if d.__class__ is not R:
                    return d
                ats = None
            if ats is None:
                ats = {a for m in d.t for a, _ in m}
    return d

def strip_monomial(d):
    """divide out common positive monomial factors"""
    if d.__class__ is not R or len(d.t) < 1:
        return d
    common = None
    for m in d.t:
        dm = dict(m)
        if common is None:
            common = dm
        else:
            common = {a: min(e, dm[a]) for a, e in common.items() if a in dm}
        if not common:
            return d
    g = []
    for a, e in sorted(common.items()):
        if atom_positive(a):
            g.append((a, e))
        elif e >= 3 and atom_nonzero(a):
            g.append((a, (e - 1) // 2 * 2))
    if not g:
        return d
    gi = mono_inv(tuple(g))
    return mk({mono_mul(m, gi): c for m, c in d.t.items()})

def atom_nonzero(a):
    k = ctx.known.get(frozenset({((a, 1),): 1}.items()), 7)
    return not (k & ZER)

def b_not(b):
    if b.__class__ is B:
        if b.kind == 'cmp':
            return B('cmp', b.a, 7 ^ b.b)
        if b.kind == 'and':
            return B('or', [b_not(x) for x in b.a])
        if b.kind == 'or':
            return B('and', [b_not(x) for x in b.a])
        if b.kind == 'bv':
            import z3
            return B('bv', z3.Not(b.a))
    return not b

def b_and(a, b):
    if a.__class__ is not B:
        return b if a else False
    if b.__class__ is not B:
        return a if b else False
    l = (a.a if a.kind == 'and' else [a]) + (b.a if b.kind == 'and' else [b])
    return B('and', l)

def b_or(a, b):
    if a.__class__ is not B:
        return True if a else b
    if b.__class__ is not B:
        return True if b else a
    l = (a.a if a.kind == 'or' else [a]) + (b.a if b.kind == 'or' else [b])
    return B('or', l)

def b_xor(a, b):
    if a.__class__ is not B:
        return b_not(b) if a else b
    if b.__class__ is not B:
        return b_not(a) if b else a
    return b_or(b_and(a, b_not(b)), b_and(b_not(a), b))

def lt(x, y): return cmpmask(x, y, NEG)
def le(x, y): return cmpmask(x, y, NEG | ZER)
def gt(x, y): return cmpmask(x, y, POS)
def ge(x, y): return cmpmask(x, y, POS | ZER)
def eq(x, y): return cmpmask(x, y, ZER)
def ne(x, y): return cmpmask(x, y, NEG | POS)

def T(b):
    if b.__class__ is B:
        return ctx.decide(b)
    return b

def sign(x):
    """decide the sign of x (forks)"""
    if x.__class__ is Fraction:
        return (x > 0) - (x < 0)
    if T(gt(x, Fraction(0))):
        return 1
    if T(lt(x, Fraction(0))):
        return -1
    return 0

# ---- derived operations ---------------------------------------------------------------------
def div(a, b):
    if b.__class__ is float:
        if b != b or a.__class__ is float:
            return NAN
        return Fraction(0)
    if b.__class__ is Fraction:
        if b == 0:
            if a.__class__ is float:
                return a if a != a else a
            s = sign(a)
            return NAN if s == 0 else PINF if s > 0 else MINF
        if a.__class__ is float:
            return a if (a != a or b > 0) else -a
        return scale(a, 1 / b) if a.__class__ is R else a / b
    # b symbolic
    if T(eq(b, Fraction(0))):
        ctx.divzero = True
        if a.__class__ is float:
            return a
        s = sign(a)
        return NAN if s == 0 else PINF if s > 0 else MINF
    if a.__class__ is float:
        return a if a != a else a * sign(b)
    if a.__class__ is Fraction and a == 0:
        return a
    if a.__class__ is R and len(a.t) == len(b.t) and len(a.t) > 1:
        # proportional?
        ma = max(a.t)
        if ma in b.t:
            r = Fraction(a.t[ma]) / b.t[ma]
            if all(m in b.t and a.t[m] == r * b.t[m] for m in a.t):
                return r
    if a.__class__ is R and len(b.t) > 1 and len(a.t) >= len(b.t) and len(a.t) < 400:
        q = exact_div(a.t, b.t)
        if q is not None:
            return mk(q)
    return mul(a, recip(b))

def isqrt_frac(c):
    if c < 0:
        return None
    n, d = c.numerator, c.denominator
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn == n and rd * rd == d:
        return Fraction(rn, rd)
    return None

def poly_sqrt(t):
    """exact square root of a term dict, or None"""
    ats = sorted({a for m in t for a, _ in m})
    idx = {a: i for i, a in enumerate(ats)}
    def vec(m):
        v = [0] * len(ats)
        for a, e in m:
            v[idx[a]] = e
        return tuple(v)
    p = {vec(m): Fraction(c) for m, c in t.items()}
    lm = max(p)
    if any(e % 2 for e in lm):
        return None
    lc = isqrt_frac(p[lm])
    if lc is None:
        return None
    l = tuple(e // 2 for e in lm)
    root = {l: lc}
    rem = dict(p)
    def subm(m, c):
        v = rem.get(m, 0) - c
        if v == 0:
            rem.pop(m, None)
        else:
            rem[m] = v
    subm(lm, lc * lc)
    for _ in range(len(t) + 2):
        if not rem:
            break
        m = max(rem)
        e = tuple(x - y for x, y in zip(m, l))
        c = rem[m] / (2 * lc)
        if e >= l:
            return None
        for m2, c2 in list(root.items()):
            subm(tuple(x + y for x, y in zip(m2, e)), 2 * c * c2)
        subm(tuple(2 * x for x in e), c * c)
        root[e] = c
    if rem:
        return None
    res = {}
    for e, c in root.items():
        m = tuple((ats[i], x) for i, x in enumerate(e) if x)
        if needs_reduce(m):
            return None
        res[m] = norm_c(c)
    return mk(res)

def sqrt(x):
    if x.__class__ is float:
        return NAN if (x != x or x < 0) else x
    if x.__class__ is Fraction:
        if x < 0:
            return NAN
        r = isqrt_frac(x)
        if r is not None:
            return r
        n, d = x.numerator, x.denominator
        # sqrt(n/d) = sqrt(n d)/d ; pull out small squares
        s, k = 1, n * d
        for q in (2, 3, 5, 7, 11, 13):
            while k % (q * q) == 0:
                k //= q * q
                s *= q
        key = ('sqrtc', k)
        a = ctx.intern.get(key)
        if a is None:
            v = math.sqrt(k) if k < 10 ** 300 else float(k) ** 0.5
            a = new_atom('sqrt', 'sqrt(%d)' % k if k < 10 ** 6 else 'sq%d' % len(ctx.atoms), poly=Fraction(k), extra='nz')
            ctx.intern[key] = a
        return scale(atom_r(a), Fraction(s, d))
    if T(lt(x, Fraction(0))):
        return NAN
    c, gm = content(x.t)
    if c < 0:
        c = -c
    # split the content monomial in square and rest
    sqm = []
    odd = []
    for a, e in gm:
        if e < 0 and e % 2 and ctx.atoms[a].kind == 'den' and atom_positive(a):
            odd.append((a, e))
            continue
        k = (e // 2) * 2
        if k:
            sqm.append((a, k))
    sqm = tuple(sqm)
    csq = isqrt_frac(Fraction(c))
    cs = Fraction(c)
    if csq is None:
        # rational c: keep c inside only through its square class
        cs = Fraction(1)
        csq = Fraction(1)
    t = x.t
    if sqm or odd or cs != 1:
        inv = mono_inv(tuple(sorted(sqm + tuple(odd))))
        t = {mono_mul(m, inv): norm_c(Fraction(v) / cs) for m, v in t.items()}
        t = reduce_terms(t)
    rest = mk(t)
    # outside factor  csq * prod |a|^(k/2)
    out = csq
    for a, k in sqm:
        f = fabs(ctx.atoms[a].poly if ctx.atoms[a].kind == 'den' else atom_r(ctx.atoms[a]))
        h = k // 2
        g = power(f, abs(h))
        if h < 0:
            g = recip(g)
        out = mul(out, g)
    for a, e in odd:
        out = mul(out, power(recip(sqrt(ctx.atoms[a].poly)), -e))
    if rest.__class__ is Fraction:
        return mul(out, sqrt(rest))
    pr = poly_sqrt(rest.t)
    if pr is not None:
        return mul(out, fabs(pr))
    # c P^2 with c no rational square
    lead = Fraction(rest.t[max(rest.t, key=lambda m: (sum(e for _, e in m), m))])
    if lead > 0 and isqrt_frac(lead) is None:
        pr = poly_sqrt({m: Fraction(v) / lead for m, v in rest.t.items()})
        if pr is not None:
            return mul(out, mul(sqrt(lead), fabs(pr)))
    rest, o = unit_squares(rest)
    if o is not None:
        out = mul(out, o)
        if rest.__class__ is Fraction:
            return mul(out, sqrt(rest))
        pr = poly_sqrt(rest.t)
        if pr is not None:
            return mul(out, fabs(pr))
    # clear denominators inside: sqrt(P/D) with D even powers is handled by content; otherwise keep
    key = ('sqrt', rest.key())
    a = ctx.intern.get(key)
    if a is None:
        a = new_atom('sqrt', 's%d' % len(ctx.atoms), poly=rest)
        ctx.intern[key] = a
        if known_mask(rest) == POS:
            a.extra = 'nz'
    return mul(out, atom_r(a))

def unit_squares(x):
    """x = u^2k * rest with u the eliminated component of a unit pair -> (rest, |u|^k), else (x, None)"""
    out = None
    if len(x.t) > 60:
        return x, None
    done = set()
    for g in {ctx.atoms[a].group for m in x.t for a, _ in m}:
        if g is None or len(ctx.groups[g][0]) != 2:
            continue
        u0, u1 = ctx.groups[g][0]
        while x.__class__ is R:
            # x as a polynomial in c = u0^2 (even powers of u0 only, no u1): divisible by 1 - c ?
            co = {}
            ok = True
            for m, c in x.t.items():
                e = 0
                r = []
                for a, k in m:
                    if a == u0:
                        e = k
                    elif a == u1:
                        ok = False
                    else:
                        r.append((a, k))
                if e < 0 or e % 2:
                    ok = False
                if not ok:
                    break
                co.setdefault(tuple(r), {})[e // 2] = Fraction(c)
            if not ok or not any(k for d in co.values() for k in d):
                break
            new = {}
            for r, d in co.items():
                n = max(d)
                # divide d(c) by (1 - c): synthetic division at c = 1
                q = {}
                acc = Fraction(0)
                for k in range(n, 0, -1):
                    acc += d.get(k, 0)
                    q[k - 1] = -acc
                if acc + d.get(0, 0) != 0:
                    ok = False
                    break
                for k, v in q.items():
                    if v:
                        m = tuple(sorted(r + (((u0, 2 * k),) if k else ())))
                        new[m] = norm_c(v)
            if not ok:
                break
            x = mk(new)
            f = fabs(atom_r(ctx.atoms[u1]))
            out = f if out is None else mul(out, f)
    return x, out

def fabs(x):
    if x.__class__ is float or x.__class__ is Fraction:
        return abs(x)
    k = known_mask_c(x)
    if not k & NEG:
        return x
    if not k & POS:
        return neg(x)
    if ctx.ite_mode:
        q, f = canon_sign(x)
        return ite(B('cmp', q, (POS | ZER) if not f else (NEG | ZER)), x, neg(x)) if False else _absatom(x)
    if T(ge(x, Fraction(0))):
        return x
    return neg(x)

def _absatom(x):
    # |x| as sqrt atom of x^2 would lose sign information; fork instead
    if T(ge(x, Fraction(0))):
        return x
    return neg(x)

def known_mask_c(x):
    d = strip_monomial(clear_den(x))
    return known_mask(d)

def ite(b, x, y):
    if b.__class__ is not B:
        return x if b else y
    if x.__class__ is float or y.__class__ is float:
        return x if T(b) else y
    if x.__class__ is y.__class__ and (x == y if x.__class__ is Fraction else x.key() == y.key()):
        return x
    key = ('ite', repr(b) if b.kind != 'cmp' else (b.a.key(), b.b), x.key() if x.__class__ is R else x, y.key() if y.__class__ is R else y)
    a = ctx.intern.get(key)
    if a is None:
        a = new_atom('ite', 'i%d' % len(ctx.atoms), extra=(b, x, y))
        l1, h1 = poly_interval(x)
        l2, h2 = poly_interval(y)
        l, h = min(l1, l2), max(h1, h2)
        a.lo = Fraction(l) if l > MINF else None
        a.hi = Fraction(h) if h < PINF else None
        nx = neg(x)
        if nx.__class__ is y.__class__ and (nx == y if nx.__class__ is Fraction else nx.key() == y.key()):
            sq = mul(x, x)
            if sq.__class__ is Fraction or len(sq.t) <= 8:
                a.poly = sq
        ctx.intern[key] = a
    return atom_r(a)

def fun_atom(fname, args, lo=None, hi=None, extra=None):
    key = ('fun', fname) + tuple(x.key() if x.__class__ is R else x for x in args)
    a = ctx.intern.get(key)
    if a is None:
        a = new_atom('fun', '%s%d' % (fname, len(ctx.atoms)), lo=lo, hi=hi, extra=(fname, tuple(args), extra))
        ctx.intern[key] = a
    return atom_r(a)

# ---- zero test ------------------------------------------------------------------------------
def is_zero(x):
    """True if x is identically zero by normalisation (after clearing denominators)"""
    if x.__class__ is Fraction:
        return x == 0
    try:
        y = clear_den(x, keep_sign=False)
    except TooBig:
        return False
    if y.__class__ is Fraction:
        return y == 0
    # expand let atoms
    for _ in range(6):
        lets = [a for a in {a for m in y.t for a, _ in m} if ctx.atoms[a].kind in ('let', 'den')]
        if not lets:
            return False
        a = max(lets)
        x = ctx.atoms[a]
        tot = Fraction(0)
        by = {}
        for m, c in y.t.items():
            j = 0
            for b, e in m:
                if b == a:
                    j = e
            by.setdefault(j, {})[tuple(p for p in m if p[0] != a)] = c
        try:
            for k, t in by.items():
                term = mk(t)
                for _ in range(k):
                    term = mul_full(term, x.poly)
                tot = add(tot, term)
            tot = clear_den(tot, keep_sign=False)
        except TooBig:
            return False
        if tot.__class__ is Fraction:
            return tot == 0
        y = tot
    return False

# ---- numeric evaluation over the sample pool --------------------------------------------------
def atom_vals(a):
    v = ctx.vals.get(a)
    if v is not None:
        return v
    x = ctx.atoms[a]
    with np.errstate(all='ignore'):
        if x.kind == 'var':
            v = ctx.samples[a]
        elif x.kind in ('den', 'let'):
            v = evalp(x.poly)
        elif x.kind == 'sqrt':
            v = np.sqrt(np.maximum(evalp(x.poly), 0.0))
        elif x.kind == 'ite':
            b, p, q = x.extra
            c = evalb(b)
            v = np.where(c == 1, evalp(p), np.where(c == 0, evalp(q), np.nan))
            # undecided numerically: both branches usually agree at the boundary
            v = np.where(np.isnan(v), evalp(p), v)
        elif x.kind == 'fun':
            fname, args, _ = x.extra
            av = [evalp(y) for y in args]
            v = NUMFUN[fname](*av)
        else:
            raise Exception('eval ' + x.kind)
    ctx.vals[a] = v
    return v

NUMFUN = {
    'atan2': np.arctan2,
    'atan': np.arctan,
    'acos': lambda x: np.arccos(np.clip(x, -1, 1)),
    'asin': lambda x: np.arcsin(np.clip(x, -1, 1)),
    'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'exp': np.exp, 'log': np.log,
    'pow': np.power,
    'floor': np.floor, 'ceil': np.ceil,
}

def evalp(p):
    if p.__class__ is Fraction:
        return np.full(ctx.ns, float(p))
    if p.__class__ is float:
        return np.full(ctx.ns, p)
    tot = np.zeros(ctx.ns)
    with np.errstate(all='ignore'):
        for m, c in p.t.items():
            v = float(c)
            for a, e in m:
                x = atom_vals(a)
                v = v * (x if e == 1 else x ** float(e) if e < 0 else x ** e)
            tot = tot + v
    return tot

def evalp_scale(p):
    """(value, magnitude scale) arrays"""
    if p.__class__ is Fraction:
        v = np.full(ctx.ns, float(p))
        return v, np.abs(v)
    tot = np.zeros(ctx.ns)
    sc = np.zeros(ctx.ns)
    with np.errstate(all='ignore'):
        for m, c in p.t.items():
            v = float(c)
            for a, e in m:
                x = atom_vals(a)
                v = v * (x if e == 1 else x ** float(e) if e < 0 else x ** e)
            tot = tot + v
            sc = sc + np.abs(v)
    return tot, sc

EPSN = 1e-9
def evalb(b):
    """array of 1 true, 0 false, 2 unknown"""
    if b.__class__ is not B:
        return np.full(ctx.ns, 1 if b else 0)
    if b.kind == 'cmp':
        v, s = evalp_scale(b.a)
        tol = EPSN * np.maximum(s, 1e-300)
        r = np.full(ctx.ns, 2)
        with np.errstate(all='ignore'):
            r[v > tol] = 1 if b.b & POS else 0
            r[v < -tol] = 1 if b.b & NEG else 0
            z = (v == 0) & (s == 0)
            r[z] = 1 if b.b & ZER else 0
        r[~np.isfinite(v)] = 2
        return r
    if b.kind == 'and':
        r = np.full(ctx.ns, 1)
        for x in b.a:
            e = evalb(x)
            r = np.where((r == 0) | (e == 0), 0, np.where((r == 2) | (e == 2), 2, 1))
        return r
    if b.kind == 'or':
        r = np.full(ctx.ns, 0)
        for x in b.a:
            e = evalb(x)
            r = np.where((r == 1) | (e == 1), 1, np.where((r == 2) | (e == 2), 2, 0))
        return r
    return np.full(ctx.ns, 2)

def is_zero_cheap(x):
    if x.__class__ is Fraction:
        return x == 0
    try:
        y = clear_den(x, keep_sign=False)
    except TooBig:
        return False
    return y.__class__ is Fraction and y == 0

NUMFUN['cosc'] = np.cos
