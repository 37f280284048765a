"""z3 / cvc5 back end: translation of path conditions and obligations, sliced queries."""
import threading, time, subprocess, tempfile, os
from fractions import Fraction
import z3
import real
from real import R, B, ctx, NEG, ZER, POS

stats = {'queries': 0, 'time': 0.0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'cvc5': 0}

class ZState:
    def __init__(self):
        self.v = {}
        self.defs = {}
        self.deps = {}
zs = ZState()

def reset():
    zs.__init__()

def zvar(a):
    v = zs.v.get(a)
    if v is None:
        v = zs.v[a] = z3.Real('a%d' % a)
    return v

def zq(c):
    if isinstance(c, Fraction):
        return z3.RealVal(str(c.numerator)) / z3.RealVal(str(c.denominator)) if c.denominator != 1 else z3.RealVal(str(c.numerator))
    return z3.RealVal(str(c))

def zq(c):
    c = Fraction(c)
    return z3.Q(c.numerator, c.denominator)

def zpoly(p):
    """polynomial without negative exponents -> z3"""
    if p.__class__ is Fraction:
        return zq(p)
    ts = []
    for m, c in p.t.items():
        fs = []
        if c != 1 or not m:
            fs.append(zq(c))
        for a, e in m:
            v = zvar(a)
            for _ in range(e):
                fs.append(v)
        ts.append(z3.Product(fs) if len(fs) > 1 else fs[0])
    return z3.Sum(ts) if len(ts) > 1 else ts[0]

def poly_atoms(p):
    if p.__class__ is not R:
        return set()
    return {a for m in p.t for a, _ in m}

def b_atoms(b):
    if b.__class__ is not B:
        return set()
    if b.kind == 'cmp':
        return poly_atoms(b.a)
    if b.kind in ('and', 'or'):
        s = set()
        for x in b.a:
            s |= b_atoms(x)
        return s
    return set()

def has_bv(b):
    if b.__class__ is not B:
        return False
    if b.kind == 'bv':
        return True
    if b.kind in ('and', 'or'):
        return any(has_bv(x) for x in b.a)
    return False

def zb(b):
    if b.__class__ is not B:
        return z3.BoolVal(bool(b))
    if b.z is not None:
        return b.z
    if b.kind == 'cmp':
        p = b.a
        if any(e < 0 for m in p.t for _, e in m):
            p = real.clear_den(p)
        e = zpoly(p)
        r = {NEG: lambda: e < 0, POS: lambda: e > 0, ZER: lambda: e == 0, NEG | ZER: lambda: e <= 0,
             POS | ZER: lambda: e >= 0, NEG | POS: lambda: e != 0}[b.b]()
    elif b.kind == 'and':
        r = z3.And([zb(x) for x in b.a])
    elif b.kind == 'or':
        r = z3.Or([zb(x) for x in b.a])
    else:
        r = b.a
    b.z = r
    return r

def zeq(x, y):
    """x == y for Laurent polynomials (multiplied out; denominators are constrained non-zero elsewhere)"""
    d = real.sub(x, y)
    d = real.clear_den(d, keep_sign=False)
    if d.__class__ is Fraction:
        return z3.BoolVal(d == 0)
    return zpoly(d) == 0

def lin_pi():
    return z3.Q(314159265358979323, 10 ** 17), z3.Q(314159265358979324, 10 ** 17)

def atom_def(a):
    """(list of z3 constraints, set of atoms mentioned)"""
    d = zs.defs.get(a)
    if d is not None:
        return d
    x = ctx.atoms[a]
    v = zvar(a)
    cs = []
    dep = set()
    if x.lo is not None and x.lo == x.lo:
        cs.append(v >= zq(Fraction(x.lo)))
    if x.hi is not None and x.hi == x.hi:
        cs.append(v <= zq(Fraction(x.hi)))
    if x.kind == 'var':
        if x.group is not None:
            ids = ctx.groups[x.group][0]
            dep |= set(ids)
            if x.extra == 'last':
                cs.append(z3.Sum([zvar(i) * zvar(i) for i in ids]) == 1)
            else:
                dep |= set(ids)
        if isinstance(x.extra, tuple) and x.extra[0] == 'angle':
            pass
    elif x.kind == 'sqrt':
        cs.append(v >= 0)
        cs.append(zeq(real.Fraction(0), real.sub(_sq(a), x.poly)) if False else _sqdef(a, x))
        dep |= poly_atoms(x.poly)
    elif x.kind in ('den', 'let'):
        cs.append(zeq(R({((a, 1),): 1}), x.poly))
        if x.kind == 'den':
            cs.append(v != 0)
        dep |= poly_atoms(x.poly)
    elif x.kind == 'ite':
        b, p, q = x.extra
        va = R({((a, 1),): 1})
        c = zb(b)
        cs.append(z3.Implies(c, zeq(va, p)))
        cs.append(z3.Implies(z3.Not(c), zeq(va, q)))
        dep |= b_atoms(b) | poly_atoms(p) | poly_atoms(q)
    elif x.kind == 'fun':
        name, args, _ = x.extra
        for y in args:
            dep |= poly_atoms(y)
        cs += fun_axioms(a, name, args)
    zs.defs[a] = (cs, dep)
    return cs, dep

def _sq(a):
    return R({((a, 2),): 1})

def _sqdef(a, x):
    # s^2 * D = rad * D without going through reduction of s^2
    p = x.poly
    if p.__class__ is Fraction:
        return zvar(a) * zvar(a) == zq(p)
    # find denominators
    mins = {}
    for m in p.t:
        for b, e in m:
            if e < 0:
                mins[b] = min(mins.get(b, 0), e)
    if not mins:
        return zvar(a) * zvar(a) == zpoly(p)
    mult = R({tuple(sorted((b, -e) for b, e in mins.items())): 1})
    num = {}
    for m, c in p.t.items():
        num[real.mono_mul(m, max(mult.t))] = c
    numr = real.mk(real.reduce_terms(num))
    numr = real.clear_den(numr, keep_sign=False) if numr.__class__ is R and any(e < 0 for m in numr.t for _, e in m) else numr
    return zvar(a) * zvar(a) * zpoly(mult) == zpoly(numr)

def zcmp(x, mask):
    """z3 bool for sign(x) in mask (x Laurent)"""
    r = real.cmpmask(x, Fraction(0), mask)
    return zb(r)

def fun_axioms(a, name, args):
    v = zvar(a)
    cs = []
    plo, phi = lin_pi()
    F0 = Fraction(0)
    saved = (ctx.known, ctx.bnd)
    ctx.known, ctx.bnd = {}, {}          # axioms must not depend on the path's sign knowledge (they are cached)
    try:
        if name == 'atan2':
            y, x = args
            cs.append(v <= phi); cs.append(v >= -phi)
            cs.append(z3.Implies(zcmp(y, POS), v > 0))
            cs.append(z3.Implies(zcmp(y, NEG), v < 0))
            cs.append(z3.Implies(z3.And(zcmp(y, ZER), zcmp(x, POS)), v == 0))
            cs.append(z3.Implies(z3.And(zcmp(y, ZER), zcmp(x, NEG)), v >= plo))
            cs.append(z3.Implies(zcmp(x, POS), z3.And(v < phi / 2, v > -phi / 2)))
            cs.append(z3.Implies(z3.And(zcmp(x, NEG), zcmp(y, POS | ZER)), v > plo / 2))
            cs.append(z3.Implies(z3.And(zcmp(x, NEG), zcmp(y, NEG)), v < -plo / 2))
            if x.__class__ is R and y.__class__ is R and real.is_zero_cheap(real.sub(real.add(real.mul(x, x), real.mul(y, y)), Fraction(1))):
                # unit pair: |sin t| <= |t|, with equality only at 0
                cs.append(z3.Implies(zcmp(y, POS), zcmp(real.sub(R({((a, 1),): 1}), y), POS)))
                cs.append(z3.Implies(zcmp(y, NEG), zcmp(real.sub(R({((a, 1),): 1}), y), NEG)))
            if x.__class__ is Fraction and x == 1:
                # atan: |atan t| <= |t|
                cs.append(z3.Implies(zcmp(y, POS), zcmp(real.sub(R({((a, 1),): 1}), y), NEG)))
                cs.append(z3.Implies(zcmp(y, NEG), zcmp(real.sub(R({((a, 1),): 1}), y), POS)))
        elif name == 'acos':
            c = args[0]
            cs.append(v >= 0); cs.append(v <= phi)
            cs.append(z3.Implies(zcmp(c, POS), v < phi / 2))
            cs.append(z3.Implies(zcmp(c, NEG), v > plo / 2))
            cs.append(z3.Implies(zcmp(real.sub(c, Fraction(1)), NEG), v > 0))
        elif name == 'asin':
            c = args[0]
            cs.append(v >= -phi / 2); cs.append(v <= phi / 2)
            cs.append(z3.Implies(zcmp(c, POS), v > 0))
            cs.append(z3.Implies(zcmp(c, NEG), v < 0))
        elif name == 'pow':
            x, e = args
            cs.append(v > 0)       # base 0 handled concretely
            one = Fraction(1)
            for bm, em, rm in ((NEG, POS, NEG), (NEG, NEG, POS), (POS, POS, POS), (POS, NEG, NEG)):
                cs.append(z3.Implies(z3.And(zcmp(real.sub(x, one), bm), zcmp(e, em)),
                                     {NEG: v < 1, POS: v > 1}[rm]))
            cs.append(z3.Implies(zcmp(real.sub(x, one), ZER), v == 1))
            cs.append(z3.Implies(zcmp(e, ZER), v == 1))
            if e.__class__ is Fraction and e > 0 and e.denominator <= 7 and e.numerator <= 7:
                try:
                    cs.append(zcmp(real.sub(real.power(R({((a, 1),): 1}), e.denominator), real.power(x, e.numerator)), ZER))
                except real.TooBig:
                    pass
        elif name == 'exp':
            cs.append(v > 0)
        elif name in ('cos', 'sin'):
            cs.append(v >= -1); cs.append(v <= 1)
    finally:
        ctx.known, ctx.bnd = saved
    return cs

def pair_axioms(atoms):
    """monotonicity / functionality between function atoms of the same kind"""
    cs = []
    dep = set()
    fs = [a for a in atoms if ctx.atoms[a].kind == 'fun']
    saved = (ctx.known, ctx.bnd)
    ctx.known, ctx.bnd = {}, {}
    try:
        for i, a in enumerate(fs):
            na, aa, _ = ctx.atoms[a].extra
            for b in fs[i + 1:]:
                nb, ab, _ = ctx.atoms[b].extra
                if na != nb:
                    continue
                va, vb = zvar(a), zvar(b)
                if na == 'acos':
                    d = real.sub(aa[0], ab[0])
                    cs.append(z3.Implies(zcmp(d, NEG), va > vb))
                    cs.append(z3.Implies(zcmp(d, POS), va < vb))
                    cs.append(z3.Implies(zcmp(d, ZER), va == vb))
                elif na == 'asin':
                    d = real.sub(aa[0], ab[0])
                    cs.append(z3.Implies(zcmp(d, NEG), va < vb))
                    cs.append(z3.Implies(zcmp(d, POS), va > vb))
                    cs.append(z3.Implies(zcmp(d, ZER), va == vb))
                elif na == 'atan2':
                    y1, x1 = aa
                    y2, x2 = ab
                    cr = real.sub(real.mul(y1, x2), real.mul(y2, x1))
                    same = z3.Or(z3.And(zcmp(y1, POS | ZER), zcmp(y2, POS | ZER)), z3.And(zcmp(y1, NEG), zcmp(y2, NEG)))
                    cs.append(z3.Implies(z3.And(same, zcmp(cr, NEG)), va < vb))
                    cs.append(z3.Implies(z3.And(same, zcmp(cr, POS)), va > vb))
                    if x1.__class__ is Fraction and x2.__class__ is Fraction and x1 > 0 and x2 > 0:
                        cs.append(z3.Implies(zcmp(cr, ZER), va == vb))
                elif na == 'pow':
                    x1, e1 = aa
                    x2, e2 = ab
                    k1 = e1.key() if e1.__class__ is R else e1
                    k2 = e2.key() if e2.__class__ is R else e2
                    if k1 == k2:
                        d = real.sub(x1, x2)
                        ep = zcmp(e1, POS)
                        en = zcmp(e1, NEG)
                        cs.append(z3.Implies(z3.And(ep, zcmp(d, NEG)), va < vb))
                        cs.append(z3.Implies(z3.And(ep, zcmp(d, POS)), va > vb))
                        cs.append(z3.Implies(z3.And(en, zcmp(d, NEG)), va > vb))
                        cs.append(z3.Implies(z3.And(en, zcmp(d, POS)), va < vb))
                        cs.append(z3.Implies(zcmp(d, ZER), va == vb))
                    kx1 = x1.key() if x1.__class__ is R else x1
                    kx2 = x2.key() if x2.__class__ is R else x2
                    if kx1 == kx2:
                        d = real.sub(e1, e2)
                        one = Fraction(1)
                        cs.append(z3.Implies(z3.And(zcmp(real.sub(x1, one), NEG), zcmp(d, NEG)), va > vb))
                        cs.append(z3.Implies(z3.And(zcmp(real.sub(x1, one), NEG), zcmp(d, POS)), va < vb))
                        cs.append(z3.Implies(zcmp(d, ZER), va == vb))
    finally:
        ctx.known, ctx.bnd = saved
    return cs

def closure(atoms):
    seen = set()
    work = list(atoms)
    while work:
        a = work.pop()
        if a in seen:
            continue
        seen.add(a)
        work.extend(atom_def(a)[1] - seen)
    return seen

def to_float(v):
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        w = v.approx(30)
        return float(Fraction(w.numerator_as_long(), w.denominator_as_long()))
    return None

def run_z3(cons, ms, bv, logic=None):
    """-> ('sat', model) / ('unsat', None) / ('unknown', None)"""
    t0 = time.time()
    stats['queries'] += 1
    if bv:
        s = z3.Solver()
    else:
        s = z3.SolverFor(logic or 'QF_NRA')
    s.set('timeout', int(ms))
    for c in cons:
        s.add(c)
    tm = threading.Timer(ms / 1000.0 + 0.3, z3.main_ctx().interrupt)
    tm.daemon = True
    tm.start()
    try:
        r = s.check()
        m = s.model() if r == z3.sat else None
    except z3.Z3Exception:
        r, m = z3.unknown, None
    finally:
        tm.cancel()
    stats['time'] += time.time() - t0
    k = str(r)
    stats[k] = stats.get(k, 0) + 1
    return k, m

def run_cvc5(cons, ms):
    t0 = time.time()
    stats['cvc5'] += 1
    s = z3.Solver()
    for c in cons:
        s.add(c)
    txt = s.to_smt2()
    txt = '(set-logic QF_NRA)\n' + txt.replace('(set-info :status unknown)', '')
    fd, fn = tempfile.mkstemp(suffix='.smt2')
    os.write(fd, txt.encode())
    os.close(fd)
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % ms, '--nl-cov', fn], capture_output=True, text=True, timeout=ms / 1000 + 5)
        out = p.stdout.strip().split('\n')[0] if p.stdout else ''
        if '(error' in p.stdout:
            out = 'unknown'
    except subprocess.TimeoutExpired:
        out = 'unknown'
    finally:
        os.unlink(fn)
    stats['time'] += time.time() - t0
    return out if out in ('sat', 'unsat') else 'unknown'

def check(goal, pc, ms, full_only=False, use_cvc5=False, ints=None):
    """satisfiability of  pc and goal (lists of B).  Sliced: unsat on a subset is unsat."""
    goal = [g for g in goal if not (g.__class__ is not B and g)]
    for g in goal:
        if g.__class__ is not B:
            return 'unsat', None
    ga = set()
    for g in goal:
        ga |= b_atoms(g)
    gbv = any(has_bv(g) for g in goal)
    zg = [zb(g) for g in goal]
    cl = closure(ga)
    pcl = [(b, b_atoms(b), has_bv(b)) for b in pc if b.__class__ is B]
    levels = []
    used0 = [b for b, at, bv in pcl if (at <= cl and (gbv or not bv)) or (bv and gbv)]
    if not full_only:
        levels.append(used0)
        # connected component
        comp = set(cl)
        sel = [False] * len(pcl)
        ch = True
        while ch:
            ch = False
            for i, (b, at, bv) in enumerate(pcl):
                if not sel[i] and (at & comp):
                    sel[i] = True
                    new = closure(at)
                    if not new <= comp:
                        comp |= new
                    ch = True
        l2 = [pcl[i][0] for i in range(len(pcl)) if sel[i]]
        if len(l2) != len(used0):
            levels.append(l2)
    allb = [b for b, _, _ in pcl]
    if not levels or len(levels[-1]) != len(allb):
        levels.append(allb)
    last = ('unknown', None)
    cons = None
    for i, lev in enumerate(levels):
        at = set(ga)
        bv = gbv
        for b in lev:
            at |= b_atoms(b)
            bv = bv or has_bv(b)
        cl2 = closure(at)
        cons = list(zg)
        cons += [zb(b) for b in lev]
        for a in cl2:
            cons += atom_def(a)[0]
        pa = pair_axioms(sorted(cl2))
        if pa:
            cons += pa
            # atoms mentioned only in pair axioms are inside cl2 already
        t = ms if i == len(levels) - 1 else max(ms // 3, 500)
        r, m = run_z3(cons, t, bv)
        if r == 'unsat':
            return 'unsat', None
        last = (r, m)
        if r == 'sat' and i == len(levels) - 1:
            return 'sat', m
    if last[0] == 'unknown' and use_cvc5 and not any(has_bv(b) for b in list(goal) + pc if b.__class__ is B):
        r = run_cvc5(cons, ms)
        if r == 'unsat':
            return 'unsat', None
    return last
