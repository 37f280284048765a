"""Path exploration: decisions by re-execution with prefixes, obligations, counterexample models."""
import os, sys, time, traceback, random, hashlib
from fractions import Fraction
import numpy as np
import z3
import real, solver, rt
from real import R, B, ctx, NEG, ZER, POS
from rt import Violation, EndPath, CxxExc, SInt
from ir import Unsupported

NS = 300

class Explorer:
    def __init__(self, prog, entry, opts=None):
        self.prog = prog
        self.entry = entry
        self.opts = dict(feas_ms=2000, prove_ms=15000, seed=1, ite=True, max_dec=4000, cvc5=True, steps=3)
        self.opts.update(opts or {})
        ctx.decide = self.decide
        rt.state.explorer = self

    # ------------------------------------------------------------------ one path
    def run(self, prefix):
        ctx.reset()
        ctx.decide = self.decide
        ctx.ite_mode = self.opts['ite']
        ctx.cut = real.MAXTERMS
        ctx.ns = NS
        ctx.mask = np.ones(NS, bool)
        solver.reset()
        self.prog.restore()
        rt.tokens_real.clear()
        rt.tokens_int.clear()
        rt.environ.clear()
        self.prefix = prefix
        self.trace = []
        self.alts = []
        self.inputs = []           # (name, kind, payload)
        self.obl = []
        self.reach = set()
        self.maybe_infeasible = False
        self.input_seq = {}
        self.ntok = 0
        self.refills = 0
        self.lemmas = 0
        self.t0 = time.time()
        res = {'end': 'ok'}
        try:
            fn = self.prog.binder('f', self.prog.functab[self.entry], self.entry)
            fn()
        except EndPath as e:
            res['end'] = e.why
        except Violation as e:
            if os.environ.get('VP_TRACE'): traceback.print_exc()
            self.report_violation('%s: %s' % (e.kind, e.msg), [], e.kind)
            res['end'] = 'violation'
        except CxxExc as e:
            nm = '?'
            try:
                nm = rt.ti_name(e.ti)
                msg = getattr(e, 'what', '')
            except Exception:
                msg = ''
            self.report_violation('uncaught exception %s %s' % (nm, msg), [], 'exception')
            res['end'] = 'violation'
        except Unsupported as e:
            res['end'] = 'unsupported: ' + str(e)
        except real.TooBig:
            res['end'] = 'unsupported: polynomial too large'
        except RecursionError:
            res['end'] = 'unsupported: recursion'
        res['witness'] = None
        if res['end'] == 'ok':
            try:
                al = np.where(ctx.mask)[0]
                if len(al):
                    w = self.sample_inputs(al[0])
                    if any(k == 'int' for _, k, _ in self.inputs):
                        r, m = solver.check([B('bv', z3.BoolVal(True))], ctx.pc, self.opts['feas_ms'], full_only=True)
                        w = self.model_inputs(m) if m is not None else None
                    res['witness'] = w
            except (Unsupported, real.TooBig):
                pass
        res.update(obl=self.obl, alts=self.alts, reach=sorted(self.reach), ndec=len(self.trace), infeasible=self.maybe_infeasible,
                   time=time.time() - self.t0)
        return res

    # ------------------------------------------------------------------ inputs
    def rng(self, name):
        h = int(hashlib.sha256(('%s|%d' % (name, self.opts['seed'])).encode()).hexdigest()[:8], 16)
        return np.random.RandomState(h)

    def uname(self, name):
        k = self.input_seq.get(name, 0)
        self.input_seq[name] = k + 1
        return name if k == 0 else '%s#%d' % (name, k)

    def new_real(self, name, lo, hi):
        name = self.uname(name)
        r = real.var(name, lo, hi)
        a = ctx.atoms[-1]
        g = self.rng(name)
        l = float(lo) if lo is not None else -10.0
        h = float(hi) if hi is not None else 10.0
        u = g.rand(ctx.ns)
        ctx.samples[a.id] = l + (h - l) * u
        self.inputs.append((name, 'real', a.id))
        return r

    def new_unit(self, name, n):
        name = self.uname(name)
        ids = []
        g = self.rng(name)
        x = g.randn(n, ctx.ns)
        x /= np.sqrt((x * x).sum(0))
        gi = len(ctx.groups)
        rs = []
        for k in range(n):
            r = real.var('%s.%d' % (name, k), Fraction(-1), Fraction(1))
            a = ctx.atoms[-1]
            a.group = gi
            ids.append(a.id)
            ctx.samples[a.id] = x[k]
            rs.append(r)
        ctx.atoms[ids[-1]].extra = 'last'
        rep = {(): 1}
        for i in ids[:-1]:
            rep[((i, 2),)] = -1
        ctx.groups.append((ids, real.mk(rep)))
        self.inputs.append((name, 'unit', ids))
        return rs

    def new_int(self, name, lo, hi, w=32):
        name = self.uname(name)
        e = z3.BitVec('n_' + name, w)
        v = SInt(e)
        self.inputs.append((name, 'int', (e, w)))
        self.assume(B('bv', z3.And(e >= lo, e <= hi)))
        return v

    # ------------------------------------------------------------------ decisions
    def add_pc(self, b):
        """record b as true on this path"""
        if b.__class__ is not B:
            return
        if b.kind == 'and':
            for x in b.a:
                self.add_pc(x)
            return
        ctx.pc.append(b)
        if b.kind == 'cmp':
            k = b.a.key()
            ctx.known[k] = ctx.known.get(k, 7) & b.b
            real.note_bound(b.a, b.b)
        if ctx.mask is not None and ctx.mask.any():
            e = real.evalb(b)
            ctx.mask = ctx.mask & (e != 0)
            # samples that are numerically undecided are dropped too, unless the condition is an equality
            if b.kind == 'cmp' and b.b != ZER:
                ctx.mask = ctx.mask & (e == 1)

    def refill(self):
        n = int(ctx.mask.sum())
        if n == 0 or n >= 12 or self.refills >= 6:
            return
        self.refills += 1
        idx = np.where(ctx.mask)[0]
        g = self.rng('refill%d' % self.refills)
        m = 200
        pick = idx[g.randint(0, len(idx), m)]
        sc = 10.0 ** g.uniform(-4, -0.3, m)
        new = {}
        for a in ctx.vars:
            if a.group is not None:
                continue
            v = ctx.samples[a.id][pick]
            l = float(a.lo) if a.lo is not None else -10.0
            h = float(a.hi) if a.hi is not None else 10.0
            jit = g.randn(m) * sc * (h - l) * (g.rand(m) < 0.6)
            new[a.id] = np.clip(v + jit, l, h)
        for ids, _ in ctx.groups:
            x = np.stack([ctx.samples[i][pick] for i in ids])
            x = x + g.randn(*x.shape) * sc * (g.rand(m) < 0.6)
            x /= np.maximum(np.sqrt((x * x).sum(0)), 1e-300)
            for k, i in enumerate(ids):
                new[i] = x[k]
        self.append_samples(new, m)

    def append_samples(self, new, m):
        oldmask = ctx.mask
        oldns = ctx.ns
        keep = np.where(oldmask)[0]
        for a in ctx.vars:
            ctx.samples[a.id] = np.concatenate([ctx.samples[a.id][keep], new[a.id]])
        ctx.ns = len(keep) + m
        ctx.vals.clear()
        mask = np.ones(ctx.ns, bool)
        for b in ctx.pc:
            e = real.evalb(b)
            if b.kind == 'cmp' and b.b != ZER:
                ok = e == 1
            else:
                ok = e != 0
            ok[:len(keep)] = True
            mask &= ok
        ctx.mask = mask

    def add_model_sample(self, m):
        new = {}
        n_alive = np.where(ctx.mask)[0]
        for a in ctx.vars:
            v = solver.to_float(m.eval(solver.zvar(a.id), model_completion=False)) if m is not None else None
            if v is None:
                if len(n_alive):
                    v = ctx.samples[a.id][n_alive[0]]
                else:
                    l = float(a.lo) if a.lo is not None else -1.0
                    h = float(a.hi) if a.hi is not None else 1.0
                    v = (l + h) / 2
                    if a.group is not None:
                        v = 0.0
            new[a.id] = np.array([v])
        for ids, _ in ctx.groups:
            x = np.array([new[i][0] for i in ids])
            n = float(np.sqrt((x * x).sum()))
            if abs(n - 1) > 1e-6:
                # a unit vector the query does not constrain
                x = x / n if n else np.eye(len(ids))[0]
                for i, v in zip(ids, x):
                    new[i] = np.array([v])
        self.append_samples(new, 1)

    def simplify(self, b):
        q = rt.quick(b)
        if q is not None:
            return q
        if b.kind in ('and', 'or'):
            l = []
            for x in b.a:
                k = rt.quick(x)
                if k is None:
                    l.append(x)
            if len(l) == 1:
                return l[0]
            if len(l) < len(b.a):
                return B(b.kind, l)
        return b

    def decide(self, b):
        b = self.simplify(b)
        if b.__class__ is not B:
            return b
        i = len(self.trace)
        if i > self.opts['max_dec']:
            raise Unsupported('decision limit')
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trace.append(v)
            self.add_pc(b if v else real.b_not(b))
            return bool(v)
        if time.time() - self.t0 > self.opts.get('path_s', 400):
            raise Unsupported('path time limit')
        can = [None, None]
        if ctx.mask.any():
            self.refill()
            e = real.evalb(b)[ctx.mask]
            if (e == 1).any(): can[1] = True
            if (e == 0).any(): can[0] = True
        unk = False
        models = {}
        nb = real.b_not(b)
        sure = 0 if can[0] and not can[1] else 1
        for side in (1, 0):
            if can[side] is None:
                if can[1 - side] is False:
                    can[side] = True
                    continue
                g = b if side else nb
                r, m = solver.check([g], ctx.pc, self.opts['feas_ms'])
                if r == 'unsat':
                    can[side] = False
                elif r == 'sat':
                    can[side] = True
                    models[side] = m
                else:
                    can[side] = True
                    unk = True
        if can[1] and can[0]:
            v = sure                # the side that the samples reach first
            self.alts.append(self.trace + [1 - v])
        elif can[1]:
            v = 1
        elif can[0]:
            v = 0
        else:
            raise EndPath('infeasible')
        self.trace.append(v)
        if unk:
            self.maybe_infeasible = True
        if v in models and models[v] is not None:
            m = models[v]
            self.add_pc(b if v else nb)
            self.add_model_sample(m)
        else:
            self.add_pc(b if v else nb)
        return bool(v)

    def implied(self, b, ms=None):
        """truth of b when the path condition implies it (one short query), else None; recorded in the trace"""
        b = self.simplify(b)
        if b.__class__ is not B:
            return b
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i][1]
        else:
            v = None
            if ctx.mask.any():
                self.refill()
                e = real.evalb(b)[ctx.mask]
                t, f = (e == 1).any(), (e == 0).any()
                if t != f:
                    r, m = solver.check([real.b_not(b) if t else b], ctx.pc, ms or self.opts.get('implied_ms', 250))
                    if r == 'unsat':
                        v = bool(t)
        self.trace.append(('i', v))
        if v is not None:
            self.add_pc(b if v else real.b_not(b))
        return v

    def choice(self, n):
        """fork over 0..n-1 (structural choice, every value explored)"""
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trace.append(v)
            return v
        for k in range(1, n):
            self.alts.append(self.trace + [k])
        self.trace.append(0)
        return 0

    def concretize_int(self, v):
        """fork over the feasible values of a symbolic integer"""
        excl = []
        i = len(self.trace)
        if i < len(self.prefix):
            p = self.prefix[i]
            if p[0] == 'c':
                self.trace.append(p)
                self.add_pc(rt.mkb(v.e == p[1]))
                return p[1]
            excl = list(p[1])
        cons = [rt.mkb(v.e != x) for x in excl]
        r, m = solver.check([B('bv', z3.BoolVal(True))] + cons, ctx.pc, self.opts['feas_ms'] * 2, full_only=True)
        if r == 'unsat':
            raise EndPath('infeasible')
        if r != 'sat':
            raise Unsupported('cannot enumerate symbolic integer')
        val = m.eval(v.e, model_completion=True).as_long()
        if len(excl) > 300:
            raise Unsupported('too many values of a symbolic integer')
        self.alts.append(self.trace + [('x', excl + [val])])
        self.trace.append(('c', val))
        self.add_pc(rt.mkb(v.e == val))
        return val

    def concretize_addr(self, p, n):
        r, m = solver.check([B('bv', z3.BoolVal(True))], ctx.pc, self.opts['feas_ms'] * 2, full_only=True)
        if r == 'unsat':
            raise EndPath('infeasible')
        if r != 'sat':
            raise Unsupported('symbolic address')
        # the object is the one most values point to: take the base by looking at the structure base + offset
        i = len(self.trace)
        if i < len(self.prefix) and self.prefix[i][0] == 'o':
            base = self.prefix[i][1]
        else:
            base = self.guess_base(p, m)
        self.trace.append(('o', base))
        o = rt.fetch(base >> 32)
        inr = B('bv', z3.And(z3.ULE(z3.BitVecVal(base, 64), p.e), z3.ULE(p.e, z3.BitVecVal(base + o.size - n, 64)))) if o.size >= n else False
        if not rt.T_(inr):
            raise Violation('memory', 'access of %d bytes out of bounds of %s object of size %d (symbolic index)' % (n, rt.KIND[o.kind], o.size))
        return self.concretize_int(p)

    def guess_base(self, p, m):
        # constant part of the sum
        e = p.e
        cands = []
        st = [e]
        while st:
            x = st.pop()
            if z3.is_bv_value(x):
                c = x.as_long()
                i = c >> 32
                if i in rt.objs or i in rt.base_objs:
                    cands.append(i << 32)
            elif x.decl().kind() in (z3.Z3_OP_BADD, z3.Z3_OP_CONCAT, z3.Z3_OP_BOR):
                st.extend(x.children())
        if cands:
            return cands[0]
        v = m.eval(e, model_completion=True).as_long()
        return v >> 32 << 32

    def assume(self, b):
        b = self.simplify(b) if b.__class__ is B else bool(b)
        if b.__class__ is not B:
            if not b:
                raise EndPath('assume')
            return
        had = ctx.mask.any()
        self.add_pc(b)
        if not ctx.mask.any():
            # need a witness (also rules out contradictory assumptions)
            i = len(self.trace)
            if i < len(self.prefix):
                v = self.prefix[i]
                self.trace.append(v)
                return
            r, m = solver.check([b], ctx.pc[:-1] if ctx.pc and ctx.pc[-1] is b else ctx.pc, self.opts['feas_ms'] * 2, full_only=True)
            if r == 'unsat':
                raise EndPath('assume')
            if r == 'sat':
                self.add_model_sample(m)
            self.trace.append('a')

    # ------------------------------------------------------------------ obligations
    def obligation(self, goal, label, diff=None, tol=None):
        """goal: bool or B that must hold"""
        t = time.time()
        rec = {'label': label, 'status': None}
        self.obl.append(rec)
        if goal.__class__ is B:
            goal = self.simplify(goal)
        if goal.__class__ is not B:
            if goal:
                rec['status'] = 'proved'
                rec['how'] = 'normal form'
                return
            rec['status'] = 'violated'
            rec['models'] = self.models_for([], label)
            if not rec['models']:
                if self.path_status == 'unsat':
                    self.obl.pop()
                    raise EndPath('infeasible')
                rec['status'] = 'unknown'
            raise EndPath('violation')
        neg = real.b_not(goal)
        # candidate counterexamples on the surviving samples (confirmed by the solver and by replay)
        cand = []
        r = None
        if ctx.mask.any():
            e = real.evalb(neg)
            e = e[ctx.mask]
            idx = np.where(ctx.mask)[0]
            bad = idx[e == 1]
            if diff is not None and len(bad):
                with np.errstate(all='ignore'):
                    v, s = real.evalp_scale(diff)
                    bad = np.array([k for k in bad if abs(v[k]) > 1e-7 * max(1.0, s[k])], int)
            if len(bad):
                rr = self.confirm_pinned(neg, bad[:3])
                if rr:
                    rec['status'] = 'violated'
                    rec['how'] = 'solver (pinned)'
                    rec['models'] = [self.sample_inputs(k) for k in bad[:6]] 
                    rec['time'] = time.time() - t
                    raise EndPath('violation')
        r, m = solver.check([neg], ctx.pc, self.opts['prove_ms'], use_cvc5=self.opts['cvc5'])
        rec['time'] = time.time() - t
        if r == 'unsat':
            rec['status'] = 'proved'
            rec['how'] = 'solver'
            self.add_pc(goal)
            return
        if r == 'sat':
            models = [self.model_inputs(m)]
            # robust model: violate by a margin
            if diff is not None:
                for mg in (Fraction(1, 100), Fraction(1, 10000)):
                    for s in (1, -1):
                        g2 = real.gt(real.scale(diff, Fraction(s)), mg)
                        r2, m2 = solver.check([neg, g2], ctx.pc, self.opts['feas_ms'] * 2, full_only=True)
                        if r2 == 'sat':
                            models.insert(0, self.model_inputs(m2))
                    if len(models) > 1:
                        break
            rec['status'] = 'violated'
            rec['how'] = 'solver'
            rec['models'] = models
            raise EndPath('violation')
        rec['status'] = 'unknown'
        rec['detail'] = repr(goal)[:300]
        rec['prefix'] = list(self.trace)

    def confirm_pinned(self, neg, idx):
        """the solver decides the negated goal with all inputs fixed to a sample (nearby rationals)"""
        for k in idx:
            cons = []
            for a in ctx.vars:
                if a.group is not None:
                    continue
                v = Fraction(float(ctx.samples[a.id][k])).limit_denominator(10 ** 6)
                cons.append(B('cmp', *self._eqc(a, v)))
            for ids, _ in ctx.groups:
                x = rational_unit([float(ctx.samples[i][k]) for i in ids])
                for i, v in zip(ids, x):
                    cons.append(B('cmp', *self._eqc(ctx.atoms[i], v)))
            r, m = solver.check([neg] + [c for c in cons], ctx.pc, 4000, full_only=True)
            if r == 'sat':
                return True
        return False

    def _eqc(self, a, v):
        q = real.sub(R({((a.id, 1),): 1}), v)
        return q, ZER

    def report_violation(self, label, goal, kind):
        rec = {'label': label, 'status': 'violated', 'how': 'path', 'kind': kind}
        rec['models'] = self.models_for(goal, label)
        if not rec['models']:
            # path may be infeasible: unknown
            rec['status'] = 'infeasible' if self.path_status == 'unsat' else 'unknown'
            if rec['status'] == 'infeasible':
                return
        self.obl.append(rec)

    def models_for(self, extra, label):
        """input assignments that reach this point: solver model of the path condition first, then samples"""
        out = []
        r, m = solver.check(extra or [B('bv', z3.BoolVal(True))], ctx.pc, self.opts['prove_ms'], full_only=True)
        self.path_status = r
        if r == 'unsat':
            return []
        alive = np.where(ctx.mask)[0]
        ints = None
        if m is not None:
            base = self.model_inputs(m)
            ints = {n: base[n] for n, k, _ in self.inputs if k == 'int'}
        for k in alive[:4]:
            s = self.sample_inputs(k)
            if ints:
                s.update(ints)
            out.append(s)
        if m is not None:
            out.append(base)
        return out

    def model_inputs(self, m):
        d = {}
        for name, kind, pl in self.inputs:
            if kind == 'real':
                v = solver.to_float(m.eval(solver.zvar(pl), model_completion=False))
                if v is None:
                    al = np.where(ctx.mask)[0]
                    a = ctx.atoms[pl]
                    v = float(ctx.samples[pl][al[0]]) if len(al) else float(((a.lo or -1) + (a.hi or 1)) / 2)
                d[name] = v
            elif kind == 'unit':
                vs = [solver.to_float(m.eval(solver.zvar(i), model_completion=False)) for i in pl]
                if any(v is None for v in vs):
                    al = np.where(ctx.mask)[0]
                    if all(v is None for v in vs) and len(al):
                        vs = [float(ctx.samples[i][al[0]]) for i in pl]
                    else:
                        vs = [v or 0.0 for v in vs]
                        n = sum(v * v for v in vs) ** 0.5
                        vs = [v / n for v in vs] if n else [1.0] + [0.0] * (len(vs) - 1)
                n = sum(v * v for v in vs) ** 0.5
                if abs(n - 1) > 1e-6:
                    # a pair the query does not constrain
                    vs = [v / n for v in vs] if n else [1.0] + [0.0] * (len(vs) - 1)
                d[name] = vs
            elif kind == 'int':
                e, w = pl
                d[name] = signed(m.eval(e, model_completion=True).as_long(), w)
            elif kind == 'choice':
                d[name] = pl
        return d

    def sample_inputs(self, k):
        d = {}
        for name, kind, pl in self.inputs:
            if kind == 'real':
                d[name] = float(ctx.samples[pl][k])
            elif kind == 'unit':
                d[name] = [float(ctx.samples[i][k]) for i in pl]
            elif kind == 'choice':
                d[name] = pl
            elif kind == 'int':
                d[name] = 0
        return d

def signed(v, w):
    return v - (1 << w) if v >> (w - 1) else v

def rational_unit(x):
    """nearby rational point on the unit sphere (stereographic)"""
    n = len(x)
    # project from the pole opposite to the largest component
    j = max(range(n), key=lambda i: abs(x[i]))
    s = 1 if x[j] > 0 else -1
    den = 1 + abs(x[j])
    t = [Fraction(x[i] / den).limit_denominator(10 ** 5) for i in range(n) if i != j]
    q = sum(v * v for v in t)
    xj = (1 - q) / (1 + q) * s
    o = [2 * v / (1 + q) for v in t]
    o.insert(j, xj)
    return o

# ---------------------------------------------------------------------- harness API
def fr(x):
    if x.__class__ is Fraction:
        return x
    return None

def E():
    return rt.state.explorer

def api(name):
    def d(f):
        rt.EXT[name] = f
        return f
    return d

@api('vp_real')
def vp_real(name, lo, hi):
    return E().new_real(rt.rd_cstr(name), fr(lo), fr(hi))
@api('vp_unit')
def vp_unit(name, n, out):
    for k, r in enumerate(E().new_unit(rt.rd_cstr(name), n)):
        rt.st_f(out + 8 * k, 8, r)
@api('vp_int')
def vp_int(name, lo, hi):
    return E().new_int(rt.rd_cstr(name), rt.s32(lo), rt.s32(hi))
@api('vp_choice')
def vp_choice(name, n):
    v = E().choice(n)
    E().inputs.append((E().uname(rt.rd_cstr(name)), 'choice', v))
    return v
@api('vp_angle')
def vp_angle(name):
    ex = E()
    nm = rt.rd_cstr(name)
    u = ex.new_unit(nm, 2)
    ids = ctx.groups[-1][0]
    th = real.fun_atom('atan2', (u[1], u[0]), lo=-rt.trig.PI_HI, hi=rt.trig.PI_HI)
    ctx.intern[('pair', max(th.t)[0][0])] = (u[0], u[1])
    return th
@api('vp_know_atan2')
def vp_know_atan2(y, x, th):
    """checked hint: atan2(y, x) is the angle th (both derived by the engine, nothing is trusted)"""
    trig = rt.trig
    if special(y, x) or special(th, th) or y.__class__ is not R and x.__class__ is not R:
        return
    c, s = trig.cs(th)
    ok = real.is_zero(real.sub(real.mul(y, c), real.mul(x, s)))
    r = real.add(real.mul(x, c), real.mul(y, s))
    for b in (real.gt(r, Fraction(0)), real.gt(th, -trig.PI_D), real.le(th, trig.PI_D)):
        if ok and b is not True:
            ok = b.__class__ is B and E().implied(b, 2000) is True
    if not ok:
        raise Unsupported('angle hint not proved')
    y, x = trig.norm_dir(y, x)
    ctx.intern[('katan2', y.key() if y.__class__ is R else y, x.key() if x.__class__ is R else x)] = th
@api('vp_assume')
def vp_assume(b):
    if b is rt.UNDEF:
        raise Violation('uninit', 'assume on uninitialised value')
    if b.__class__ is SInt:
        b = b != 0
    E().assume(b)
def tob(b, label):
    if b is rt.UNDEF:
        raise Violation('uninit', label + ' (uninitialised value)')
    if b.__class__ is SInt:
        return b != 0
    return b
@api('vp_assert')
def vp_assert(b, label):
    label = rt.rd_cstr(label)
    b = tob(b, label)
    E().obligation(b if b.__class__ is B else bool(b), label)
def special(a, b):
    return a.__class__ is float or b.__class__ is float
def cmp_ob(a, b, label, mask):
    label = rt.rd_cstr(label)
    if a is rt.UNDEF or b is rt.UNDEF or a.__class__ is rt.Raw or b.__class__ is rt.Raw:
        raise Violation('uninit', label + ' (uninitialised value)')
    if special(a, b):
        if a.__class__ is float and b.__class__ is float:
            ok = (a != a and b != b and mask == ZER) or (a < b and mask & NEG) or (a == b and mask & ZER) or (a > b and mask & POS)
        elif a.__class__ is float:
            ok = (a == real.PINF and mask & POS) or (a == real.MINF and mask & NEG)
        else:
            ok = (b == real.PINF and mask & NEG) or (b == real.MINF and mask & POS)
        E().obligation(bool(ok), label)
        return
    d = real.sub(a, b)
    if mask == ZER and real.is_zero(d):
        E().obligation(True, label)
        return
    E().obligation(real.cmpmask(a, b, mask), label, diff=d)
@api('vp_eq')
def vp_eq(a, b, label): cmp_ob(a, b, label, ZER)
@api('vp_le')
def vp_le(a, b, label): cmp_ob(a, b, label, NEG | ZER)
@api('vp_lt')
def vp_lt(a, b, label): cmp_ob(a, b, label, NEG)
@api('vp_same')
def vp_same(a, b, label):
    """bitwise-same value (NaN equals NaN)"""
    cmp_ob(a, b, label, ZER)
@api('vp_reach')
def vp_reach(label):
    E().reach.add(rt.rd_cstr(label))
@api('vp_rat')
def vp_rat(p, q):
    return Fraction(rt.s64(p), rt.s64(q))
@api('vp_sym')
def vp_sym():
    return 1
@api('vp_fail')
def vp_fail(label):
    E().obligation(False, rt.rd_cstr(label))
@api('vp_size_cut')
def vp_size_cut(m):
    ctx.cut = int(m)

@api('vp_ite_mode')
def vp_ite_mode(m):
    ctx.ite_mode = bool(m)
@api('vp_token_real')
def vp_token_real(v, buf, n):
    ex = E()
    ex.ntok += 1
    if v.__class__ is R:
        txt = '7%05d.25' % ex.ntok
        rt.tokens_real[txt] = v
    else:
        txt = repr(float(v))
    for i, c in enumerate(txt.encode() + b'\0'):
        rt.st_i(buf + i, 1, c)
@api('vp_token_int')
def vp_token_int(v, buf, n):
    ex = E()
    ex.ntok += 1
    if v.__class__ is SInt:
        txt = '9%05d' % ex.ntok
        rt.tokens_int[txt] = v
    else:
        txt = str(rt.s32(v))
    for i, c in enumerate(txt.encode() + b'\0'):
        rt.st_i(buf + i, 1, c)
@api('vp_dump')
def vp_dump(v):
    print('DUMP', real.show(v) if v.__class__ is R else v)
