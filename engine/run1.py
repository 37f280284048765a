import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import build, rt, ir, explore, solver, real
import faulthandler, signal
faulthandler.register(signal.SIGUSR1)
if os.environ.get('VP_TRACE'):
    D=explore.Explorer.decide
    def dec(self,b):
        t=time.time(); n=len(self.trace)
        v=D(self,b)
        if len(self.trace)>n: print('  dec',n,v,'%.2fs at %.1f'%(time.time()-t,time.time()-self.t0),'alive',int(self.real_mask() if 0 else real.ctx.mask.sum()),'terms',len(b.a.t) if b.kind=='cmp' else b.kind, (real.show(b.a,6)[:300], b.b) if b.kind=='cmp' else '', flush=True)
        return v
    explore.Explorer.decide=dec
def main():
    h, entry = sys.argv[1:3]
    units = build.all_units() + os.environ.get("XU","").split() if len(sys.argv) < 4 or sys.argv[3]=='all' else sys.argv[3].split(',')
    t = time.time()
    outs = build.build(units, h)
    print('build', time.time() - t); t = time.time()
    mods = [ir.Module(p, 'm%d' % i) for i, p in enumerate(outs)]
    print('parse', time.time() - t); t = time.time()
    prog = rt.Program(mods)
    ex = explore.Explorer(prog, entry)
    prog.run_ctors()
    prog.snapshot()
    print('ctors', time.time() - t); t = time.time()
    work = [[]]
    n = 0
    while work:
        p = work.pop()
        r = ex.run(p)
        n += 1
        work.extend(r['alts'])
        print('path', n, r['end'], 'dec', r['ndec'], 'alts', len(r['alts']), 'reach', r['reach'], '%.2fs' % r['time'], 'inf' if r['infeasible'] else '')
        for o in r['obl']:
            print('    ', o['label'], o['status'], o.get('how'), '%.2f' % o.get('time', 0), o.get('detail', ''))
            if o['status'] == 'violated': print('      ', o['models'][:2])
        if n > int(os.environ.get('MAXP', '50')): break
    print('total', n, 'pending', len(work), '%.1fs' % (time.time() - t), solver.stats, len(prog.used) if hasattr(prog, 'used') else '')
main()
