"""Build LLVM IR of the repository's TUs and of the harnesses (and native replays) from /repo."""
import hashlib, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
CACHE = os.environ.get('VP_CACHE', os.path.join(VERIF, '.cache'))
CLANG = ['clang++', '-std=c++11', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-fno-math-errno', '-fno-unroll-loops',
         '-DEIGEN_DONT_VECTORIZE', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-w', '-S', '-emit-llvm']
NATIVE = ['g++', '-std=c++11', '-O1', '-g1', '-fPIC', '-D_GLIBCXX_ASSERTIONS', '-w', '-ffp-contract=off', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr']

def incs(native, overlay=True):
    i = []
    if not native and overlay:
        i += ['-I' + os.path.join(VERIF, 'overlay')]
    i += ['-I' + os.path.join(VERIF, 'harness'), '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(REPO, 'sfun/include_sfun'),
          '-I' + os.path.join(REPO, 'toolbox/src'), '-I/usr/include/eigen3']
    return i

_hh = None
def headers_hash():
    global _hh
    if _hh is None:
        h = hashlib.sha256()
        for root in ('src', 'toolbox/src', 'sfun', 'toolbox/src_mex'):
            for d, ds, fs in sorted(os.walk(os.path.join(REPO, root))):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith(('.hh', '.hxx', '.h', '.hpp', '.inl', '.tpp')):
                        p = os.path.join(d, f)
                        h.update(p.encode())
                        h.update(open(p, 'rb').read())
        for d in ('overlay', 'harness'):
            for f in sorted(os.listdir(os.path.join(VERIF, d))):
                if f.endswith(('.h', '.hh')) or '.' not in f:
                    p = os.path.join(VERIF, d, f)
                    if os.path.isfile(p):
                        h.update(open(p, 'rb').read())
        h.update(open(os.path.abspath(__file__), 'rb').read())
        _hh = h.hexdigest()
    return _hh

def key(path, flags):
    h = hashlib.sha256()
    h.update(headers_hash().encode())
    h.update(open(path, 'rb').read())
    # files included by relative name (mex wrappers)
    h.update(' '.join(flags).encode())
    h.update(path.encode())
    return h.hexdigest()[:24]

class BuildError(Exception):
    pass

def compile_one(path, extra=(), native=False, plain=False):
    flags = ((NATIVE[:-3] if plain else NATIVE) + ['-c'] if native else CLANG) + list(extra) + incs(native)
    k = key(path, flags)
    out = os.path.join(CACHE, ('n' if native else 'i') + k + ('.o' if native else '.ll'))
    if os.path.exists(out):
        return out
    os.makedirs(CACHE, exist_ok=True)
    tmp = out + '.tmp%d' % os.getpid()
    r = subprocess.run(flags + [path, '-o', tmp], capture_output=True, text=True)
    if r.returncode and not native:
        # a use of <fstream> the stand-in does not offer: the real header compiles, its functions are then unsupported
        r = subprocess.run(CLANG + list(extra) + incs(False, False) + [path, '-o', tmp], capture_output=True, text=True)
    if r.returncode:
        raise BuildError('compilation of %s failed:\n%s' % (path, r.stderr[-3000:]))
    os.rename(tmp, out)
    return out

def src(name):
    """repository source by short name: enve sources come from /repo/src, the rest from /repo/toolbox/src"""
    if '/' in name:
        return os.path.join(REPO, name)
    p = os.path.join(REPO, 'src', name + '.cc')
    if os.path.exists(p):
        return p
    return os.path.join(REPO, 'toolbox/src', name + '.cc')

def build(units, harness, native=False, extra=(), plain=False, failed=None):
    """units: list of short names; harness: files in /verif/harness -> list of paths.  A harness that does not compile
    against the current tree is left out when failed (a dict) is given, and named there."""
    hs = [harness] if isinstance(harness, str) else list(harness)
    jobs = [(os.path.join(VERIF, 'harness', h), True) for h in hs] + [(src(u), False) for u in units]
    def one(j):
        try:
            return compile_one(j[0], extra=extra if j[1] else (), native=native, plain=plain)
        except BuildError as e:
            if not j[1] or failed is None:
                raise
            failed[os.path.basename(j[0])] = str(e)
            return None
    with ThreadPoolExecutor(8) as ex:
        outs = [o for o in ex.map(one, jobs) if o]
    if failed is not None and len(failed) == len(hs):
        raise BuildError('\n'.join(failed.values()))
    return outs

ACME = ['AABBtree', 'aabb', 'ball', 'collection', 'collinear', 'coplanar', 'disk', 'entity', 'intersection', 'line', 'math', 'none', 'orthogonal',
        'parallel', 'plane', 'point', 'ray', 'segment', 'triangle', 'utilities']
ENVE = ['flat', 'mesh', 'rib', 'shape', 'shell', 'triangleground']
ALL = ACME + ENVE

def all_units():
    """every .cc of the two library directories (new files included)"""
    u = []
    d1 = os.path.join(REPO, 'src')
    names = set()
    for f in sorted(os.listdir(d1)):
        if f.endswith('.cc'):
            u.append(os.path.join('src', f)); names.add(f)
    d2 = os.path.join(REPO, 'toolbox/src')
    for f in sorted(os.listdir(d2)):
        if f.endswith('.cc') and f not in names:
            u.append(os.path.join('toolbox/src', f))
    return u

def native_exe(units, harness, extra=(), plain=False):
    objs = build(units, harness, native=True, extra=extra, plain=plain, failed={})
    rt = compile_one(os.path.join(VERIF, 'harness', 'vp_native.cc'), native=True, plain=plain)
    h = hashlib.sha256(' '.join(objs + [rt]).encode()).hexdigest()[:24]
    exe = os.path.join(CACHE, 'x' + h)
    if not os.path.exists(exe):
        r = subprocess.run(['g++', '-rdynamic'] + ([] if plain else ['-fsanitize=address,undefined']) + objs + [rt, '-o', exe + '.tmp', '-ldl'], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('link failed:\n' + r.stderr[-3000:])
        os.rename(exe + '.tmp', exe)
    return exe
