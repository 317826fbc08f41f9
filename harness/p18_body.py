# The Python side of P18: runs heffte.py of the repository with a stand-in for mpi4py whose communicators are those
# of the simulator, and compares with numpy.
import ctypes, io, itertools, os, re, sys, tempfile, types, gc, contextlib
import numpy as np

lib = ctypes.CDLL(None)
lib.p18_ops.restype = ctypes.c_long
lib.p18_blocks.restype = ctypes.c_long
H = None          # the module under test
C = None          # the current case

class Comm:
    def __init__(self, value): self.handle = ctypes.c_int(value)
    def Get_rank(self): return lib.p18_rank()
    def Get_size(self): return C['np']
    rank = property(Get_rank)
    size = property(Get_size)

def start(repo):
    global H
    m = types.ModuleType('mpi4py'); mpi = types.ModuleType('mpi4py.MPI')
    world = Comm(int(os.environ.get('P18_WORLD', '1')))
    mpi.COMM_WORLD = world
    mpi.Comm = Comm
    mpi._sizeof = lambda c: 4
    mpi._addressof = lambda c: ctypes.addressof(c.handle)
    m.MPI = mpi; sys.modules['mpi4py'] = m; sys.modules['mpi4py.MPI'] = mpi
    t = open(os.path.join(repo, 'python', 'heffte_config.cmake.py')).read()
    values = {'heffte_library_path': '', 'Heffte_ENABLE_FFTW': 'ON', 'PROJECT_VERSION': '0'}
    t = re.sub(r'@(\w+)@', lambda mm: values.get(mm.group(1), ''), t)
    cfg = types.ModuleType('heffte_config'); exec(compile(t, 'heffte_config.py', 'exec'), cfg.__dict__)
    sys.modules['heffte_config'] = cfg
    sys.path.insert(0, os.path.join(repo, 'python'))
    import heffte
    H = heffte

class Failed(Exception): pass
def need(ok, what, *a):
    if not ok: raise Failed(what % a if a else what)

def parse(key):
    w = key.split(' '); d = {'kind': w[0]}
    for x in w[1:]:
        k, v = x.split('=', 1); d[k] = v
    if 'n' in d: d['n'] = tuple(int(x) for x in d['n'].split(','))
    def part(s):
        r = []
        for b in s.split(';'):
            if b == 'e': r.append(((0, 0, 0), (-1, -1, -1)))
            else:
                lo, hi = b.split('-'); r.append((tuple(map(int, lo.split('.'))), tuple(map(int, hi.split('.')))))
        return r
    for k in ('in', 'out'):
        if k in d: d[k] = part(d[k])
    for k in ('oi', 'oo', 'r2c', 'be', 's', 'pol', 'procs', 'max'):
        if k in d: d[k] = int(d[k])
    return d

ORDERS = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]
refs = {}
def field(n, salt, real):
    k = ('f', n, salt, real)
    if k not in refs:
        r = np.random.RandomState(salt + 7 * (n[0] + 10 * n[1] + 100 * n[2]))
        x = r.uniform(-1, 1, n)
        refs[k] = x if real else x + 1j * r.uniform(-1, 1, n)
    return refs[k]
def spectrum(n, salt, real):
    k = ('s', n, salt, real)
    if k not in refs: refs[k] = np.fft.fftn(field(n, salt, real))
    return refs[k]
def inverse(n, salt):     # unscaled inverse of the complex field
    k = ('i', n, salt)
    if k not in refs: refs[k] = np.fft.ifftn(field(n, salt, False)) * np.prod(n)
    return refs[k]

def local(a, box, order):
    lo, hi = box
    s = a[lo[0]:hi[0] + 1, lo[1]:hi[1] + 1, lo[2]:hi[2] + 1]
    # fastest index is order[0]
    return np.ascontiguousarray(np.transpose(s, (order[2], order[1], order[0]))).reshape(-1)
def count(box): return int(np.prod([max(0, h - l + 1) for l, h in zip(*box)]))
def half(n, d): return tuple(x // 2 + 1 if i == d else x for i, x in enumerate(n))

GUARD = 9
def guarded(n, dtype, values=None):
    base = np.zeros(n + 2 * GUARD, dtype); base.view(np.uint8)[:] = 0xB5
    v = base[GUARD:GUARD + n]
    if values is not None: v[:] = values
    return base, v
def intact(base, n):
    b = base.view(np.uint8); k = GUARD * base.itemsize
    return bool(np.all(b[:k] == 0xB5) and np.all(b[k + n * base.itemsize:] == 0xB5))

def boxes(d, me):
    return (H.box3d(list(d['in'][me][0]), list(d['in'][me][1]), np.array(ORDERS[d['oi']])),
            H.box3d(list(d['out'][me][0]), list(d['out'][me][1]), np.array(ORDERS[d['oo']])))
def make(d, me, be=None, r2c=None):
    i, o = boxes(d, me); be = d['be'] if be is None else be; r2c = d['r2c'] if r2c is None else r2c
    comm = sys.modules['mpi4py.MPI'].COMM_WORLD
    if d['oi'] == 0 and d['oo'] == 0:
        i, o = H.box3d(d['in'][me][0], d['in'][me][1]), H.box3d(d['out'][me][0], d['out'][me][1])
    return H.fft3d_r2c(be, i, o, r2c, comm) if r2c >= 0 else H.fft3d(be, i, o, comm)

PAIRS = [(np.float32, np.complex64), (np.complex64, np.complex64), (np.float64, np.complex128), (np.complex128, np.complex128)]
def scale_value(n, s): return 1.0 if s == 0 else 1.0 / np.prod(n) if s == 1 else 1.0 / np.sqrt(np.prod(n))

def one(plan, d, me, rt, ct, s, buffered, forward, salt, default_scale=False, shape=False):
    n = d['n']; r2c = d['r2c'] >= 0; real = rt in (np.float32, np.float64); single = ct == np.complex64
    oi, oo = ORDERS[d['oi']], ORDERS[d['oo']]; bi, bo = d['in'][me], d['out'][me]
    N = float(np.prod(n)); eps = (2e-6 if single else 2e-14) * (4 + np.log2(N + 1)) * 4
    if forward:
        src = local(field(n, salt, real), bi, oi)
        exp = spectrum(n, salt, real)
        exp = local(exp[tuple(slice(0, m) for m in (half(n, d['r2c']) if r2c else n))], bo, oo) * scale_value(n, s)
        mag = np.max(np.abs(spectrum(n, salt, real))) * scale_value(n, s)
        ti, to = rt, ct
    else:
        if real:
            spec = spectrum(n, salt, True)
            src = local(spec[tuple(slice(0, m) for m in (half(n, d['r2c']) if r2c else n))], bo, oo)
            exp = local(field(n, salt, True), bi, oi) * N * scale_value(n, s); mag = 2 * N * scale_value(n, s)
        else:
            src = local(field(n, salt, False), bo, oo); exp = local(inverse(n, salt), bi, oi) * scale_value(n, s); mag = np.max(np.abs(inverse(n, salt))) * scale_value(n, s)
        ti, to = ct, rt
    ab, a = guarded(src.size, ti, src); rb, r = guarded(exp.size, to); keep = ab.copy()
    if shape and src.size and exp.size: a = a.reshape((src.size, 1)); r2 = r.reshape((1, exp.size))
    else: r2 = r
    args = [a, r2]; wb = None; nw = 0
    if buffered:
        nw = plan.size_workspace(); extra = 3 if salt % 2 else 0
        wb, w = guarded(nw + extra, ct); args.append(w)
    if not default_scale: args.append(s)
    f = (plan.forward_buffered if buffered else plan.forward) if forward else (plan.backward_buffered if buffered else plan.backward)
    what = '%s%s %s->%s scale %d' % ('forward' if forward else 'backward', ' buffered' if buffered else '', ti.__name__, to.__name__, s)
    f(*args)
    need(np.array_equal(ab.view(np.uint8), keep.view(np.uint8)), what + ' changed its input')
    need(intact(rb, exp.size), what + ' wrote outside its output')
    if wb is not None: need(intact(wb, nw + (3 if salt % 2 else 0)), what + ' wrote outside its workspace')
    dev = np.max(np.abs(r - exp)) if exp.size else 0.0
    need(dev <= eps * mag + 1e-300, what + ' deviates by %g', float(dev))

def pairs_of(d): return [p for p in PAIRS if d['r2c'] < 0 or p[0] in (np.float32, np.float64)]
def sizes(plan, d, me):
    need(plan.size_inbox() == count(d['in'][me]) and plan.size_outbox() == count(d['out'][me]), 'sizes %d %d', plan.size_inbox(), plan.size_outbox())
    need(plan.size_workspace() >= 0, 'workspace')

def transform(d, me):
    plan = make(d, me); sizes(plan, d, me); salt = 0
    for rt, ct in pairs_of(d):
        for s in (0, 1, 2):
            for buffered in (False, True):
                for forward in (True, False):
                    salt = (salt + 1) % 3
                    one(plan, d, me, rt, ct, s, buffered, forward, salt, default_scale=(s == 0 and salt == 1), shape=salt == 2)
    sizes(plan, d, me)

def rejected(plan, f, args, arrays, what):
    before = [a.copy() for a in arrays]; ops = lib.p18_ops()
    try: f(*args)
    except Exception: pass
    else: raise Failed(what + ' was accepted')
    need(lib.p18_ops() == ops, what + ' communicated before it was rejected')
    for a, b in zip(arrays, before): need(np.array_equal(a.view(np.uint8), b.view(np.uint8)), what + ' changed data before it was rejected')

def reject(d, me):
    plan = make(d, me); r2c = d['r2c'] >= 0; nin, nout, nw = plan.size_inbox(), plan.size_outbox(), plan.size_workspace()
    def arr(n, t):
        b, v = guarded(n, t); return v
    for forward in (True, False):
        for buffered in (False, True):
            f = (plan.forward_buffered if buffered else plan.forward) if forward else (plan.backward_buffered if buffered else plan.backward)
            na, nr = (nin, nout) if forward else (nout, nin)
            name = f.__name__
            def attempt(a, ta, r, tr, w, tw, s, what):
                x, y, z = arr(a, ta), arr(r, tr), arr(w, tw)
                rejected(plan, f, [x, y] + ([z] if buffered else []) + [s], [x, y, z], '%s with %s' % (name, what))
            for rt, ct in PAIRS:
                real = rt in (np.float32, np.float64)
                ta, tr = (rt, ct) if forward else (ct, rt)
                if r2c and not real:
                    attempt(na, ta, nr, tr, nw, ct, 0, 'complex data for a real-to-complex plan'); continue
                for da, dr in ((1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, -1), (nr - na, na - nr)):
                    if na + da < 0 or nr + dr < 0 or (da == 0 and dr == 0): continue
                    attempt(na + da, ta, nr + dr, tr, nw + 5, ct, 0, 'sizes %+d %+d' % (da, dr))
                if buffered and nw > 0:
                    attempt(na, ta, nr, tr, nw - 1, ct, 0, 'a short workspace'); attempt(na, ta, nr, tr, 0, ct, 0, 'no workspace')
                for s in (-1, 3, 17): attempt(na, ta, nr, tr, nw, ct, s, 'scaling %d' % s)
                for t in (np.int32, np.float16, np.uint8, np.bool_, np.int64):
                    attempt(na, t, nr, tr, nw, ct, 0, 'input type ' + t.__name__); attempt(na, ta, nr, t, nw, ct, 0, 'output type ' + t.__name__)
                    if buffered: attempt(na, ta, nr, tr, nw, t, 0, 'workspace type ' + t.__name__)
                for t in (np.float32, np.float64, np.complex64, np.complex128):
                    okc = t == ct or (not r2c and False)
                    # the complex side has to have the precision of the other side
                    if forward and t != tr: attempt(na, ta, nr, t, nw, ct, 0, 'output type ' + t.__name__)
                    if not forward and t != ta: attempt(na, t, nr, tr, nw, ct, 0, 'input type ' + t.__name__)
                    if buffered and t != ct: attempt(na, ta, nr, tr, nw, t, 0, 'workspace type ' + t.__name__)
    # arrays with gaps
    for rt, ct in pairs_of(d):
        for forward in (True, False):
            for buffered in (False, True):
                f = (plan.forward_buffered if buffered else plan.forward) if forward else (plan.backward_buffered if buffered else plan.backward)
                shape = [(nin, rt), (nout, ct)] if forward else [(nout, ct), (nin, rt)]
                shape += [(nw, ct)] if buffered else []
                for k in range(len(shape)):
                    for step in (2, -1):
                        bases = [np.zeros(2 * n + 2, t) for n, t in shape]; args = [b[:n] for b, (n, t) in zip(bases, shape)]
                        n = shape[k][0]
                        if n < 2: continue
                        args[k] = bases[k][:2 * n:2] if step == 2 else bases[k][n - 1::-1]
                        rejected(plan, f, args + [0], bases, '%s with argument %d of stride %d' % (f.__name__, k, step))
    # the plan is as good as before
    rt, ct = pairs_of(d)[me % 1]
    one(plan, d, me, rt, ct, 0, True, True, 1); one(plan, d, me, rt, ct, 1, True, False, 2)

def fails(f, what):
    try: f()
    except H.heffte_input_error as e:
        out = io.StringIO()
        with contextlib.redirect_stdout(out): e.print_what()
        need(e.message and out.getvalue().strip() == str(e.message).strip(), '%s: print_what() prints %r instead of %r', what, out.getvalue(), e.message)
    except Exception as e: raise Failed('%s raises %r' % (what, e))
    else: raise Failed(what + ' was accepted')

def create(d, me):
    keep = make(d, me); np_ = C['np']
    for be in (-1, 3, 4, 9, 12, 100, 2, 10, 11): fails(lambda: make(d, me, be=be), 'back end %d' % be)
    if d['r2c'] >= 0:
        for r in (-1, 3, 4):
            i, o = boxes(d, me); fails(lambda: H.fft3d_r2c(d['be'], i, o, r, sys.modules['mpi4py.MPI'].COMM_WORLD), 'direction %d' % r)
    # one rank repeats the box of another: every rank gets an error
    if np_ > 1:
        for which in ('in', 'out'):
            for k in range(np_):
                bad = dict(d); p = list(d[which]); p[k] = p[(k + 1) % np_]; bad[which] = p
                full = d['n'] if which == 'in' or d['r2c'] < 0 else half(d['n'], d['r2c'])
                ne = [b for b in p if count(b)]
                if len(ne) == 0 or any(min(b[0][x] for b in ne) != 0 or max(b[1][x] for b in ne) != full[x] - 1 for x in range(3)) or sum(count(b) for b in p) == int(np.prod(full)): continue
                fails(lambda: make(bad, me), 'repeated %sbox' % which)
    gc.collect()
    rt, ct = pairs_of(d)[0]
    one(keep, d, me, rt, ct, 0, True, True, 1); one(keep, d, me, rt, ct, 1, False, False, 2)

def pair(d, me):
    # plan 0: complex, in -> in; plan 1: real-to-complex; stages: create, use, destroy of each, in every interleaving (20)
    seqs = sorted(set(itertools.permutations('aaabbb'))); seq = seqs[d['s']]
    da = dict(d, r2c=-1, out=list(reversed(d['in'])), be=1); db = dict(d, be=0); st = {'a': 0, 'b': 0}; p = {}
    for x in seq:
        dd = da if x == 'a' else db
        if st[x] == 0: p[x] = make(dd, me)
        elif st[x] == 1:
            for rt, ct in pairs_of(dd): one(p[x], dd, me, rt, ct, st['a'] % 3, x == 'a', True, 1); one(p[x], dd, me, rt, ct, 2, x == 'b', False, 0)
        else: del p[x]
        st[x] += 1

def grids(np_): return [(i, j, np_ // i // j) for i in range(1, np_ + 1) if np_ % i == 0 for j in range(1, np_ // i + 1) if (np_ // i) % j == 0]
def proc_setup(d, me):
    p = d['procs']
    for n in itertools.product(range(1, d['max'] + 1), repeat=3):
        g = (ctypes.c_int * 3)(); ok = lib.p18_grid(n[0], n[1], n[2], p, g)
        for lo in ((0, 0, 0), (3, -2, 5)):
            w = H.box3d(lo, [l + m - 1 for l, m in zip(lo, n)])
            try: r = H.proc_setup(w, p)
            except Exception as e:
                need(not ok, 'proc_setup(%s, %d) raises %r', n, p, e); continue
            if ok: need([int(x) for x in r] == list(g), 'proc_setup(%s, %d) = %s, the library gives %s', n, p, list(r), list(g))
            else: raise Failed('proc_setup(%s, %d) = %s has more processors than points' % (n, p, list(r)))
def split(d, me):
    n = d['n']
    for g in itertools.product(*[range(1, m + 1) for m in n]):
        for lo, order in (((0, 0, 0), (0, 1, 2)), ((2, 0, 7), (2, 0, 1)), ((-3, 5, -1), (1, 0, 2))):
            hi = [l + m - 1 for l, m in zip(lo, n)]; total = g[0] * g[1] * g[2]
            w = (ctypes.c_int * 9)(*lo, *hi, *order); gg = (ctypes.c_int * 3)(*g); out = (ctypes.c_int * (9 * total))()
            need(lib.p18_split(w, gg, out) == total, 'split')
            for grid in (np.array(g, dtype=np.int32), list(g)):
                r = H.split_world(H.box3d(lo, hi, np.array(order)), grid)
                need(len(r) == total, 'split_world(%s, %s) gives %d boxes', n, g, len(r))
                for i, b in enumerate(r):
                    x = [int(v) for v in list(b.low) + list(b.high) + list(b.order)]
                    need(x == list(out[9 * i:9 * i + 9]), 'split_world(%s, %s) box %d = %s, the library gives %s', n, g, i, x, list(out[9 * i:9 * i + 9]))
                    need(b.low.dtype == np.int32 and b.high.dtype == np.int32, 'the type of the box corners')
    b = H.box3d((0, 0, 0), [m - 1 for m in n]); need(int(b.count()) == int(np.prod(n)) and [int(x) for x in b.size] == list(n), 'box3d: count %s size %s', b.count(), b.size)

def misc(d, me):
    if hasattr(H, 'plan_options'): need(ctypes.sizeof(H.plan_options) == lib.p18_options_size(), 'plan_options has %d bytes, heffte_plan_options %d', ctypes.sizeof(H.plan_options), lib.p18_options_size())
    if hasattr(H, 'heffte_plan'): need(ctypes.sizeof(H.heffte_plan) == lib.p18_plan_size(), 'heffte_plan has %d bytes', ctypes.sizeof(H.heffte_plan))
    need((H.scale.none, H.scale.full, H.scale.symmetric) == (0, 1, 2), 'scale'); need((H.backend.stock, H.backend.fftw, H.backend.mkl, H.backend.cufft) == (0, 1, 2, 10), 'backend')
    e = H.heffte_input_error('a text'); out = io.StringIO()
    with contextlib.redirect_stdout(out): e.print_what()
    need(out.getvalue() == 'a text\n' and e.message == 'a text', 'heffte_input_error prints %r', out.getvalue())
    # plans are released
    for be, r2c in ((0, -1), (1, -1), (0, 2), (1, 0)):
        n = (4, 4, 4); o = half(n, r2c) if r2c >= 0 else n
        dd = {'in': [((0, 0, 0), (3, 3, 3))], 'out': [((0, 0, 0), tuple(x - 1 for x in o))], 'oi': 1, 'oo': 2, 'n': n, 'be': be, 'r2c': r2c}; seen = []
        for k in range(40):
            p = make(dd, 0); del p; gc.collect(); seen.append(lib.p18_blocks())
        need(seen[39] - seen[19] < 60, 'every plan of back end %d leaves %g blocks behind', be, (seen[39] - seen[19]) / 20.0)

KINDS = {'transform': transform, 'reject': reject, 'create': create, 'pair': pair, 'proc_setup': proc_setup, 'split_world': split, 'misc': misc}
def prepare(key, np_):
    global C
    C = parse(key); C['np'] = np_
    return ''
def rank(me):
    try: KINDS[C['kind']](C, me); return ''
    except Failed as e: return str(e)
    except Exception as e:
        import traceback
        t = traceback.extract_tb(e.__traceback__)[-1]
        return '%s: %s at %s:%d' % (type(e).__name__, e, os.path.basename(t.filename), t.lineno)
