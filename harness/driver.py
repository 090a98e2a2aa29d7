#!/usr/bin/python3
"""Executes behaviours (JSON, one per line) against the library and records what was observed.

usage: driver.py LIB PLAN TRACE [JOBS]
  LIB    directory holding the package pyregpt built by lib.mk
  PLAN   one behaviour per line: {"id": .., "ops": [..]}
  TRACE  one line per behaviour: {"id": .., "ev": [{"op":.., observations ..}]}
Each behaviour runs in processes of its own (op "restart" starts a fresh one).  No judgement is made here.
"""
import os, sys, json, struct, signal, time, gc, shutil, tempfile, ctypes, threading
os.environ.setdefault('OMP_WAIT_POLICY', 'passive')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
import numpy as np

def dec(x):
    if isinstance(x, dict):
        if '#' in x: return struct.unpack('>d', bytes.fromhex(x['#']))[0]
        if '$' in x: return np.frombuffer(bytes.fromhex(x['$'].replace(' ', '')), dtype='>f8').astype('f8')
        return {k: dec(v) for k, v in x.items()}
    if isinstance(x, list): return [dec(v) for v in x]
    return x

def hexs(a):
    b = np.ascontiguousarray(a, dtype='>f8').tobytes().hex()
    return ' '.join(b[i:i + 16] for i in range(0, len(b), 16))

def enc(x):
    if x is None: return 'none'
    if isinstance(x, (bool, np.bool_)): return bool(x)
    if isinstance(x, (int, np.integer)): return int(x)
    if isinstance(x, (float, np.floating)): return {'#': hexs(np.float64(x).reshape(1))}
    if isinstance(x, str): return x
    if isinstance(x, np.ndarray):
        if x.dtype.kind not in 'fiu': return 'array of ' + str(x.dtype)
        return {'$': hexs(x.ravel())} if x.size else []
    if isinstance(x, (list, tuple)): return [enc(v) for v in x]
    if isinstance(x, dict): return {str(k): enc(v) for k, v in x.items()}
    return type(x).__name__

GUARD = 37
PAT = 7.3e-301
guards = []
def guarded(n, shape, fill):
    buf = np.full(n + 2 * GUARD, PAT)
    v = buf[GUARD:GUARD + n]
    if fill is not None: v[...] = fill
    guards.append(buf)
    if len(guards) > 400: del guards[0]
    return v.reshape(shape)

class NP:
    """numpy as the package sees it: fresh output arrays sit between guard zones"""
    def __getattr__(self, k): return getattr(np, k)
    @staticmethod
    def _ok(dtype): return dtype is None or np.dtype(dtype) == np.float64
    def zeros(self, shape, dtype=None, *a, **k):
        if a or k or not self._ok(dtype): return np.zeros(shape, dtype or float, *a, **k)
        return guarded(int(np.prod(shape)), shape, 0.)
    def empty(self, shape, dtype=None, *a, **k):
        if a or k or not self._ok(dtype): return np.empty(shape, dtype or float, *a, **k)
        return guarded(int(np.prod(shape)), shape, np.nan)
    def zeros_like(self, x, dtype=None, *a, **k):
        y = np.asarray(x)
        if a or k or not self._ok(dtype if dtype is not None else y.dtype): return np.zeros_like(x, dtype, *a, **k)
        return guarded(y.size, y.shape, 0.)

def layout(v, lay):
    v = np.array(v, dtype='f8')
    if lay == 'c': return v
    if lay == 'strided':
        b = np.full(2 * len(v) + 1, -8.25e77); b[:2 * len(v):2] = v; return b[:2 * len(v):2]
    if lay == 'rev': return v[::-1].copy()[::-1]
    if lay == 'ro': v.flags.writeable = False; return v
    if lay == 'be': return v.astype('>f8')
    if lay == 'off':
        b = np.full(len(v) + 6, -8.25e77); b[3:3 + len(v)] = v; return b[3:3 + len(v)]
    if lay == 'list': return v.tolist()
    if lay in ('w5', 'w9'): return v.reshape(-1, int(lay[1]))
    if lay == '2d' or lay == 'f2' and len(v) % 2: return v.reshape(1, -1)
    if lay == 'f2': return np.asfortranarray(v.reshape(2, -1))
    raise ValueError(lay)

def index(ix):
    k = ix['k']
    if k == 'slice': return slice(*[None if v == 9999 else v for v in ix['v']])
    if k == 'list': return np.array(ix['v'], dtype=int)
    if k == 'int': return ix['v']
    if k == 'mask': return np.array([bool(v) for v in ix['v']])
    raise ValueError(k)

class Raw:
    def __init__(self, v): self.columns = {'v': v}

class Machine:
    def __init__(self, lib):
        self.o = {}; self.snap = {}; self.junk = []
        so = os.path.join(lib, 'pyregpt', 'lib', 'regpt.so')
        import importlib
        self.m = importlib.import_module('pyregpt.pyregpt')
        self.m.np = NP()
        self.c = ctypes.CDLL(so, mode=ctypes.RTLD_LOCAL)
        self.libc = ctypes.CDLL(None)
    def col(self, name): return self.o[name].columns['v']
    def kw(self, op, *names):
        ren = {'D': 'Dgrowth', 's2': 'sigmad2', 'l': 'left', 'r': 'right'}
        return {ren.get(n, n): (op[n] if not isinstance(op[n], str) or n in ('ipl',) else self.col(op[n])) for n in names if n in op}
    def do(self, op):
        f = getattr(self, 'op_' + op['op'])
        return f(op)
    # --- objects and arrays
    def op_arr(self, p): self.o[p['h']] = Raw(layout(p['v'], p.get('lay', 'c')))
    def op_poke(self, p):
        a = self.o[p['h']].columns['v']; a *= np.reshape(p['fs'], a.shape) if 'fs' in p else p['f']
    def op_new(self, p): self.o[p['h']] = getattr(self.m, p['cls'])()
    def op_lin(self, p):
        k, q = self.col(p['k']), self.col(p['p'])
        if p.get('kw', True): self.o[p['h']] = getattr(self.m, p.get('cls', 'SpectrumLin'))(k=k, pk=q)
        else:
            s = getattr(self.m, p.get('cls', 'SpectrumLin'))(); s['k'] = k; s['pk'] = q; self.o[p['h']] = s
    def op_drop(self, p):
        for h in p['hs']: self.o.pop(h, None)
        self.junk.clear(); gc.collect()
    def op_scrib(self, p):
        for n in p['ns']:
            for _ in range(p.get('rep', 40)): self.junk.append(np.full(n, float(p.get('v', -3.))))
    def op_guard(self, p):
        o = self.o[p['h']]
        for c in list(o.columns):
            a = o.columns[c]; g = guarded(a.size, a.shape, None); g[...] = a; o[c] = g
    # --- library
    def op_reg(self, p): return self.o[p['h']].set_spectrum_lin(self.o[p['s']])
    def op_regk(self, p): return self.o[p['h']].set_pk_lin(self.col(p['k']), self.col(p['p']))
    def op_grid(self, p): return self.o[p['h']].set_terms(self.col(p['k']))
    def op_run(self, p):
        k = {n: p[n] for n in ('a', 'b') if n in p}
        if 'nt' in p: k['nthreads'] = p['nt']
        return self.o[p['h']].run_terms(**k)
    def op_prec(self, p):
        k = {n: p[n] for n in ('n', 'min', 'max') if n in p}
        if 'ipl' in p: k['interpol'] = p['ipl']
        return self.o[p['h']].set_precision(p['name'], **k)
    def op_cut(self, p):
        k = {'uvcutoff': p['uv']} if 'uv' in p else {}
        return self.o[p['h']].set_running_uvcutoff(p['name'], **k)
    def op_verb(self, p): return self.o[p['h']].set_verbosity(p['mode'])
    def op_clear(self, p): return self.o[p['h']].clear()
    def op_find(self, p): return self.o[p['h']].find_pk_lin(self.col(p['k']), **({'interpol': p['ipl']} if 'ipl' in p else {}))
    def op_sig(self, p): return self.o[p['h']].calc_running_sigmad2(self.col(p['k']), **({'uvcutoff': p['uv']} if 'uv' in p else {}))
    def op_nodes(self, p): return list(self.o[p['h']].nodes_weights_gauss_legendre(p['lo'], p['hi'], p['n']))
    def op_ipoly(self, p): return self.o[p['h']].interpol_poly(p['x'], self.col(p['tx']), self.col(p['ty']))
    def op_ilin(self, p): return self.o[p['h']].interpol_lin(p['x'], self.col(p['tx']), self.col(p['ty']))
    def op_cpk(self, p):
        k = np.array(self.col(p['k'])); out = guarded(len(k), (len(k),), 0.)
        d = ctypes.POINTER(ctypes.c_double)
        if not hasattr(self.c, 'set_spectrum_1loop'): return None
        self.c.set_spectrum_1loop.argtypes = (ctypes.c_size_t, d, d)
        self.c.run_spectrum_1loop.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t)
        self.c.set_spectrum_1loop(len(k), k.ctypes.data_as(d), out.ctypes.data_as(d))
        self.c.run_spectrum_1loop(p['a'].encode(), p['b'].encode(), p['nt'])
        return out.copy()
    def op_clib(self, p):
        n = len(self.o[p['h']].k); f = getattr(self.c, 'spectrum_%dloop' % p['n'], None)
        if f is None: return None
        out = guarded(n, (n,), 0.); f.argtypes = (ctypes.POINTER(ctypes.c_double),); f.restype = None
        f(out.ctypes.data_as(f.argtypes[0]))
        return out.copy()
    def op_cb(self, p):
        if not all(hasattr(self.c, f) for f in ('set_spectra_B', 'set_terms_B', 'run_terms_B')): return None
        d = ctypes.POINTER(ctypes.c_double); ptr = lambda a: a.ctypes.data_as(d)
        k = np.array(self.col(p['k'])); n = len(k)
        out = [guarded(n * w, (n * w,), 0.) for w in (1, 1, 9)]
        self.keep = getattr(self, 'keep', []) + [k, out]
        self.c.set_spectra_B.argtypes = (ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t, d, d)
        self.c.set_terms_B.argtypes = (ctypes.c_size_t, d, d, d, d)
        self.c.run_terms_B.argtypes = (ctypes.c_size_t,)
        for key, a, b in (('dt', b'delta', b'theta'), ('td', b'theta', b'delta'), ('tt', b'theta', b'theta'), ('dd', b'delta', b'delta')):
            if key in p:
                g, v = np.array(self.col(p[key + 'k' if key + 'k' in p else 'g'])), np.array(self.col(p[key])); self.keep += [g, v]
                self.c.set_spectra_B(a, b, len(g), ptr(g), ptr(v))
        self.c.set_terms_B(n, ptr(k), *[ptr(o) for o in out])
        self.c.run_terms_B(p['nt'])
        return np.concatenate(out)
    def op_kern(self, p):
        f = getattr(self.c, 'kernel_gamma2' + p['f'], None)
        if f is None: return None       # not exported
        f.argtypes = (ctypes.c_double,) * 4; f.restype = ctypes.c_double
        return np.array([f(*x) for x in np.reshape(p['x'], (-1, 4))])
    def op_pts(self, p):
        v = np.ascontiguousarray(p['v']); d = ctypes.POINTER(ctypes.c_double)
        self.c.vt_points.argtypes = (d, ctypes.c_int); self.c.vt_points(v.ctypes.data_as(d), len(v) // 5)
    def op_mark(self, p): pass
    def op_nop(self, p): pass
    def op_yield(self, p): self.c.vt_yield(p['p'])
    def op_suave(self, p):
        a = (ctypes.c_long * 4)(); self.c.vt_suave(a); return [int(x) for x in a]
    # --- containers
    def op_copy(self, p): self.o[p['o']] = self.o[p['h']].copy()
    def op_deep(self, p): self.o[p['o']] = self.o[p['h']].deepcopy()
    def op_sl(self, p): self.o[p['o']] = self.o[p['h']][index(p['ix'])]
    def op_get(self, p): return self.o[p['h']][p['c']]
    def op_attrk(self, p): return self.o[p['h']].k
    def op_setc(self, p): self.o[p['h']][p['c']] = self.col(p['v'])
    def op_setv(self, p): self.o[p['h']][index(p['ix'])] = p['v']
    def op_pop(self, p): return self.o[p['h']].pop(p['c'])
    def op_has(self, p): return p['c'] in self.o[p['h']]
    def op_iter(self, p): return list(self.o[p['h']])
    def op_fields(self, p): return sorted(self.o[p['h']].fields)
    def op_len(self, p): return [len(self.o[p['h']]), self.o[p['h']].size]
    def op_tolist(self, p): return self.o[p['h']].tolist()
    def op_asd(self, p): return self.o[p['h']].as_dict(**({'fields': p['f']} if 'f' in p else {}))
    def op_nan0(self, p): return self.o[p['h']].nan_to_zero()
    def op_resc(self, p): return self.o[p['h']].rescale(**({'scale': p['D']} if 'D' in p else {}))
    def op_pad(self, p):
        k = {}
        if 'mode' in p: k['mode'] = p['mode']
        if 'cv' in p: k['constant_values'] = p['cv']
        if 'ipl' in p: k['interpol'] = p['ipl']
        for c, v in dict(p.get('kv', {})).items(): k[c] = v
        return self.o[p['h']].pad_k(self.col(p['k']), **k)
    # --- assembled quantities
    def op_pk(self, p): return self.o[p['h']].pk(**self.kw(p, 'D', 's2'))
    def op_acc(self, p): return getattr(self.o[p['h']], p['f'])(**self.kw(p, 'D', 's2'))
    def op_interp(self, p): return self.o[p['h']].pk_interp(self.col(p['k']), **self.kw(p, 'l', 'r', 'D', 's2'))
    def op_rsd(self, p):
        k = self.kw(p, 'beta', 'D', 'l', 'r')
        return self.o[p['h']].pk_interp(self.col(p['k']), p['mu2'] if not isinstance(p['mu2'], str) else self.col(p['mu2']), **k)
    def op_sv(self, p): return self.o[p['h']].sigmav(**self.kw(p, 'D', 's2'))
    def op_sr(self, p): return self.o[p['h']].sigmar(p['R'], **self.kw(p, 'D', 's2'))
    def op_s8(self, p): return self.o[p['h']].sigma8(**self.kw(p, 'D', 's2'))
    def op_shot(self, p): return self.o[p['h']].shotnoise(**{n: p[n] for n in ('kmin', 'kmax') if n in p})
    def op_trans(self, p): return self.o[p['h']].transfer(**dict(p['c']))
    def op_nwrun(self, p):
        k = dict(p['c'])
        if 'p' in p: k['pk'] = self.col(p['p'])
        return self.o[p['h']].run_terms(**k)
    # --- observation
    def observe(self):
        d, g = [], []; new = {}
        for h, o in self.o.items():
            cols = o.columns
            for c, a in cols.items():
                b = np.asarray(a, dtype='f8')
                t = (b.shape, b.tobytes())
                new[(h, c)] = t
                if self.snap.get((h, c)) != t:
                    d.append({'h': h, 'c': c, 's': list(b.shape), 'v': enc(b)})
        for k in self.snap:
            if k not in new and k[0] in self.o: g.append(list(k))
        self.snap = new
        bad = sum(1 for b in guards if not ((b[:GUARD] == PAT).all() and (b[-GUARD:] == PAT).all()))
        a = (ctypes.c_long * 8)(); self.c.vt_stats(a)
        r = {'d': d, 'g': g, 'gd': bad, 'st': [int(x) for x in a]}
        if a[7]: s = ctypes.create_string_buffer(200); self.c.vt_races(s, 200); r['race'] = s.value.decode(errors='replace')
        return r

def listing(w):
    r = {}
    for b, _, fs in os.walk(w):
        for f in fs:
            q = os.path.join(b, f); s = os.stat(q); r[os.path.relpath(q, w)] = (s.st_size, s.st_mtime_ns)
    return r

def dump(work, f):
    """a file of numbers, by rows"""
    try:
        with open(os.path.join(work, f)) as t: v = [[float(x) for x in l.split()] for l in t]
        if len({len(r) for r in v}) != 1: raise ValueError
        return {'f': f, 'n': len(v), 'v': enc(np.array(v).T.copy())}
    except (ValueError, OSError): return {'f': f, 'n': 0, 'v': []}

def child(lib, ops, first, outfd, work):
    """one process: executes ops, writes one JSON line before ("begin") and after each"""
    cap = os.open(work + '.out', os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
    os.dup2(cap, 1); os.dup2(cap, 2)
    os.chdir(work)
    w = os.fdopen(outfd, 'w')
    M = Machine(lib)
    pos = 0
    for i, op in enumerate(ops):
        w.write(json.dumps({'begin': first + i}) + '\n'); w.flush()
        before = listing(work)
        ev = {'ret': 'none', 'exc': '', 'broken': False}
        try: ev['ret'] = enc(M.do(dec(op)))
        except Exception as e:
            ev['exc'] = type(e).__name__; ev['msg'] = str(e)[:200].encode('ascii', 'replace').decode()
        sys.stdout.flush(); sys.stderr.flush(); M.libc.fflush(None)
        end = os.lseek(cap, 0, os.SEEK_END); ev['out'] = end - pos; pos = end
        after = listing(work)
        ev['files'] = sorted(f for f in after if after[f] != before.get(f))
        if ev['files']: ev['dump'] = [dump(work, f) for f in ev['files']]
        for f in after: os.unlink(os.path.join(work, f))
        ev.update(M.observe())
        w.write(json.dumps(ev) + '\n'); w.flush()
    os._exit(0)

def execute(lib, beh, limit):
    ops = beh['ops']; ev = []
    i = 0
    while i < len(ops):
        if ops[i]['op'] == 'restart':
            ev.append({'ret': 'none', 'exc': '', 'broken': False, 'out': 0, 'files': [], 'd': [], 'g': [], 'gd': 0, 'st': [0] * 8}); i += 1; continue
        j = i
        while j < len(ops) and ops[j]['op'] != 'restart': j += 1
        top = tempfile.mkdtemp(prefix='vt-'); work = os.path.join(top, 'cwd'); os.mkdir(work)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try: os.close(r); child(lib, ops[i:j], i, w, work)
            except BaseException as e:
                os.write(w, (json.dumps({'fail': repr(e)[:300]}) + '\n').encode())
            os._exit(3)
        os.close(w)
        killed = [False]
        def kill():
            killed[0] = True
            try: os.kill(pid, signal.SIGKILL)
            except OSError: pass
        t = threading.Timer(limit, kill); t.start()
        with os.fdopen(r) as f: lines = f.read().splitlines()
        _, st = os.waitpid(pid, 0); t.cancel()
        shutil.rmtree(top)
        n = 0; fail = ''
        for l in lines:
            try: x = json.loads(l)
            except ValueError: continue
            if 'begin' in x: continue
            if 'fail' in x: fail = x['fail']; continue
            ev.append(x); n += 1
        if n < j - i:
            why = 'TIMEOUT' if killed[0] else ('HARNESS ' + fail if fail else 'CRASH status %d' % st)
            ev.append({'ret': 'none', 'exc': why, 'broken': True, 'out': 0, 'files': [], 'd': [], 'g': [], 'gd': 0, 'st': [0] * 8})
            break
        i = j
    return {'id': beh['id'], 'ops': ops[:len(ev)], 'cut': len(ev) < len(ops), 'ev': ev}

def main():
    lib, plan, trace = sys.argv[1:4]
    jobs = int(sys.argv[4]) if len(sys.argv) > 4 else 8
    limit = float(os.environ.get('VT_LIMIT', '60'))
    sys.path.insert(0, lib)
    behs = [json.loads(l) for l in open(plan)]
    # the package is importable but the library is only loaded in the children
    import importlib; importlib.import_module('pyregpt.pyregpt')
    order = sorted(range(len(behs)), key=lambda i: -len(behs[i]['ops']))
    part = [order[i::jobs] for i in range(jobs)]
    pids = []
    for j in range(jobs):
        pid = os.fork()
        if pid == 0:
            with open('%s.%d' % (trace, j), 'w') as f:
                for i in part[j]:
                    r = execute(lib, behs[i], limit)
                    if r['ev'] and (r['ev'][-1]['broken']):
                        r = execute(lib, behs[i], 2 * limit)   # must happen again to count
                    r['n'] = i
                    f.write(json.dumps(r) + '\n')
            os._exit(0)
        pids.append(pid)
    for p in pids: os.waitpid(p, 0)
    res = {}
    for j in range(jobs):
        for l in open('%s.%d' % (trace, j)):
            x = json.loads(l); res[x.pop('n')] = x
        os.unlink('%s.%d' % (trace, j))
    if sorted(res) != list(range(len(behs))): sys.exit('driver: lost behaviours')
    with open(trace, 'w') as f:
        f.write('[\n' + ',\n'.join(json.dumps(res[i]) for i in range(len(behs))) + ']\n')
main()
