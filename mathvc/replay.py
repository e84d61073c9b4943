"""Replaying inputs against the natively compiled real code and judging the contract on what it returned."""
import ctypes, struct, random, math
from fractions import Fraction as Fr
from terms import *
import contract as K
from contract import *
from verify import *
from evalt import Ev, Bad, mpf

def f32(x): return struct.unpack('f', struct.pack('f', x))[0]

class Replayer:
    """One per contract instance."""
    def __init__(self, inst):
        self.inst = inst; self.c = inst.c; self.u = inst.u
        self.real = inst.u.real
        self.aliasmap = {b: a for a, b in inst.alias}
        self.tol = 2e-5 if self.real == 'float' else 1e-11
        self.tol *= inst.c.opts.get('tolscale', 1)
        self.ok = not any(p.arr and self.inst.case.get(p.count) is None and not p.count.isdigit() and not self.cnt(p) for p in self.c.params)
        self.build_spec()

    def cnt(self, p):
        if p.count.isdigit(): return int(p.count)
        if p.count in self.inst.case: return self.inst.case[p.count]
        if '-' in p.count:
            b, k = p.count.split('-')
            if b in self.inst.case: return self.inst.case[b] - int(k)
        if '+' in p.count:
            b, k = p.count.split('+')
            if b in self.inst.case: return self.inst.case[b] + int(k)
        if '*' in p.count:
            b, k = p.count.split('*')
            if b in self.inst.case: return self.inst.case[b] * (int(k) if k.isdigit() else self.inst.case[k])
        return None

    def stride(self, p):
        if not p.stride: return self.u.size(p.t)
        return int(p.stride) if p.stride.isdigit() else self.inst.case[p.stride]

    def build_spec(self):
        """requires/ensures over variables: pre leaves 'a.x', post leaves 'post:a.x', result 'out.x'"""
        c = self.c; inst = self.inst
        e = Env(); e.ctx = None; e.inst = inst; e.bits = self.u.bits; e.case = inst.case; e.hyp = []
        def g(prefix, post=False):
            def get(path, lt_):
                nm = prefix + ('.' + path if path else '')
                if not post and nm in inst.case: return num(inst.case[nm], 'I') if lt_ != 'R' else num(inst.case[nm])
                if lt_ in FLAGSETS and post: return self.postflags(prefix, path, lt_)
                if lt_ in FLAGSETS: return flag_input(lt_, nm)
                if lt_ == 'B': return var(nm, 'B')
                return var(nm, 'R' if lt_ == 'R' else 'I')
            return get
        self.reads = {}
        class AV:
            def __init__(s, p, post): s.p = p; s.post = post
            def __getitem__(s, i):
                if isinstance(i, T) and i.op == 'num': i = int(i.val)
                if isinstance(i, T): raise Bad('symbolic index')
                return mkview(s.p.t, g(('post:' if s.post else '') + '%s[%d]' % (s.p.name, i), s.post))
        post = Env()
        for p in c.params:
            nm = self.aliasmap.get(p.name, p.name)
            if p.arr:
                setattr(e, p.name, AV(p, False)); setattr(post, p.name, AV(p, True)); continue
            if p.t in TYPES or p.mut:
                setattr(e, p.name, mkview(p.t, g(nm))); setattr(post, p.name, mkview(p.t, g('post:' + nm, True)))
            else:
                v = inst.case.get(p.name)
                setattr(e, p.name, (lift(bool(v)) if p.t == 'B' else v if p.t != 'R' else lift(v)) if v is not None else var(p.name, 'R' if p.t == 'R' else 'I'))
        e.post = None; e.out = None
        hyp = []
        if c.inv:
            for p in c.params:
                if p.t in INVARIANTS and not p.arr: hyp += [t for _, t in flatclauses(INVARIANTS[p.t](getattr(e, p.name)))]
        e.hyp = hyp
        if c.requires: hyp += [t for _, t in flatclauses(c.requires(e))]
        # extra filter for native runs only (keeps rounding from being judged)
        if c.opts.get('nreq'): hyp = hyp + [t for _, t in flatclauses(c.opts['nreq'](e))]
        self.req = hyp
        e.post = post
        rt = None
        if c.ret != 'void':
            rt = 'B' if c.ret.startswith('&') else c.ret
            e.out = mkview(rt, g('out', True))
        self.ens = flatclauses(c.ensures(e)) if c.ensures else []
        if c.ret.startswith('&'): self.ens.append(('returns-self', lift(e.out)))
        self.rt = rt
        self.e = e

    def postflags(self, prefix, path, lt_):
        nm = prefix + ('.' + path if path else '')
        return flag_input(lt_, nm)

    # ---- memory encoding
    def enc(self, buf, off, lt_, v):
        if lt_ == 'R': struct.pack_into('f' if self.u.bits == 32 else 'd', buf, off, float(v))
        elif lt_ == 'B': struct.pack_into('B', buf, off, 1 if v else 0)
        elif lt_ == 'sz': struct.pack_into('Q', buf, off, int(v))
        else: struct.pack_into('I', buf, off, int(v) & 0xffffffff)
    def dec(self, buf, off, lt_):
        if lt_ == 'R': return struct.unpack_from('f' if self.u.bits == 32 else 'd', buf, off)[0]
        if lt_ == 'B': return struct.unpack_from('B', buf, off)[0]
        if lt_ == 'sz': return struct.unpack_from('Q', buf, off)[0]
        if lt_ == 'i': return struct.unpack_from('i', buf, off)[0]
        return struct.unpack_from('I', buf, off)[0]

    def invars(self):
        """[(name, leaf type)] of the inputs"""
        out = []
        for p in self.c.params:
            if p.name in self.aliasmap: continue
            if p.name in self.c.opts.get('uninit', ()): continue
            if p.arr:
                for i in range(self.cnt(p) or 0):
                    for off, path, lt_ in self.u.cells(p.t): out.append(('%s[%d]%s' % (p.name, i, '.' + path if path else ''), lt_))
            elif p.t in TYPES or p.mut:
                for off, path, lt_ in self.u.cells(p.t): out.append((p.name + ('.' + path if path else ''), lt_))
            elif p.name not in self.inst.case: out.append((p.name, p.t))
        return [(n, l) for n, l in out if n not in self.inst.case]

    def run(self, vals):
        """vals: name -> python number (already representable). Returns env with inputs and outputs, or None."""
        lib = self.u.native()
        fn = getattr(lib, 'W_' + self.c.name)
        fn.restype = None
        env = dict(vals)
        args = []; bufs = {}; holes = {}
        def block(n):
            # 64 guard bytes on either side
            b = ctypes.create_string_buffer(b'\xa5' * (n + 128), n + 128); return b
        at = lambda b: ctypes.c_void_p(ctypes.addressof(b) + 64)
        ct = ctypes.c_float if self.u.bits == 32 else ctypes.c_double
        def leafval(nm, lt_):
            if nm in self.inst.case: return self.inst.case[nm]
            if lt_ in FLAGSETS:
                return sum(v for n, v in FLAGSETS[lt_].items() if vals.get('%s:%s' % (nm, n)))
            return vals.get(nm, 0)
        for p in self.c.params:
            if p.name in self.aliasmap:
                args.append(at(bufs[self.aliasmap[p.name]])); continue
            if p.arr:
                n = self.cnt(p); es = self.u.size(p.t); sd = self.stride(p)
                b = block(max(0, (n - 1) * sd + es) if n else 0)
                hole = set(range(len(b))); holes[p.name] = hole
                for i in range(n): hole -= set(range(64 + i * sd, 64 + i * sd + es))
                for i in range(n):
                    for off, path, lt_ in self.u.cells(p.t): self.enc(b, 64 + i * sd + off, lt_, leafval('%s[%d]%s' % (p.name, i, '.' + path if path else ''), lt_))
                bufs[p.name] = b; args.append(at(b))
            elif p.t in TYPES or p.mut:
                b = block(self.u.size(p.t)); holes[p.name] = set(range(64)) | set(range(64 + self.u.size(p.t), len(b)))
                for off, path, lt_ in self.u.cells(p.t): self.enc(b, 64 + off, lt_, leafval(p.name + ('.' + path if path else ''), lt_))
                bufs[p.name] = b; args.append(at(b))
            else:
                v = self.inst.case.get(p.name, vals.get(p.name, 0))
                if p.t == 'R': args.append(ct(float(v)))
                elif p.t == 'B': args.append(ctypes.c_bool(bool(v)))
                elif p.t == 'sz': args.append(ctypes.c_size_t(int(v)))
                elif p.t == 'i': args.append(ctypes.c_int(int(v)))
                else: args.append(ctypes.c_uint(int(v)))
        ob = None
        if self.rt:
            ob = block(self.u.size(self.rt)); args.append(at(ob))
        fn(*args)
        def read(b, t, prefix, base=0):
            for off, path, lt_ in self.u.cells(t):
                nm = prefix + ('.' + path if path else '')
                v = self.dec(b, 64 + base + off, lt_)
                if lt_ in FLAGSETS:
                    for n, bv in FLAGSETS[lt_].items(): env['%s:%s' % (nm, n)] = bool(v & bv)
                env[nm] = v
        for p in self.c.params:
            if p.name in bufs:
                if p.arr:
                    sd = self.stride(p)
                    for i in range(self.cnt(p)): read(bufs[p.name], p.t, 'post:%s[%d]' % (p.name, i), i * sd)
                else: read(bufs[p.name], p.t, 'post:' + p.name)
        if ob is not None: read(ob, self.rt, 'out')
        env['!stray'] = [nm for nm, h in holes.items() if any(bufs[nm].raw[k] != 0xa5 for k in h)]
        env['MAX_REAL'] = mpf(3.4028234663852886e38) if self.u.bits == 32 else mpf(1.7976931348623157e308)
        return env

    def admissible(self, env):
        ev = Ev(env, self.tol * 4)
        try:
            for r in self.req:
                x = ev.b(r)
                if x is not True: return False
        except (Bad, ZeroDivisionError, ValueError, OverflowError): return False
        return True

    def judge(self, env, safety=False):
        """[(clause, detail)] of definitely violated clauses"""
        if env.get('!stray'): return [('memory', 'bytes outside the elements of %s were written' % ', '.join(env['!stray']))]
        ins = [v for k, v in env.items() if not k.startswith(('post:', 'out', 'MAX', '!')) and isinstance(v, (int, float)) and not isinstance(v, bool)]
        nice = all(math.isfinite(v) and abs(v) <= 64 and v * 16 == int(v * 16) for v in ins)
        ev = Ev(env, self.tol, judge=True, nice=nice)
        bad = []
        for lab, t in self.ens:
            try: x = ev.b(t)
            except (Bad, ZeroDivisionError, ValueError, OverflowError) as ex:
                if 'non-finite' in str(ex) and self.c.opts.get('div0', 'prove') == 'prove':
                    bad.append((lab, 'result is not finite: %s' % ex))
                continue
            if x is False: bad.append((lab, show(t, 6)))
        return bad

    GRID = [0, 1, -1, 2, -2, 0.5, -0.5, 3, -3, 0.25, 4, 1.5, -1.5, 10, 0.125]
    def sample(self, rng, mode):
        vals = {}
        reals = []
        for n, l in self.invars():
            if l == 'R':
                k = rng.random()
                if mode == 0 or (mode == 2 and k < 0.5): v = rng.choice(self.GRID)
                elif mode == 3 and reals and k < 0.4: v = vals[rng.choice(reals)]
                elif mode == 4: v = rng.uniform(-1, 1)
                elif mode == 5: v = rng.choice([0, 0, 0, 1, -1, rng.uniform(-2, 2)])
                else: v = rng.uniform(-4, 4)
                v = f32(v) if self.u.bits == 32 else v
                vals[n] = v; reals.append(n)
            elif l == 'B': vals[n] = rng.random() < 0.5
            elif l in FLAGSETS:
                for b in FLAGSETS[l]: vals['%s:%s' % (n, b)] = False
            elif l in K.ENUMS: vals[n] = rng.choice(list(K.ENUMS[l][1].values()))
            else: vals[n] = rng.randint(0, 6)
        def samp(t, prefix):
            if t in K.SAMPLERS and rng.random() < 0.9: K.SAMPLERS[t](vals, prefix, rng)
            elif t in TYPES:
                for f, ft in TYPES[t][1]: samp(ft, prefix + '.' + f)
        for p in self.c.params:
            if p.name in self.aliasmap or p.name in self.c.opts.get('uninit', ()): continue
            if p.arr:
                for i in range(self.cnt(p) or 0): samp(p.t, '%s[%d]' % (p.name, i))
            else: samp(p.t, p.name)
        for n in vals:
            if isinstance(vals[n], float) and self.u.bits == 32: vals[n] = f32(vals[n])
        fix = self.c.opts.get('fix')
        if fix:
            am = self.aliasmap; back = {}
            for a in am:
                b = am[a]
                for k in list(vals):
                    if k == b or k.startswith(b + '.'): back[a + k[len(b):]] = k; vals[a + k[len(b):]] = vals[k]
            fix(vals, rng)
            for a, b in back.items():
                x = vals.pop(a)
                vals[b] = x
            for n in vals:
                if isinstance(vals[n], float) and self.u.bits == 32: vals[n] = f32(vals[n])
        return vals

    def search(self, rng, n, seeds=(), limit=120):
        """look for an admissible input on which the real code violates the contract; runs in a child process, so that a crash is a finding too"""
        import os, pickle, mmap, signal, time
        self.u.native()
        note = mmap.mmap(-1, 1 << 16)
        r, w = os.pipe(); st = rng.getstate()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r); self.note = note
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                out = self.search_here(rng, n, seeds)
                b = pickle.dumps((out, rng.getstate()))
                with os.fdopen(w, 'wb') as f: f.write(b)
                code = 0
            except BaseException as ex:
                try:
                    with os.fdopen(w, 'wb') as f: f.write(pickle.dumps((repr(ex), None)))
                    code = 0
                except BaseException: pass
            finally: os._exit(code)
        os.close(w)
        import select
        data = b''; t0 = time.time(); late = False
        while True:
            x, _, _ = select.select([r], [], [], 5)
            if x:
                k = os.read(r, 1 << 16)
                if not k: break
                data += k
            elif time.time() - t0 > limit:
                late = True; os.kill(pid, signal.SIGKILL); break
        os.close(r)
        _, status = os.waitpid(pid, 0)
        k = int.from_bytes(note[:4], 'little')
        busy = note[4]
        vals, tried = pickle.loads(note[8:8 + k]) if k else (None, 0)
        note.close()
        if data:
            try: out, st = pickle.loads(data)
            except Exception: out = None
            if isinstance(out, str): raise RuntimeError(out)
            if out is not None:
                rng.setstate(st); return out
        if os.WIFSIGNALED(status) and vals is not None and busy:
            sig = os.WTERMSIG(status)
            if late: return tried, vals, dict(vals), [('terminates', 'no result after %d s' % limit)]
            if sig in (4, 6, 7, 8, 11): return tried, vals, dict(vals), [('no-crash', 'killed by signal %d' % sig)]
        return tried, None, None, None

    def search_here(self, rng, n, seeds=()):
        import pickle
        tried = 0
        import itertools
        gens = itertools.chain((dict(s) for s in seeds), (self.sample(rng, k % 6) for k in range(n)))
        for vals in gens:
            pre = dict(vals); pre['MAX_REAL'] = mpf(3.4028234663852886e38) if self.u.bits == 32 else mpf(1.7976931348623157e308)
            if not self.admissible(pre): continue
            tried += 1
            b = pickle.dumps((vals, tried))
            if len(b) < (1 << 16) - 8: self.note[0:4] = len(b).to_bytes(4, 'little'); self.note[8:8 + len(b)] = b; self.note[4] = 1
            env = self.run(vals)
            self.note[4] = 0
            bad = self.judge(env)
            if bad: return tried, vals, env, bad
        return tried, None, None, None

def model_values(rep, model, enc):
    """z3 model -> input valuation"""
    import z3
    out = {}
    for n, l in rep.invars():
        if l in FLAGSETS:
            for b in FLAGSETS[l]:
                v = model.eval(z3.Bool('v_%s:%s' % (n, b)), model_completion=True)
                out['%s:%s' % (n, b)] = z3.is_true(v)
            continue
        if l == 'B':
            out[n] = z3.is_true(model.eval(z3.Bool('v_' + n), model_completion=True)); continue
        if l == 'R':
            v = model.eval(z3.Real('v_' + n), model_completion=True)
            try:
                if z3.is_rational_value(v): x = float(Fr(v.numerator_as_long(), v.denominator_as_long()))
                else: x = float(v.approx(20).as_fraction())
            except Exception: x = 0.0
            if not math.isfinite(x): x = 0.0
            try: out[n] = f32(x) if rep.u.bits == 32 else x
            except OverflowError: out[n] = 0.0
        else:
            v = model.eval(z3.Int('v_' + n), model_completion=True)
            out[n] = v.as_long()
    return out
