"""Symbolic execution of LLVM IR over mathematical reals/integers, path by path, with calls replaced by
contracts where the callee has one (modular), and inlined otherwise."""
import struct
from fractions import Fraction as Fr
import ir
from math import gcd
from terms import *

class Unsupported(Exception): pass
class Infeasible(Exception): pass

class Undef:
    __slots__ = ('t',)
    def __init__(self, t=None): self.t = t
    def __repr__(self): return 'undef'
UNDEF = Undef()

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off=0): self.obj = obj; self.off = off
    def __repr__(self): return '&%s+%s' % (self.obj, self.off)
    def __eq__(self, o): return isinstance(o, Ptr) and self.obj == o.obj and (self.off is o.off or self.off == o.off)
    def __hash__(self): return hash((self.obj, str(self.off)))
class PtrIte:
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b
class FnPtr:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
NULL = Ptr(None, 0)

class Obj:
    """kind: 'cells' (finite) or 'array' (unbounded sequence of elements, symbolic index)"""
    __slots__ = ('id', 'size', 'kind', 'name', 'info', 'frame')
    def __init__(self, id, size, kind='cells', name='', info=None):
        self.id = id; self.size = size; self.kind = kind; self.name = name; self.info = info; self.frame = None

class State:
    __slots__ = ('mem', 'own', 'pc', 'obl', 'trace', 'heap', 'freed', 'sk', 'dem')
    def __init__(self):
        self.mem = {}; self.own = set(); self.pc = (); self.obl = (); self.trace = (); self.heap = (); self.freed = frozenset()
        self.sk = (); self.dem = frozenset()
    def fork(self):
        s = State(); s.mem = dict(self.mem); s.own = set(); self.own = set()
        s.pc = self.pc; s.obl = self.obl; s.trace = self.trace; s.heap = self.heap; s.freed = self.freed; s.sk = self.sk; s.dem = self.dem
        return s
    def cells(self, o): return self.mem[o]
    def wcells(self, o):
        if o not in self.own:
            self.mem[o] = dict(self.mem[o]); self.own.add(o)
        return self.mem[o]
    def assume(self, c):
        if c is TRUE or c is True: return
        if c is FALSE or c is False: raise Infeasible()
        self.pc = self.pc + (c,)

def shortest_rational(v, bits):
    if v != v or v in (float('inf'), float('-inf')): raise Unsupported('non-finite constant')
    if v == int(v) and abs(v) < 2 ** 53: return Fr(int(v))
    if bits == 32:
        import numpy as np
        return Fr(np.format_float_positional(np.float32(v), unique=True, trim='-'))
    return Fr(repr(v))

import math
def _f32(v): return struct.unpack('f', struct.pack('f', v))[0]
PIMULT = [Fr(1), Fr(2), Fr(1, 2), Fr(1, 4), Fr(1, 8), Fr(1, 16), Fr(1, 3), Fr(1, 6), Fr(3, 2), Fr(1, 180), Fr(2, 3), Fr(4), Fr(1, 360), Fr(5,3)]
INVPI = [Fr(180), Fr(1), Fr(2), Fr(1, 2), Fr(360), Fr(3), Fr(6)]
FLT_MAX = _f32(3.4028234663852886e38); DBL_MAX = 1.7976931348623157e308
def fconst(v, bits, real):
    """Machine constant -> term, as the mathematical constant the source wrote."""
    a = abs(v)
    if a == 0: return num(0)
    if (bits == 32 and a == FLT_MAX) or (bits == 64 and a == DBL_MAX):
        return MAXV if v > 0 else neg(MAXV)
    if a != int(a):
        for k in PIMULT:
            w = math.pi * k.numerator / k.denominator
            if (bits == 32 and _f32(w) == a) or (bits == 64 and abs(w - a) <= 3e-9 * w):
                t = mul(num(k), PI); return t if v > 0 else neg(t)
        for k in INVPI:
            w = float(k) / math.pi
            if (bits == 32 and _f32(w) == a) or (bits == 64 and w == a):
                t = div(num(k), PI); return t if v > 0 else neg(t)
    return num(shortest_rational(v, bits))

EXT_REAL1 = {'sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'floor', 'ceil', 'trunc', 'exp2', 'log2', 'round', 'cbrt', 'log10'}
EXT_REAL2 = {'pow', 'atan2', 'fmod', 'hypot', 'fmin', 'fmax', 'copysign', 'ldexp'}

class Ctx:
    """Execution context for one function under contract."""
    def __init__(self, mod, real_bits, feasible, contracts=None, options=None):
        self.mod = mod; self.bits = real_bits
        self.feasible = feasible            # (pc, cond) -> bool (False only when proved infeasible)
        self.contracts = contracts or {}    # mangled -> applier
        self.objs = {}
        self.nobj = 0
        self.opts = options or {}
        self.inlined = set(); self.called = set(); self.externals = set()
        self.steps = 0
        self.maxsteps = self.opts.get('maxsteps', 3000000)
        self.maxpaths = self.opts.get('maxpaths', 6000)
        self.npaths = 0
        self.div0 = self.opts.get('div0', 'prove')
        self.globmem = {}; self.badglob = frozenset()
        self.rootdepth = 0 if self.opts.get('outer') else 1
        self.concrete = False
        self.merge = self.opts.get('merge', True)
        self.notes = []
        self.dead = []

    # ---- objects
    def newobj(self, size, kind='cells', name='', info=None):
        self.nobj += 1
        o = Obj('%s#%d' % (name or 'o', self.nobj), size, kind, name, info)
        self.objs[o.id] = o
        return o.id

    # ---- operands
    def val(self, op, regs, st):
        k = op[0]
        if k == 'loc':
            try: return regs[op[1]]
            except KeyError: raise Unsupported('use of undefined register')
        if k == 'ci': return op[1]
        if k == 'cf': return fconst(op[1], op[2], self.bits)
        if k == 'null': return NULL
        if k == 'undef': return self.undef(op[1])
        if k == 'zero': return self.zero(op[1])
        if k == 'agg': return [self.val(o, regs, st) for o in op[2]]
        if k == 'glob': return Ptr(self.globobj(op[1], st), 0)
        if k == 'fn': return FnPtr(op[1])
        if k == 'cgep':
            b = self.val(op[1], regs, st); return Ptr(b.obj, b.off + op[2])
        if k == 'blk': return op
        raise Unsupported('operand %s' % (op,))

    def undef(self, t):
        if t[0] in ('vec', 'arr'): return [self.undef(t[2]) for _ in range(t[1])]
        if t[0] == 'st': return [self.undef(e) for e in t[1]]
        return UNDEF
    def zero(self, t):
        if t[0] in ('vec', 'arr'): return [self.zero(t[2]) for _ in range(t[1])]
        if t[0] == 'st': return [self.zero(e) for e in t[1]]
        if t[0] == 'f': return num(0)
        if t[0] == 'ptr': return NULL
        return 0

    def globobj(self, name, st):
        oid = '@' + name
        if oid in self.badglob: raise Unsupported('constant %s has no evaluated initialiser' % name)
        if oid not in st.mem:
            if oid in self.globmem:
                st.mem[oid] = self.globmem[oid]; return oid
            g = self.mod.globals[name]
            self.objs[oid] = Obj(oid, ir.sizeof(g['ty']), 'cells', name)
            cells = {}
            if g['init'] is not None:
                self.flat(g['ty'], self.val(g['init'], {}, st), 0, cells)
            st.mem[oid] = cells; st.own.add(oid)
        return oid

    def flat(self, t, v, off, cells):
        if t[0] in ('vec', 'arr'):
            s = ir.sizeof(t[2])
            for i in range(t[1]): self.flat(t[2], v[i] if isinstance(v, list) else UNDEF, off + i * s, cells)
        elif t[0] == 'st':
            for i, e in enumerate(t[1]): self.flat(e, v[i] if isinstance(v, list) else UNDEF, off + ir.stoff(t, i), cells)
        else:
            cells[off] = (v, t)

    # ---- memory
    def store(self, st, p, v, t):
        if isinstance(p, PtrIte):
            old_a = self.load(st, p.a, t); old_b = self.load(st, p.b, t)
            self.store(st, p.a, self.vite(p.c, v, old_a), t)
            # p.b may alias p.a only if equal
            self.store(st, p.b, self.vite(p.c, self.load(st, p.b, t) if p.a == p.b else old_b, v), t)
            return
        if not isinstance(p, Ptr): raise Unsupported('store through %r' % (p,))
        if p.obj is None: self.fail(st, 'null-deref'); raise Infeasible()
        if p.obj in st.freed: self.fail(st, 'use-after-free'); raise Infeasible()
        o = self.objs[p.obj]
        if o.kind == 'array':
            return self.array_store(st, o, p, v, t)
        if isinstance(p.off, T): raise Unsupported('symbolic offset store into %s' % o.id)
        sz = ir.sizeof(t)
        if p.off < 0 or (o.size is not None and p.off + sz > o.size):
            self.fail(st, 'memory-bounds'); raise Infeasible()
        tmp = {}
        self.flat(t, v, p.off, tmp)
        cells = st.wcells(p.obj)
        for off, (x, ty) in tmp.items():
            # coerced scalars (e.g. i64 carrying two floats) are composite lists
            if isinstance(x, Comp):
                for (o2, xv, xt) in x.parts: self.put(cells, off + o2, xv, xt)
            else: self.put(cells, off, x, ty)

    def put(self, cells, off, x, ty):
        sz = ir.sizeof(ty)
        old = cells.get(off)
        if old is not None and ir.sizeof(old[1]) == sz:
            cells[off] = (x, ty); return
        for o2 in [o2 for o2, (v, t2) in cells.items() if o2 < off + sz and o2 + ir.sizeof(t2) > off]:
            t2 = cells[o2][1]
            if o2 < off or o2 + ir.sizeof(t2) > off + sz:
                v2 = cells[o2][0]
                if v2 is UNDEF: del cells[o2]; continue
                if isinstance(v2, (int, bool)) and isinstance(x, (int, bool)) and o2 <= off and t2[0] == 'i' and ty[0] == 'i':
                    sh = 8 * (off - o2); m = ((1 << (8 * sz)) - 1) << sh
                    cells[o2] = ((int(v2) & ~m) | ((int(x) << sh) & m), t2); return
                if isinstance(v2, Comp):
                    raise Unsupported('partial overwrite of a composite')
                raise Unsupported('partial overwrite')
            del cells[o2]
        cells[off] = (x, ty)

    def load(self, st, p, t):
        if isinstance(p, PtrIte):
            return self.vite(p.c, self.load(st, p.a, t), self.load(st, p.b, t))
        if not isinstance(p, Ptr): raise Unsupported('load through %r' % (p,))
        if p.obj is None: self.fail(st, 'null-deref'); raise Infeasible()
        if p.obj in st.freed: self.fail(st, 'use-after-free'); raise Infeasible()
        o = self.objs[p.obj]
        if o.kind == 'array': return self.array_load(st, o, p, t)
        if isinstance(p.off, T): raise Unsupported('symbolic offset load from %s' % o.id)
        sz = ir.sizeof(t)
        if p.off < 0 or (o.size is not None and p.off + sz > o.size):
            self.fail(st, 'memory-bounds'); raise Infeasible()
        return self.ld(st, p.obj, p.off, t)

    def ld(self, st, oid, off, t):
        if t[0] in ('vec', 'arr'):
            s = ir.sizeof(t[2]); return [self.ld(st, oid, off + i * s, t[2]) for i in range(t[1])]
        if t[0] == 'st':
            return [self.ld(st, oid, off + ir.stoff(t, i), e) for i, e in enumerate(t[1])]
        cells = st.mem[oid]
        c = cells.get(off)
        if c is not None and c[1] == t: return c[0]
        sz = ir.sizeof(t)
        if c is not None and ir.sizeof(c[1]) == sz:
            v, ct = c
            if ct[0] == 'i' and t[0] == 'i': return v
            if isinstance(v, Comp) and t[0] == 'f' and len(v.parts) == 1: return v.parts[0][1]
            if v is UNDEF: return UNDEF
            if t[0] == 'i' : return Comp([(0, v, ct)], sz)
            if isinstance(v, int) and v == 0: return self.zero(t)
            raise Unsupported('type-punned load')
        parts = [(o2 - off, v, ct) for o2, (v, ct) in sorted(cells.items()) if o2 < off + sz and o2 + ir.sizeof(ct) > off]
        if not parts: return UNDEF
        if any(o2 < 0 or o2 + ir.sizeof(ct) > sz for o2, v, ct in parts):
            if c is not None and t[0] == 'i' and c[1][0] == 'i' and isinstance(c[0], int):
                return c[0] & ((1 << (8 * sz)) - 1)
            raise Unsupported('partial load')
        if t[0] == 'i': return Comp(parts, sz)
        raise Unsupported('composite load as %s' % (t,))

    def memcpy(self, st, d, s, n):
        if isinstance(d, Ptr) and isinstance(s, Ptr) and d.obj and s.obj and self.objs[d.obj].kind == 'cells' and self.objs[s.obj].kind == 'cells' and not isinstance(d.off, T) and not isinstance(s.off, T):
            for p in (d, s):
                o = self.objs[p.obj]
                if p.off < 0 or (o.size is not None and p.off + n > o.size): self.fail(st, 'memory-bounds'); raise Infeasible()
            src = [(o - s.off, c) for o, c in st.mem[s.obj].items() if s.off <= o < s.off + n]
            cells = st.wcells(d.obj)
            have = set()
            for o, c in src: have.update(range(o, o + ir.sizeof(c[1])))
            for o2 in [o2 for o2, (v, t2) in cells.items() if o2 < d.off + n and o2 + ir.sizeof(t2) > d.off]: del cells[o2]
            for o, c in src: cells[d.off + o] = c
            return
        if isinstance(s, PtrIte) or isinstance(d, PtrIte):
            raise Unsupported('memcpy via conditional pointer')
        # arrays: element-wise through the element layout
        for p in (s, d):
            o = self.objs[p.obj]
            if o.kind == 'array':
                base, lay = self.elem_layout(o, p)
                for off, t in lay:
                    if 0 <= off - base < n or (base == 0 and off < n):
                        v = self.load(st, Ptr(s.obj, s.off + (off - base)), t)
                        self.store(st, Ptr(d.obj, d.off + (off - base)), v, t)
                return
        raise Unsupported('memcpy')

    # ---- unbounded arrays: object info = dict(stride=T or int, fields={off:(name,ty)}, n=T)
    def split_index(self, o, off):
        """offset -> (index term, field offset) for an affine offset stride*k + c."""
        from ring import Ring
        R = self.idxring = getattr(self, 'idxring', None) or Ring()
        off = lift(off, 'I'); stride = lift(o.info['stride'], 'I')
        p, d = R.rf(off); s, _ = R.rf(stride)
        fields = o.info['fields']
        if len(s) == 1 and () in s:
            S = s[()]
            c = p.get((), 0)
            q = {}
            for m, k in p.items():
                if m == (): continue
                if k % S: raise Unsupported('non-multiple array offset')
                q[m] = k // S
            fo = c % S; q0 = (c - fo) // S
            if q0: q[()] = q0
        else:
            (sm, sc), = s.items()
            q = {}; fo = 0
            from ring import mdiv
            for m, k in p.items():
                if m == (): fo = k; continue
                r = mdiv(m, sm)
                if r is None: raise Unsupported('array offset is not stride*index+field: %s' % show(off))
                q[r] = k // sc
        idx = num(0, 'I')
        for m, k in sorted(q.items()):
            t = num(k, 'I')
            for a, e in m:
                kind = R.kind[a]
                for _ in range(e): t = mul(t, kind[1])
            idx = add(idx, t)
        return idx, int(fo)

    def elem_layout(self, o, p):
        idx, fo = self.split_index(o, p.off)
        return fo, sorted((off, ty) for off, (nm, ty) in o.info['fields'].items())

    def array_load(self, st, o, p, t):
        if t[0] in ('vec', 'arr'):
            s = ir.sizeof(t[2]); return [self.array_load(st, o, Ptr(p.obj, p.off + i * s), t[2]) for i in range(t[1])]
        if t[0] == 'st':
            return [self.array_load(st, o, Ptr(p.obj, p.off + ir.stoff(t, i)), e) for i, e in enumerate(t[1])]
        idx, fo = self.split_index(o, p.off)
        f = o.info['fields'].get(fo)
        if f is None or (ir.sizeof(f[1]) != ir.sizeof(t)): 
            if f is not None and t == ('i', 64):
                g = o.info['fields'].get(fo + 4)
                if g is not None:
                    return Comp([(0, self.array_load(st, o, p, f[1]), f[1]), (4, self.array_load(st, o, Ptr(p.obj, p.off + 4), g[1]), g[1])], 8)
            raise Unsupported('array field at %d of %s' % (fo, o.id))
        n = o.info.get('n')
        if n is not None:
            self.oblige(st, 'array-bounds', And(le(num(0, 'I'), idx), lt(idx, lift(n, 'I'))))
        return self.array_read(st, o, fo, idx)

    def array_read(self, st, o, fo, idx):
        v = self.array_at(o, st.mem[o.id].get('base', 0), o.info['fields'][fo][0], idx)
        for e in st.mem[o.id].get('log', ()):
            if isinstance(e, loops.Range):
                if e.fo == fo: v = loops.read(self, st, e, idx, v)
                continue
            sidx, sfo, sv = e
            if sfo == fo and v is not sv:
                c = eq(sidx, idx)
                if c is not TRUE and not self.feasible(st.pc, c): continue
                v = sv if c is TRUE or not self.feasible(st.pc, Not(c)) else ite(c, sv, v)
        return v

    def array_at(self, o, version, field, idx):
        return mk('app', (idx,), 'R', 'arr:%s@%s.%s' % (o.name, version, field))

    def array_store(self, st, o, p, v, t):
        if t[0] in ('vec', 'arr'):
            s = ir.sizeof(t[2])
            for i in range(t[1]): self.array_store(st, o, Ptr(p.obj, p.off + i * s), v[i], t[2])
            return
        if isinstance(v, Comp):
            for o2, x, xt in v.parts: self.array_store(st, o, Ptr(p.obj, p.off + o2), x, xt)
            return
        idx, fo = self.split_index(o, p.off)
        f = o.info['fields'].get(fo)
        if f is None or ir.sizeof(f[1]) != ir.sizeof(t): raise Unsupported('array store field')
        n = o.info.get('n')
        if n is not None:
            self.oblige(st, 'array-bounds', And(le(num(0, 'I'), idx), lt(idx, lift(n, 'I'))))
        if v is UNDEF: v = fresh('uninit')
        c = st.wcells(o.id)
        c['log'] = c.get('log', ()) + ((idx, fo, v),)

    # ---- misc
    def fail(self, st, what):
        st.obl = st.obl + ((what, FALSE, len(st.pc)),)
    def oblige(self, st, what, cond):
        if cond is TRUE: return
        st.obl = st.obl + ((what, cond, len(st.pc)),)
        st.assume(cond) if cond is not FALSE else None

    def vite(self, c, a, b):
        if a is b: return a
        if isinstance(a, list) and isinstance(b, list): return [self.vite(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, (Ptr, PtrIte)) or isinstance(b, (Ptr, PtrIte)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a == b: return a
            return PtrIte(c, a, b)
        if a is UNDEF: a = fresh('uninit', b.sort if isinstance(b, T) else 'I')
        if b is UNDEF: b = fresh('uninit', a.sort if isinstance(a, T) else 'I')
        if isinstance(a, Comp) and isinstance(b, Comp) and [x[0] for x in a.parts] == [x[0] for x in b.parts]:
            return Comp([(o, self.vite(c, x, y), t) for (o, x, t), (_, y, _) in zip(a.parts, b.parts)], a.size)
        if isinstance(a, bool) or isinstance(b, bool):
            return ite(c, lift(bool(a)) if isinstance(a, (bool, int)) else a, lift(bool(b)) if isinstance(b, (bool, int)) else b)
        if isinstance(a, int) and isinstance(b, int):
            if a == b: return a
            return ite(c, num(a, 'I'), num(b, 'I'))
        if isinstance(a, int): a = lift(bool(a)) if isinstance(b, T) and b.sort == 'B' else num(a, 'I')
        if isinstance(b, int): b = lift(bool(b)) if isinstance(a, T) and a.sort == 'B' else num(b, 'I')
        return ite(c, a, b)

    def asR(self, v):
        if v is UNDEF: return fresh('uninit')
        if isinstance(v, T): return v
        if isinstance(v, Comp) and len(v.parts) == 1: return self.asR(v.parts[0][1])
        raise Unsupported('not a real: %r' % (v,))
    def asB(self, v):
        if v is UNDEF: return fresh('uninit', 'B')
        if isinstance(v, bool): return TRUE if v else FALSE
        if isinstance(v, int): return TRUE if v & 1 else FALSE
        if isinstance(v, T) and v.sort == 'B': return v
        if isinstance(v, T) and v.sort == 'I': return ne(v, num(0, 'I'))
        raise Unsupported('not a bool: %r' % (v,))

    # ---- calls
    def call(self, name, args, st, depth):
        """-> list of (state, value)"""
        fn = self.mod.funcs.get(name)
        if name in self.contracts and depth > self.rootdepth:
            r = self.contracts[name](self, args, st, fn)
            if r is not None:
                self.called.add(name)
                return r
        if fn is None or fn.decl:
            return [(st, self.external(name, args, st, fn))] if not isinstance(name, tuple) else None
        self.inlined.add(name)
        if depth > 60: raise Unsupported('recursion')
        self.mod.parse(fn)
        regs = dict(zip(fn.params, args))
        out = []
        frame = {'fn': fn, 'regs': regs, 'allocas': []}
        for s, kind, v in self.run(fn, regs, fn.entry, None, st, depth, None):
            if kind == 'dead': self.dead.append(s)
            else: out.append((s, v))
        return out

    def external(self, name, args, st, fn):
        n = name
        if n.startswith('llvm.'):
            b = n.split('.')[1]
            if b in ('lifetime', 'dbg', 'assume', 'experimental', 'donothing', 'invariant', 'stacksave', 'stackrestore'): return UNDEF
            if b in ('memcpy', 'memmove'):
                if not isinstance(args[2], int): raise Unsupported('memcpy with symbolic size')
                self.memcpy(st, args[0], args[1], args[2]); return UNDEF
            if b == 'memset':
                p, v, k = args[0], args[1], args[2]
                if not isinstance(k, int) or v != 0: raise Unsupported('memset')
                o = self.objs[p.obj]
                cells = st.wcells(p.obj)
                w = self.bits // 8
                for o2 in [o2 for o2, (x, t2) in cells.items() if p.off <= o2 < p.off + k]: del cells[o2]
                off = p.off
                while off < p.off + k:
                    if off + w <= p.off + k: cells[off] = (num(0), ('f', self.bits)); off += w
                    else: cells[off] = (0, ('i', 8)); off += 1
                return UNDEF
            if b == 'fabs': return Abs(self.asR(args[0])) if not isinstance(args[0], list) else [Abs(self.asR(x)) for x in args[0]]
            if b in ('fmuladd', 'fma'): return add(mul(self.asR(args[0]), self.asR(args[1])), self.asR(args[2]))
            if b in ('minnum', 'minimum'): return Min(self.asR(args[0]), self.asR(args[1]))
            if b in ('maxnum', 'maximum'): return Max(self.asR(args[0]), self.asR(args[1]))
            if b == 'copysign':
                x, y = self.asR(args[0]), self.asR(args[1]); return ite(lt(y, num(0)), neg(Abs(x)), Abs(x))
            if b in ('umin', 'smin', 'umax', 'smax') and all(isinstance(a, int) for a in args[:2]):
                return min(args[0], args[1]) if b.endswith('min') else max(args[0], args[1])
            if b in ('umin', 'smin', 'umax', 'smax'):
                a, c = lift(args[0], 'I'), lift(args[1], 'I')
                return Min(a, c) if b.endswith('min') else Max(a, c)
            if b in ('umul', 'smul', 'uadd', 'sadd') and all(isinstance(a, int) for a in args[:2]):
                w = 64 if n.endswith('64') else 32
                if b[0] == 's': raise Unsupported('intrinsic ' + n)
                r = args[0] * args[1] if 'mul' in b else args[0] + args[1]
                return [r & ((1 << w) - 1), r >> w != 0]
            if b in ('umul', 'uadd'):
                x, y = lift(args[0], 'I'), lift(args[1], 'I'); r = mul(x, y) if b == 'umul' else add(x, y)
                o = lt(num((1 << (64 if n.endswith('64') else 32)) - 1, 'I'), r)
                return [r, False if not self.feasible(st.pc, o) else o]
            if b == 'abs':
                if isinstance(args[0], int): 
                    raise Unsupported('iabs')
                return Abs(args[0])
            if b in EXT_REAL1 | EXT_REAL2: n = b
            elif b == 'trap': self.fail(st, 'trap'); raise Infeasible()
            else: raise Unsupported('intrinsic ' + n)
        base = n
        isf = False
        if n.endswith('f') and n[:-1] in EXT_REAL1 | EXT_REAL2 | {'fabs', 'frexp', 'modf'}:
            base = n[:-1]; isf = True
        self.externals.add(n)
        if base in ('fabs',):
            return self.narrow(Abs(self.asR(args[0])), isf)
        if base in EXT_REAL1:
            return self.narrow(self.real1(base, self.asR(args[0]), st), isf)
        if base in EXT_REAL2:
            return self.narrow(self.real2(base, self.asR(args[0]), self.asR(args[1]), st), isf)
        if n == '__assert_fail':
            self.fail(st, 'assertion'); raise Infeasible()
        if n in ('abort', '_ZSt9terminatev', '__cxa_pure_virtual'):
            self.fail(st, 'abort'); raise Infeasible()
        if n in ('__cxa_atexit',): return 0
        if n in ('_Znam', '_Znwm', 'malloc'):
            k = args[0]
            if not isinstance(k, int):
                w = self.bits // 8; c = self.exact_idiv(k, w)
                if c is None: raise Unsupported('allocation of symbolic size')
                self.oblige(st, 'allocation-size', And(le(num(0, 'I'), k), lt(k, num(1 << 40, 'I'))))
                from ring import Ring
                R = self.idxring = getattr(self, 'idxring', None) or Ring()
                p, _ = R.rf(k); g = gcd(*[int(x) for x in p.values()]) if p else 0
                # vectors of three, by the size of an element
                if g == 3 * w: o = self.newobj(None, 'array', 'heap', dict(stride=g, fields={i * w: ('xyz'[i], ('f', self.bits)) for i in range(3)}, n=self.exact_idiv(k, g), es=g))
                else: o = self.newobj(None, 'array', 'heap', dict(stride=w, fields={0: ('v', ('f', self.bits))}, n=c, es=w))
                self.objs[o].name = o; st.mem[o] = {'base': 0, 'log': ()}
                st.heap = st.heap + ((o, n),)
                return Ptr(o, 0)
            if k >= 1 << 40: self.fail(st, 'allocation-size'); raise Infeasible()
            o = self.newobj(k, name='heap'); st.mem[o] = {}; st.own.add(o)
            st.heap = st.heap + ((o, n),)
            return Ptr(o, 0)
        if n in ('_ZdaPv', '_ZdlPv', '_ZdaPvm', '_ZdlPvm', 'free'):
            p = args[0]
            if not isinstance(p, Ptr): raise Unsupported('delete of %r' % (p,))
            if p.obj is None: return UNDEF
            k = {'_ZdaPv': '_Znam', '_ZdaPvm': '_Znam', 'free': 'malloc'}.get(n, '_Znwm')
            if (p.obj, k) not in st.heap or p.off != 0: self.fail(st, 'delete-of-live-allocation'); raise Infeasible()
            st.heap = tuple(x for x in st.heap if x[0] != p.obj); st.mem.pop(p.obj, None); st.freed = st.freed | {p.obj}
            return UNDEF
        if n == 'rand':
            r = fresh('rand', 'I')
            st.assume(le(num(0, 'I'), r)); st.assume(le(r, num(2147483647, 'I')))
            return r
        raise Unsupported('external function ' + n)

    def narrow(self, t, isf):
        """a float-precision library routine used inside a double instantiation loses precision"""
        if isf and self.bits == 64 and t.op != 'num': return app('trunc32', t)
        return t

    def real1(self, f, x, st):
        zero = num(0); one = num(1)
        if f == 'sqrt':
            if x.op == 'num' and x.val < 0: self.fail(st, 'sqrt-defined')
            elif self.opts.get('sqrt', 'prove') == 'prove': self.oblige(st, 'sqrt-defined', le(zero, x))
            return sqrt(x)
        if f == 'sin': return sin(x)
        if f == 'cos': return cos(x)
        if f in ('asin', 'acos'):
            if x.op == 'num':
                if f == 'acos' and x.val in (1, -1): return zero if x.val == 1 else PI
                if f == 'asin' and x.val in (1, -1): return mul(num(Fr(1, 2)), PI) if x.val == 1 else neg(mul(num(Fr(1, 2)), PI))
            self.oblige(st, f + '-defined', And(le(num(-1), x), le(x, one)))
            return app(f, x)
        if f == 'floor' and x.op == 'num': return num(x.val.numerator // x.val.denominator)
        if f == 'tan':
            self.oblige(st, 'tan-defined', ne(cos(x), zero))
            return div(sin(x), cos(x))
        return app(f, x)

    def real2(self, f, x, y, st):
        if f == 'fmod':
            self.oblige(st, 'fmod-defined', ne(y, num(0)))
            return app('fmod', x, y)
        if f == 'atan2': return app('atan2', x, y)
        if f in ('fmin',): return Min(x, y)
        if f in ('fmax',): return Max(x, y)
        if f == 'copysign': return ite(lt(y, num(0)), neg(Abs(x)), Abs(x))
        return app(f, x, y)

    # ---- the interpreter: returns list of (state, 'ret', value) or (state, 'at', (block, prev, regs)) when stop reached
    def run(self, fn, regs, bid, prev, st, depth, stop, visits=None):
        out = []
        work = [(regs, bid, prev, st, visits or {})]
        while work:
            regs, bid, prev, st, visits = work.pop()
            try:
                while True:
                    if stop is not None and stop(bid):
                        out.append((st, 'at', (bid, prev, regs))); break
                    lps = ir.loop_info(fn)
                    if bid in lps:
                        if self.opts.get('symloops'):
                            r = loops.hook(self, fn, bid, prev, regs, st, depth, lps[bid])
                            if r is not None:
                                for (s2, b2, p2, regs2) in r:
                                    work.append((regs2, b2, p2, s2, dict(visits)))
                                break
                        visits = dict(visits); visits[bid] = visits.get(bid, 0) + 1
                        if visits[bid] > self.opts.get('unroll', 64): raise Unsupported('loop unrolling limit')
                    B = fn.blocks[bid]
                    # phis
                    newvals = []
                    i = 0
                    insts = B.insts
                    while i < len(insts) and insts[i].op == 'phi':
                        I = insts[i]
                        for o, pb in I.ops:
                            if pb == prev: newvals.append((I.id, self.val(o, regs, st))); break
                        else: raise Unsupported('phi')
                        i += 1
                    for k, v in newvals: regs[k] = v
                    nxt = None
                    while i < len(insts):
                        I = insts[i]; i += 1
                        self.steps += 1
                        if self.steps > self.maxsteps: raise Unsupported('step limit')
                        op = I.op
                        if op == 'ret':
                            out.append((st, 'ret', self.val(I.ops[0], regs, st) if I.ops else UNDEF)); nxt = 'done'; break
                        if op == 'br':
                            if len(I.ops) == 1: nxt = I.ops[0][1]; break
                            c = self.asB(self.val(I.ops[0], regs, st))
                            f_b, t_b = I.ops[1][1], I.ops[2][1]   # LLVM operand order: cond, false, true
                            r = self.branch(fn, regs, bid, st, c, t_b, f_b, depth, visits, work)
                            if r is None: nxt = 'done'
                            else: nxt = r
                            break
                        if op == 'switch':
                            v = self.val(I.ops[0], regs, st)
                            cases = [(I.ops[k], I.ops[k + 1][1]) for k in range(2, len(I.ops), 2)]
                            if isinstance(v, Comp): v = v.toint()
                            if isinstance(v, int):
                                nxt = I.ops[1][1]
                                for c, b in cases:
                                    if c[1] == v: nxt = b; break
                                break
                            if v is UNDEF: v = fresh('uninit', 'I')
                            rest = st
                            for c, b in cases:
                                cond = eq(v, num(c[1], 'I'))
                                if cond is TRUE or (cond is not FALSE and self.feasible(rest.pc, cond)):
                                    s2 = rest.fork()
                                    try: s2.assume(cond)
                                    except Infeasible: continue
                                    work.append((dict(regs), b, bid, s2, dict(visits)))
                                try: rest.assume(Not(cond))
                                except Infeasible: rest = None; break
                            if rest is None: nxt = 'done'; break
                            if not self.feasible(rest.pc, TRUE): nxt = 'done'; break
                            nxt = I.ops[1][1]; st = rest
                            break
                        if op == 'unreachable':
                            self.fail(st, 'unreachable'); out.append((st, 'dead', None)); nxt = 'done'; break
                        if op == 'call':
                            r = self.docall(I, regs, st, depth)
                            if r is None: continue
                            if len(r) == 0: nxt = 'done'; break
                            if len(r) == 1:
                                st, v = r[0]; regs[I.id] = v; continue
                            # fork: continue every path from the next instruction
                            conts = []
                            for s2, v in r:
                                rg = dict(regs); rg[I.id] = v
                                conts.append((rg, s2))
                            self.npaths += len(conts)
                            if self.npaths > self.maxpaths: raise Unsupported('path limit')
                            for rg, s2 in conts[1:]:
                                sub = self.resume(fn, rg, bid, prev, s2, depth, stop, visits, i)
                                out.extend(sub)
                            regs, st = conts[0]
                            continue
                        self.step(I, regs, st)
                    if nxt == 'done': break
                    if nxt is None: raise Unsupported('fell off block')
                    prev, bid = bid, nxt
            except Infeasible:
                out.append((st, 'dead', None))
        return out

    def resume(self, fn, regs, bid, prev, st, depth, stop, visits, i):
        """Continue in the middle of a block (after a forking call)."""
        B = fn.blocks[bid]
        nb = ir.Block(); nb.id = ('r', bid, i, id(st)); nb.insts = B.insts[i:]; nb.name = ''
        fn.blocks[nb.id] = nb
        out = []
        try:
            # execute through a private work list, keeping phi predecessors right
            out = self._run_from(fn, regs, nb, bid, prev, st, depth, stop, dict(visits))
        finally:
            del fn.blocks[nb.id]
        return out

    def _run_from(self, fn, regs, nb, realbid, prev, st, depth, stop, visits):
        res = []
        try:
            insts = nb.insts; i = 0; bid = realbid
            while True:
                I = insts[i]; i += 1
                op = I.op
                if op == 'ret': return [(st, 'ret', self.val(I.ops[0], regs, st) if I.ops else UNDEF)]
                if op == 'br':
                    if len(I.ops) == 1: return self.run(fn, regs, I.ops[0][1], bid, st, depth, stop, visits)
                    c = self.asB(self.val(I.ops[0], regs, st))
                    work = []
                    r = self.branch(fn, regs, bid, st, c, I.ops[2][1], I.ops[1][1], depth, visits, work)
                    if r is not None: res += self.run(fn, regs, r, bid, st, depth, stop, visits)
                    for (rg, b, p, s, v) in work: res += self.run(fn, rg, b, p, s, depth, stop, v)
                    return res
                if op == 'switch':
                    v = self.val(I.ops[0], regs, st)
                    if not isinstance(v, int): raise Unsupported('symbolic switch after forking call')
                    n = I.ops[1][1]
                    for k in range(2, len(I.ops), 2):
                        if I.ops[k][1] == v: n = I.ops[k + 1][1]; break
                    return self.run(fn, regs, n, bid, st, depth, stop, visits)
                if op == 'unreachable':
                    self.fail(st, 'unreachable'); return [(st, 'dead', None)]
                if op == 'call':
                    r = self.docall(I, regs, st, depth)
                    if r is None: continue
                    if not r: return res
                    for s2, v in r[1:]:
                        rg = dict(regs); rg[I.id] = v
                        n2 = ir.Block(); n2.id = None; n2.insts = insts[i:]; n2.name = ''
                        res += self._run_from(fn, rg, n2, realbid, prev, s2, depth, stop, dict(visits))
                    st, v = r[0]; regs = dict(regs); regs[I.id] = v
                    continue
                self.step(I, regs, st)
        except Infeasible:
            res.append((st, 'dead', None))
            return res

    def docall(self, I, regs, st, depth):
        callee = I.x
        if callee[0] == 'loc':
            v = regs.get(callee[1])
            if not isinstance(v, FnPtr): raise Unsupported('indirect call')
            name = v.name
        elif callee[0] == 'fn': name = callee[1]
        else: raise Unsupported('call %s' % (callee,))
        args = []
        for o in I.ops:
            if o[0] == 'unk': args.append(UNDEF)
            else: args.append(self.val(o, regs, st))
        if name.startswith('llvm.') and name.split('.')[1] in ('lifetime', 'dbg', 'experimental', 'donothing', 'assume'): return None
        r = self.call(name, args, st, depth + 1)
        return [(s, v) for s, v in r if v is not None or True] if not any(len(x) == 3 for x in r) else None

    def branch(self, fn, regs, bid, st, c, tb, fb, depth, visits, work):
        """Returns the next block, or None after pushing forks to work."""
        if c is TRUE: return tb
        if c is FALSE: return fb
        pcs = set(x.id for x in st.pc)
        if c.id in pcs: return tb
        if Not(c).id in pcs: return fb
        ft = self.feasible(st.pc, c)
        if not ft:
            st.assume(Not(c)); return fb
        ff = self.feasible(st.pc, Not(c))
        if not ff:
            st.assume(c); return tb
        if self.merge:
            r = self.trymerge(fn, regs, bid, st, c, tb, fb, depth, visits)
            if r is not None:
                s2, nb, pv, rg = r
                # continue at the join block; phis there were already resolved into rg via pseudo predecessor
                work.append((rg, nb, pv, s2, dict(visits)))
                return None
        self.npaths += 1
        if self.npaths > self.maxpaths: raise Unsupported('path limit')
        s2 = st.fork(); r2 = dict(regs)
        s2.assume(Not(c)); st.assume(c)
        work.append((r2, fb, bid, s2, dict(visits)))
        work.append((dict(regs), tb, bid, st, dict(visits)))
        return None

    def simple_side(self, fn, start, join, lim=3):
        """Blocks from start to join that are a straight line without calls to unknown functions."""
        b = start; chain = []
        while b != join:
            if len(chain) > lim: return None
            B = fn.blocks[b]
            t = B.insts[-1]
            if t.op != 'br' or len(t.ops) != 1: return None
            for I in B.insts:
                if I.op in ('call', 'phi', 'fdiv', 'alloca'): return None
            if b in ir.loop_info(fn): return None
            chain.append(b); b = t.ops[0][1]
        return chain

    def trymerge(self, fn, regs, bid, st, c, tb, fb, depth, visits):
        # join: find a block both sides reach in a straight line
        def line(b):
            seq = [b]
            while len(seq) < 4:
                t = fn.blocks[b].insts[-1]
                if t.op != 'br' or len(t.ops) != 1: break
                b = t.ops[0][1]; seq.append(b)
            return seq
        lt_, lf_ = line(tb), line(fb)
        join = next((b for b in lt_ if b in lf_), None)
        if join is None or join in ir.loop_info(fn): return None
        ct = self.simple_side(fn, tb, join); cf = self.simple_side(fn, fb, join)
        if ct is None or cf is None: return None
        def side(chain, cond):
            s = st.fork(); rg = dict(regs); p = bid
            for b in chain:
                for I in fn.blocks[b].insts[:-1]: self.step(I, rg, s)
                p = b
            return s, rg, p
        n0 = len(st.obl)
        try:
            s1, r1, p1 = side(ct, c); s0, r0, p0 = side(cf, Not(c))
        except (Unsupported, Infeasible): return None
        if len(s1.obl) != n0 or len(s0.obl) != n0: return None
        # merge memory
        for o in set(s1.mem) | set(s0.mem):
            a = s1.mem.get(o); b = s0.mem.get(o)
            if a is b: continue
            if a is None or b is None: return None
            if set(a) != set(b): return None
            for off in a:
                if off == 'log' or off == 'base':
                    if a[off] is not b[off]: return None
                    continue
                x, y = a[off], b[off]
                if x is y: continue
                if x[1] != y[1]: return None
                if x[0] is y[0]: continue
                if not (isinstance(x[0], T) and isinstance(y[0], T)): 
                    if isinstance(x[0], int) and isinstance(y[0], int) and x[0] == y[0]: continue
                    return None
        # phis of the join
        pv = ('m', bid)
        phis = {}
        for I in fn.blocks[join].insts:
            if I.op != 'phi': break
            v1 = next((self.val(o, r1, s1) for o, pb in I.ops if pb == p1), None)
            v0 = next((self.val(o, r0, s0) for o, pb in I.ops if pb == p0), None)
            if v1 is None or v0 is None: return None
            if v1 is v0: phis[I.id] = v1; continue
            if isinstance(v1, T) and isinstance(v0, T) and v1.sort in 'RB': phis[I.id] = ite(c, v1, v0)
            elif isinstance(v1, (bool,)) or isinstance(v0, bool) or (I.ty == ('i', 1)):
                phis[I.id] = self.vite(c, self.asB(v1), self.asB(v0))
            elif isinstance(v1, int) and isinstance(v0, int) and v1 == v0: phis[I.id] = v1
            elif isinstance(v1, Ptr) and isinstance(v0, Ptr) and v1 == v0: phis[I.id] = v1
            else: return None
        res = s0
        for o in s1.mem:
            a = s1.mem[o]; b = s0.mem.get(o)
            if a is b: continue
            w = res.wcells(o)
            for off in list(a):
                if off in ('log', 'base'): continue
                if a[off] is not b[off] and a[off][0] is not b[off][0]:
                    w[off] = (self.vite(c, a[off][0], b[off][0]), a[off][1])
        rg = dict(regs)
        rg.update({k: v for k, v in r0.items() if k in r1 and r1[k] is v})
        # resolve phis through a pseudo predecessor
        for I in fn.blocks[join].insts:
            if I.op != 'phi': break
            I.ops = [x for x in I.ops if x[1] != pv] + [(('loc', ('phi', I.id)), pv)]
            rg[('phi', I.id)] = phis[I.id]
        return res, join, pv, rg

    # ---- straight-line instructions
    def step(self, I, regs, st):
        op = I.op; ops = I.ops
        V = lambda k: self.val(ops[k], regs, st)
        if op == 'load':
            v = self.load(st, V(0), I.ty)
            if I.ty == ('i', 1) and isinstance(v, int): v = bool(v & 1)
            regs[I.id] = v; return
        if op == 'store':
            self.store(st, V(1), V(0), I.x); return
        if op == 'gep':
            regs[I.id] = self.gep(V(0), [self.val(o, regs, st) for o in ops[1:]], [o for o in ops[1:]], I.x); return
        if op == 'alloca':
            n = ops[0][1] if ops and ops[0][0] == 'ci' else 1
            o = self.newobj(ir.sizeof(I.x) * n, name='a')
            st.mem[o] = {}; st.own.add(o)
            regs[I.id] = Ptr(o, 0); return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = V(0), V(1)
            if isinstance(a, list): regs[I.id] = [self.farith(op, x, y, st) for x, y in zip(a, b)]
            else: regs[I.id] = self.farith(op, a, b, st)
            return
        if op == 'fneg':
            a = V(0)
            regs[I.id] = [neg(self.asR(x)) for x in a] if isinstance(a, list) else neg(self.asR(a)); return
        if op == 'fcmp':
            regs[I.id] = self.fcmp(I.x, self.asR(V(0)), self.asR(V(1))); return
        if op == 'icmp':
            regs[I.id] = self.icmp(I.x, V(0), V(1), I.x2, st); return
        if op == 'select':
            c = V(0)
            if isinstance(c, list): raise Unsupported('vector select')
            c = self.asB(c)
            if c is TRUE: regs[I.id] = V(1)
            elif c is FALSE: regs[I.id] = V(2)
            else:
                a, b = V(1), V(2)
                if I.ty == ('i', 1): a, b = self.asB(a), self.asB(b)
                regs[I.id] = self.vite(c, a, b)
            return
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            regs[I.id] = self.iarith(op, V(0), V(1), I.ty, st); return
        if op in ('zext', 'sext', 'trunc'):
            regs[I.id] = self.icast(op, V(0), I.x, I.ty); return
        if op == 'fpext': regs[I.id] = V(0); return
        if op == 'fptrunc':
            v = V(0)
            if self.bits == 64: regs[I.id] = [app('trunc32', self.asR(x)) for x in v] if isinstance(v, list) else (v if isinstance(v, T) and v.op == 'num' and v.val.denominator == 1 else app('trunc32', self.asR(v)))
            else: regs[I.id] = v
            return
        if op in ('sitofp', 'uitofp'):
            v = V(0)
            if isinstance(v, bool): v = int(v)
            if isinstance(v, int):
                w = I.x[1]
                if op == 'sitofp' and v >= 1 << (w - 1): v -= 1 << w
                regs[I.id] = num(v)
            elif isinstance(v, T) and v.sort == 'B': regs[I.id] = ite(v, num(-1 if op == 'sitofp' else 1), num(0))
            elif isinstance(v, T): regs[I.id] = i2r(v)
            else: regs[I.id] = fresh('uninit')
            if I.ty == ('f', 32) and self.bits == 64 and not isnum(regs[I.id]): regs[I.id] = app('trunc32', regs[I.id])
            return
        if op in ('fptosi', 'fptoui'):
            v = self.asR(V(0))
            if v.op == 'num':
                q = int(v.val); regs[I.id] = q & ((1 << I.ty[1]) - 1); return
            regs[I.id] = mk('r2i', (v,), 'I'); return
        if op == 'bitcast' or op == 'freeze':
            v = V(0)
            if op == 'bitcast' and I.ty[0] != (I.x or I.ty)[0]:
                if I.ty[0] == 'f' and isinstance(v, Comp) and len(v.parts) == 1: v = v.parts[0][1]
                elif I.ty[0] == 'vec' and isinstance(v, Comp): v = [p[1] for p in v.parts]
                elif I.ty[0] == 'ptr': pass
                else: raise Unsupported('bitcast')
            if op == 'freeze' and v is UNDEF:
                v = fresh('uninit', 'R' if I.ty[0] == 'f' else ('B' if I.ty == ('i', 1) else 'I'))
            regs[I.id] = v; return
        if op == 'extractelement': regs[I.id] = V(0)[V(1)]; return
        if op == 'insertelement':
            v = list(V(0)); v[V(2)] = V(1); regs[I.id] = v; return
        if op == 'shufflevector':
            a, b = V(0), V(1); n = len(a)
            regs[I.id] = [UNDEF if k < 0 else (a[k] if k < n else b[k - n]) for k in I.x]; return
        if op == 'extractvalue':
            v = V(0)
            for k in I.x: v = v[k]
            regs[I.id] = v; return
        if op == 'insertvalue':
            def ins(v, path, x):
                v = list(v)
                v[path[0]] = x if len(path) == 1 else ins(v[path[0]], path[1:], x)
                return v
            regs[I.id] = ins(V(0), I.x, V(1)); return
        if op == 'ptrtoint': regs[I.id] = V(0); return
        if op == 'inttoptr': regs[I.id] = V(0); return
        if op == 'fence': return
        raise Unsupported('instruction ' + op)

    def farith(self, op, a, b, st):
        a = self.asR(a); b = self.asR(b)
        if op == 'fadd': return add(a, b)
        if op == 'fsub': return sub(a, b)
        if op == 'fmul': return mul(a, b)
        if op == 'fdiv':
            if b.op == 'num' and b.val == 0 or self.div0 != 'prove':
                if b.op == 'num' and b.val != 0: return div(a, b)
                if self.div0 == 'prove': self.fail(st, 'division-by-zero'); return fresh('div0')
                if b.op == 'num': return fresh('div0')
                q = div(a, b)
                return ite(eq(b, num(0)), app('div0', a), q)
            if b.op != 'num' and not (b is PI): self.oblige(st, 'division-by-zero', ne(b, num(0)))
            return div(a, b)
        raise Unsupported(op)

    def fcmp(self, p, a, b):
        if p == 'true': return TRUE
        if p == 'false': return FALSE
        if p == 'ord': return TRUE
        if p == 'uno': return FALSE
        q = p[1:]
        return {'eq': lambda: eq(a, b), 'ne': lambda: ne(a, b), 'lt': lambda: lt(a, b), 'le': lambda: le(a, b),
                'gt': lambda: lt(b, a), 'ge': lambda: le(b, a)}[q]()

    def icmp(self, p, a, b, ty, st):
        if isinstance(a, (Ptr, PtrIte, FnPtr)) or isinstance(b, (Ptr, PtrIte, FnPtr)):
            if isinstance(a, PtrIte): return self.vite(a.c, self.asB(self.icmp(p, a.a, b, ty, st)), self.asB(self.icmp(p, a.b, b, ty, st)))
            if isinstance(b, PtrIte): return self.vite(b.c, self.asB(self.icmp(p, a, b.a, ty, st)), self.asB(self.icmp(p, a, b.b, ty, st)))
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj:
                    if not isinstance(a.off, T) and not isinstance(b.off, T):
                        x, y = a.off, b.off
                        return lift({'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[p])
                    x, y = lift(a.off, 'I'), lift(b.off, 'I')
                    return self.icmpT(p, x, y)
                if p == 'eq': return FALSE
                if p == 'ne': return TRUE
            raise Unsupported('pointer comparison')
        if isinstance(a, Comp): a = a.toint()
        if isinstance(b, Comp): b = b.toint()
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if ty == ('i', 1):
            a, b = self.asB(a), self.asB(b)
            if p == 'eq': return eq(a, b)
            if p == 'ne': return Not(eq(a, b))
            raise Unsupported('i1 compare')
        if a is UNDEF: a = fresh('uninit', 'I')
        if b is UNDEF: b = fresh('uninit', 'I')
        if isinstance(a, int) and isinstance(b, int):
            w = ty[1]
            if p[0] == 's':
                if a >= 1 << (w - 1): a -= 1 << w
                if b >= 1 << (w - 1): b -= 1 << w
            q = p[1:] if p not in ('eq', 'ne') else p
            return lift({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[q])
        if isinstance(a, T) and a.sort == 'B': a = ite(a, num(1, 'I'), num(0, 'I'))
        if isinstance(b, T) and b.sort == 'B': b = ite(b, num(1, 'I'), num(0, 'I'))
        def sg(x):
            if isinstance(x, int) and p[0] == 's' and x >= 1 << (ty[1] - 1): return x - (1 << ty[1])
            return x
        return self.icmpT(p, lift(sg(a), 'I'), lift(sg(b), 'I'))
    def icmpT(self, p, a, b):
        # distribute over ite with numeric leaves
        for x, y, fl in ((a, b, False), (b, a, True)):
            if x.op == 'ite' and y.op == 'num':
                f = (lambda u: self.icmpT(p, u, y)) if not fl else (lambda u: self.icmpT(p, y, u))
                return ite(x.args[0], f(x.args[1]), f(x.args[2]))
        q = p[1:] if p not in ('eq', 'ne') else p
        return {'eq': eq, 'ne': ne, 'lt': lt, 'le': le, 'gt': lambda x, y: lt(y, x), 'ge': lambda x, y: le(y, x)}[q](a, b)

    def iarith(self, op, a, b, ty, st):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == 'sub' and a.obj == b.obj:
            d = lift(a.off, 'I') - lift(b.off, 'I')
            return int(d.val) & ((1 << 64) - 1) if d.op == 'num' else d
        if isinstance(a, Comp): a = a.toint()
        if isinstance(b, Comp): b = b.toint()
        w = ty[1]
        if w == 1:
            a, b = self.asB(a), self.asB(b)
            if op == 'and': return And(a, b)
            if op == 'or': return Or(a, b)
            if op == 'xor': return Not(eq(a, b))
            raise Unsupported('i1 ' + op)
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        m = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            sa = a - (1 << w) if a >> (w - 1) else a
            sb = b - (1 << w) if b >> (w - 1) else b
            if op == 'add': return (a + b) & m
            if op == 'sub': return (a - b) & m
            if op == 'mul': return (a * b) & m
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & m
            if op == 'lshr': return a >> b
            if op == 'ashr': return (sa >> b) & m
            if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0: self.fail(st, 'integer-division-by-zero'); raise Infeasible()
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            if op == 'sdiv': return int(Fr(sa, sb).__trunc__()) & m
            if op == 'srem': return (sa - sb * int(Fr(sa, sb).__trunc__())) & m
        if a is UNDEF: a = fresh('uninit', 'I')
        if b is UNDEF: b = fresh('uninit', 'I')
        if isinstance(a, T) and a.sort == 'B': a = ite(a, num(1, 'I'), num(0, 'I'))
        if isinstance(b, T) and b.sort == 'B': b = ite(b, num(1, 'I'), num(0, 'I'))
        for x, y, fl in ((a, b, False), (b, a, True)):
            if isinstance(x, T) and x.op == 'ite' and isinstance(y, int):
                f = (lambda u: self.iarith(op, leafint(u), y, ty, st)) if not fl else (lambda u: self.iarith(op, y, leafint(u), ty, st))
                return self.vite(x.args[0], f(x.args[1]), f(x.args[2]))
        if isinstance(a, T) and isinstance(b, T) and a.op == 'ite' and b.op == 'ite':
            return self.vite(a.args[0], self.iarith(op, leafint(a.args[1]), b, ty, st), self.iarith(op, leafint(a.args[2]), b, ty, st))
        def sgn(x): return x - (1 << w) if isinstance(x, int) and x >> (w - 1) else x
        A = lift(sgn(a), 'I'); B = lift(sgn(b), 'I')
        if op == 'add': return add(A, B)
        if op == 'sub': return sub(A, B)
        if op == 'mul': return mul(A, B)
        if op == 'shl' and isinstance(b, int): return mul(A, num(1 << b, 'I'))
        if op in ('lshr', 'udiv', 'sdiv', 'ashr') and isinstance(b, int):
            # arithmetic on non-negative quantities
            d = (1 << b) if op in ('lshr', 'ashr') else b
            r = self.exact_idiv(A, d)
            if r is not None: return r
            if op == 'sdiv': return ite(le(num(0, 'I'), A), mk('idiv', (A, num(d, 'I')), 'I'), neg(mk('idiv', (neg(A), num(d, 'I')), 'I')))
            return mk('idiv', (A, num(d, 'I')), 'I')
        if op in ('and', 'urem', 'srem') and isinstance(b, int):
            d = b + 1 if op == 'and' else b
            if op == 'srem': return self.srem(A, num(sgn(b), 'I'))
            if op != 'and' or (b & (b + 1)) == 0:
                return mk('imod', (A, num(d, 'I')), 'I')
        if op == 'or':
            return mk('ior', (A, B), 'I')
        if op == 'and': return mk('iand', (A, B), 'I')
        if op == 'srem':
            self.oblige(st, 'integer-division-by-zero', ne(B, num(0, 'I')))
            return self.srem(A, B)
        raise Unsupported('symbolic integer ' + op)

    def srem(self, A, B):
        return ite(le(num(0, 'I'), A), mk('imod', (A, B), 'I'), neg(mk('imod', (neg(A), B), 'I')))

    def exact_idiv(self, A, d):
        from ring import Ring
        R = Ring()
        p, _ = R.rf(A)
        if any(Fr(c, d).denominator != 1 for c in p.values()): return None
        out = num(0, 'I')
        for m, c in sorted(p.items()):
            t = num(Fr(c, d), 'I')
            for a, e in m:
                for _ in range(e): t = mul(t, R.kind[a][1])
            out = add(out, t)
        return out

    def icast(self, op, v, t0, t1):
        if v is UNDEF: return UNDEF
        if isinstance(v, list): return [self.icast(op, x, t0[2], t1[2]) for x in v]
        if isinstance(v, Comp):
            if op == 'trunc':
                n = ir.sizeof(t1)
                ps = [p for p in v.parts if p[0] < n]
                if len(ps) == 1 and ps[0][2][0] == 'i' and ps[0][0] == 0 and ir.sizeof(ps[0][2]) == n: return ps[0][1]
                return Comp(ps, n)
            if op == 'zext' or op == 'sext': return Comp(v.parts, ir.sizeof(t1))
        if isinstance(v, bool): v = int(v)
        if isinstance(v, int):
            if op == 'sext' and v >> (t0[1] - 1) & 1: v -= 1 << t0[1]
            v &= (1 << t1[1]) - 1
            return bool(v) if t1 == ('i', 1) else v
        if v.sort == 'B':
            if op == 'zext': return ite(v, num(1, 'I'), num(0, 'I'))
            if op == 'sext': return ite(v, num(-1, 'I'), num(0, 'I'))
            return v
        if op == 'trunc' and t1 == ('i', 1):
            if v.op == 'ite': return ite(v.args[0], self.asB(self.icast(op, leafint(v.args[1]), t0, t1)), self.asB(self.icast(op, leafint(v.args[2]), t0, t1)))
            raise Unsupported('trunc to i1')
        if v.op == 'ite':
            return self.vite(v.args[0], self.icast(op, leafint(v.args[1]), t0, t1), self.icast(op, leafint(v.args[2]), t0, t1))
        return v

    def gep(self, p, idx, raw, t):
        if isinstance(p, PtrIte):
            return PtrIte(p.c, self.gep(p.a, idx, raw, t), self.gep(p.b, idx, raw, t))
        if not isinstance(p, Ptr): raise Unsupported('gep on %r' % (p,))
        off = p.off
        for k, i in enumerate(idx):
            w = raw[k][2] if raw[k][0] == 'ci' else 64
            if isinstance(i, bool): i = int(i)
            if isinstance(i, int):
                if raw[k][0] == 'ci':
                    if i >= 1 << (w - 1): i -= 1 << w
                elif i >= 1 << 63: i -= 1 << 64
            elif isinstance(i, T):
                if i.op == 'ite':
                    a = list(idx); b = list(idx); a[k] = leafint(i.args[1]); b[k] = leafint(i.args[2])
                    return PtrIte(i.args[0], self.gep(p, a, raw, t), self.gep(p, b, raw, t))
            else: raise Unsupported('gep index')
            if k == 0: s = ir.sizeof(t)
            elif t[0] == 'st':
                off = off + ir.stoff(t, i); t = t[1][i]; continue
            else:
                t = t[2]; s = ir.sizeof(t)
            d = i * s if isinstance(i, int) else mul(lift(i, 'I'), num(s, 'I'))
            if isinstance(off, int) and isinstance(d, int): off = off + d
            else:
                off = add(lift(off, 'I'), lift(d, 'I'))
                if off.op == 'num': off = int(off.val)
        return Ptr(p.obj, off)

class Comp:
    """A wide integer carrying several typed parts (ABI coercions)."""
    __slots__ = ('parts', 'size')
    def __init__(self, parts, size): self.parts = parts; self.size = size
    def __repr__(self): return 'Comp%r' % (self.parts,)
    def toint(self):
        r = 0
        for o, v, t in self.parts:
            if not isinstance(v, int): raise Unsupported('symbolic composite integer')
            r |= v << (8 * o)
        return r

def leafint(t):
    if isinstance(t, T) and t.op == 'num' and t.sort == 'I':
        return int(t.val)
    return t

def i2r(t):
    if t.op == 'num': return num(t.val)
    return mk('i2r', (t,), 'R')

import loops
