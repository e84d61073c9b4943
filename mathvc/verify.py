"""Verification of one contract: set up the symbolic pre-state, execute the real function, prove the obligations."""
import itertools, time, os, subprocess, hashlib, json
from terms import *
import terms
import ir, symex
from symex import Ctx, State, Ptr, UNDEF, Unsupported, Infeasible, Comp, fconst
import contract as K
from contract import *
from prove import Prover, STATS

REPO = os.environ.get('MATHVC_REPO', '/repo')
CXXFLAGS = ['-std=c++11', '-DNDEBUG', '-ffp-contract=off', '-fno-access-control', '-Wno-everything', '-fno-exceptions',
            '-fno-math-errno' if False else '-fmath-errno', '-I' + REPO + '/libs/mathlib/include']

class BuildError(Exception): pass

def leaf_irtype(lt_, bits):
    if lt_ == 'R': return ('f', bits)
    if lt_ in SCALARS: return SCALARS[lt_][1]
    if lt_ in ENUMS: return ('i', 32)
    if lt_ in FLAGSETS: return ('i', 32)
    raise KeyError(lt_)

class Unit:
    """One compiled translation unit (all wrappers for one Real)."""
    def __init__(self, contracts, real, workdir, extra=''):
        self.real = real; self.bits = 32 if real == 'float' else 64
        self.contracts = contracts; self.dir = workdir
        self.src = os.path.join(workdir, 'tu_%s.cpp' % real)
        types = []
        for t in TYPES:
            types.append(t)
        used = set()
        def use(t):
            if t in TYPES and t not in used:
                used.add(t)
                for f, ft in TYPES[t][1]: use(ft)
        for c in contracts:
            for p in c.params: use(p.t)
            use(c.ret)
        self.used = [t for t in TYPES if t in used]
        L = ['#include <cstddef>', '#include <cmath>', '#include <new>', '#include "mathlib.h"', 'using namespace MATHLIB_NS;', 'typedef %s Real;' % real]
        if extra: L.append(extra)
        for t in self.used:
            L.append('typedef %s TY_%s;' % (cpp_type(t), t))
            L.append('extern "C" { extern const unsigned long LAY_%s[]; const unsigned long LAY_%s[] = { sizeof(TY_%s), %s }; }' % (
                t, t, t, ', '.join('offsetof(TY_%s, %s)' % (t, f) for f, _ in TYPES[t][1])))
        for c in contracts: L.append(c.wrapper())
        with open(self.src, 'w') as f: f.write('\n'.join(L) + '\n')
        self.so = None

    def build(self):
        ll = self.src[:-4] + '.ll'; ll2 = self.src[:-4] + '.opt.ll'
        cmd = ['clang++'] + CXXFLAGS + ['-O1', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-S', '-o', ll, self.src]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode: raise BuildError(p.stderr[-4000:])
        p = subprocess.run(['opt', '-S', '-passes=sroa,early-cse,simplifycfg', ll, '-o', ll2], capture_output=True, text=True)
        if p.returncode: raise BuildError(p.stderr[-2000:])
        self.mod = ir.Module(ll2)
        self.layout()
        self.init_globals()
        return self

    def layout(self):
        self.lay = {}
        for t in self.used:
            g = self.mod.globals['LAY_' + t]['init']
            v = [x[1] for x in g[2]]
            self.lay[t] = (v[0], dict(zip([f for f, _ in TYPES[t][1]], v[1:])))

    def size(self, t):
        if t in TYPES: return self.lay[t][0]
        return ir.sizeof(leaf_irtype(t, self.bits))

    def cells(self, t, base=0, prefix=''):
        """[(offset, path, leaf type)]"""
        if t in TYPES:
            out = []
            for f, ft in TYPES[t][1]:
                out += self.cells(ft, base + self.lay[t][1][f], prefix + '.' + f if prefix else f)
            return out
        return [(base, prefix, t)]

    def init_globals(self):
        """Run the static initialisers symbolically (on concrete data) to obtain the constants."""
        self.globmem = {}; self.globobjs = {}; self.initnote = []; self.badglob = set()
        g = self.mod.globals.get('llvm.global_ctors')
        if not g: return
        for e in g['init'][2]:
            fn = e[2][1]
            if fn[0] != 'fn': continue
            ctx = Ctx(self.mod, self.bits, lambda pc, c: True, {}, {})
            ctx.globmem = self.globmem; ctx.objs.update(self.globobjs)
            st = State(); st.mem.update(self.globmem)
            try:
                r = ctx.call(fn[1], [], st, 0)
                if len(r) == 1:
                    for k, v in r[0][0].mem.items():
                        if k.startswith('@'):
                            self.globmem[k] = v; self.globobjs[k] = ctx.objs[k]
            except (Unsupported, Infeasible) as ex:
                self.initnote.append('%s: %s' % (fn[1], ex))
                a = e[2][2]
                if a[0] == 'glob': self.badglob.add('@' + a[1])
        if self.initnote: pass

    def native(self):
        if self.so: return self.so
        import ctypes
        so = self.src[:-4] + '.so'
        p = subprocess.run(['g++'] + [f for f in CXXFLAGS if not f.startswith('-Wno-ev')] + ['-w', '-O1', '-g0', '-shared', '-fPIC', '-o', so, self.src], capture_output=True, text=True)
        if p.returncode: raise BuildError(p.stderr[-4000:])
        self.so = ctypes.CDLL(so)
        return self.so

# ------------------------------------------------------------------ symbolic inputs
def flag_input(lt_, name):
    """ITE tree over boolean variables, one per bit"""
    bits = FLAGSETS[lt_]
    t = num(0, 'I')
    def build(items, acc):
        if not items: return num(acc, 'I')
        n, v = items[0]
        return ite(var('%s:%s' % (name, n), 'B'), build(items[1:], acc | v), build(items[1:], acc))
    return build(list(bits.items()), 0)

def bit(flags, lt_, name):
    """Bool term: the named bit is set in flags (int / ITE over ints)"""
    return bitv(flags, FLAGSETS[lt_][name])
def bitv(f, v):
    if isinstance(f, T):
        if f.op == 'num': return lift(bool(int(f.val) & v))
        if f.op == 'ite': return ite(f.args[0], bitv(f.args[1], v), bitv(f.args[2], v))
        if f.op == 'ior': return Or(bitv(f.args[0], v), bitv(f.args[1], v))
        if f.op == 'iand': return And(bitv(f.args[0], v), bitv(f.args[1], v))
        return mk('app', (f,), 'B', 'fn:bit%d' % v)
    if f is UNDEF: return fresh('uninit', 'B')
    return lift(bool(f & v))

def leaf_input(lt_, name):
    if lt_ == 'R': return var(name)
    if lt_ == 'B': return ite(var(name, 'B'), num(1, 'I'), num(0, 'I'))
    if lt_ in FLAGSETS: return flag_input(lt_, name)
    if lt_ in ('i', 'u', 'sz') or lt_ in ENUMS: return var(name, 'I')
    raise KeyError(lt_)

def spec_leaf(v, lt_):
    """memory value -> spec term"""
    if v is UNDEF or v is None: return fresh('uninit', 'R' if lt_ == 'R' else 'B' if lt_ == 'B' else 'I')
    if lt_ == 'R':
        return v if isinstance(v, T) else fresh('uninit')
    if lt_ == 'B':
        if isinstance(v, (int, bool)): return lift(bool(v & 1))
        if isinstance(v, T) and v.sort == 'I':
            return ne(v, num(0, 'I'))
        return v
    if isinstance(v, bool): v = int(v)
    if isinstance(v, int):
        if lt_ == 'i' and v >= 1 << 31: v -= 1 << 32
        return num(v, 'I')
    return v

class Inst:
    """One verification instance: concrete choices for cases and aliasing."""
    def __init__(self, c, unit, case, alias):
        self.c = c; self.u = unit; self.case = case; self.alias = alias
    def label(self):
        s = []
        if self.case: s.append(','.join('%s=%s' % kv for kv in self.case.items()))
        if self.alias: s.append('alias ' + ' '.join('%s=%s' % x for x in self.alias))
        return '; '.join(s)

def instances(c, unit):
    keys = list(c.cases)
    for p in c.params:
        if p.t in ENUMS and p.name not in c.cases: keys.append(p.name)
        if p.t == 'B' and not p.mut and p.name not in c.cases: keys.append(p.name)
    def dom(k):
        if k in c.cases: return c.cases[k]
        p = next(x for x in c.params if x.name == k)
        if p.t == 'B': return [False, True]
        return list(ENUMS[p.t][1].values())
    for combo in itertools.product(*[dom(k) for k in keys]):
        case = dict(zip(keys, combo))
        yield Inst(c, unit, case, ())
        for a in c.alias:
            yield Inst(c, unit, case, (a,) if isinstance(a[0], str) else tuple(a))

def facts_for(t, pc):
    """hypotheses and goal of a lemma: all facts so far, or only those it names (which must be among them)"""
    if not isinstance(t, By): return list(pc), t
    have = {}
    for h in pc:
        have[h.id] = h
        if h.op == 'and': have.update((x.id, x) for x in h.args)
    use = []
    for h in t.hyps:
        for x in (h.args if h.op == 'and' else (h,)):
            if x is TRUE: continue
            if x.id not in have: raise ValueError('a lemma names a fact that is not available')
            use.append(x)
    return use, t.goal

class Result:
    def __init__(self): self.obls = []; self.error = None; self.time = 0; self.inlined = set(); self.called = set(); self.ext = set(); self.reach = True; self.paths = 0

def run_instance(inst, contracts_appliers, prover, collect):
    """Execute one instance; collect(obligation dict) is called for every obligation."""
    c = inst.c; u = inst.u
    terms.reset_fresh()
    ctx = Ctx(u.mod, u.bits, prover.feasible, contracts_appliers, dict(c.opts))
    ctx.globmem = u.globmem; ctx.badglob = u.badglob; ctx.objs.update(u.globobjs)
    st = State(); st.mem.update(u.globmem)
    args = []; objof = {}
    aliasmap = {b: a for a, b in inst.alias}
    pre = {}
    for p in c.params:
        src = aliasmap.get(p.name, p.name)
        if p.arr:
            o = objof[src] if src != p.name else make_array(ctx, st, u, p, inst)
            objof[p.name] = o; args.append(Ptr(o, 0)); pre[p.name] = None
        elif p.t in TYPES or p.mut:
            if src != p.name: objof[p.name] = objof[src]
            else:
                o = ctx.newobj(u.size(p.t), name=p.name)
                cells = {}
                for off, path, lt_ in u.cells(p.t):
                    nm = p.name + ('.' + path if path else '')
                    ini = c.opts.get('uninit', ())
                    if p.name in ini: continue
                    cells[off] = (leaf_input(lt_, nm) if (nm not in inst.case) else inst.case[nm], leaf_irtype(lt_, u.bits))
                st.mem[o] = cells
                objof[p.name] = o
            args.append(Ptr(objof[p.name], 0))
        else:
            v = inst.case.get(p.name)
            if v is None:
                v = var(p.name, 'R' if p.t == 'R' else 'I')
                args.append(v)
                if p.t in ('u', 'sz'): st.assume(le(num(0, 'I'), v))
            else:
                if p.t == 'B': args.append(bool(v))
                elif p.t == 'R': args.append(lift(v))
                else: args.append(v & ((1 << leaf_irtype(p.t, 64)[1]) - 1))
    outobj = None
    if c.ret != 'void':
        rt = 'B' if c.ret.startswith('&') else c.ret
        outobj = ctx.newobj(u.size(rt), name='out'); st.mem[outobj] = {}
        args.append(Ptr(outobj, 0))
    initial = {n: dict(st.mem[o]) for n, o in objof.items()}
    # pre-environment
    e = Env(); e.ctx = ctx; e.inst = inst; e.bits = u.bits; e.case = inst.case
    for p in c.params: setattr(e, p.name, pre_value(p, inst, u, st, objof, ctx))
    e.post = None; e.out = None
    hyp = []
    if c.inv:
        for p in c.params:
            if p.t in INVARIANTS and not p.arr: hyp += [t for _, t in flatclauses(INVARIANTS[p.t](getattr(e, p.name)))]
    e.hyp = hyp
    if c.requires: hyp += [t for _, t in flatclauses(c.requires(e))]
    for h in hyp: st.assume(h)
    e.requires_terms = list(st.pc)
    # ghost lemmas over the pre-state: each is an obligation, then available to everything after it
    lemmas = []
    if c.opts.get('lemmas'):
        for lab, t in flatclauses(c.opts['lemmas'](e)):
            h, t = facts_for(t, st.pc)
            lemmas.append((lab, h, t)); (st.assume(t) if t is not FALSE else None)
    # abbreviations: [(name, term)], later ones may use earlier ones only through the original variables
    prover.abbrev = [(var('abbrev!' + n, 'R'), t) for n, t in c.opts['abbrev'](e)] if c.opts.get('abbrev') else []
    # ghost angles: inverse trigonometric results proved equal to them are replaced by them
    prover.angles = list(c.opts['angles'](e)) if c.opts.get('angles') else []
    if c.opts.get('hook'): c.opts['hook'](ctx, st, e, inst)
    ctx.supply = {k: (lambda ee, f=f: f(e)) for k, f in c.opts.get('supply', {}).items()}
    outs = ctx.call('W_' + c.name, args, st, 0)
    res = []
    for s, v in outs: res.append(s)
    seen = set()
    def emit(label, hyps, goal, kind):
        key = (label, tuple(h.id for h in hyps), goal.id)
        if key in seen: return
        seen.add(key)
        collect(dict(label=label, hyps=hyps, goal=goal, kind=kind, inst=inst, env=e))
    for lab, h, t in lemmas: emit('lemma ' + lab, h, t, 'lemma')
    ignore = set(c.opts.get('ignore', ()))
    for s in res + ctx.dead:
        for what, cond, n in s.obl:
            w = what.split(':')[0]
            if w in ignore: continue
            emit(what, list(s.pc[:n]), cond, 'safety')
    for s in res:
        post = Env()
        for p in c.params:
            if p.arr: setattr(post, p.name, ArrView(ctx, s, objof[p.name], p, u)); continue
            if p.t in TYPES or p.mut:
                o = objof[p.name]
                setattr(post, p.name, mkview(p.t, mem_getter(ctx, s, o, u, p.t)))
        e2 = Env(); e2.__dict__.update(e.__dict__); e2.post = post; e2.state = s
        if outobj is not None:
            rt = 'B' if c.ret.startswith('&') else c.ret
            e2.out = mkview(rt, mem_getter(ctx, s, outobj, u, rt))
        if c.opts.get('asserts'):
            for lab, t in flatclauses(c.opts['asserts'](e2)):
                h, t = facts_for(t, s.pc)
                emit("assert " + lab, h, t, "assert"); (s.assume(t) if t is not FALSE else None)
            if c.opts.get('opaque') and isinstance(e2.out, T):
                # from here on the result is known only through the proved assertions
                e2.out = var('result!', 'R')
                for lab, t in flatclauses(c.opts['asserts'](e2)):
                    if isinstance(t, By): t = t.goal
                    if t is not TRUE: s.assume(t)
        if c.ret.startswith('&'): emit('returns-self', list(s.pc), lift(e2.out), 'post')
        for lab, t in flatclauses(c.ensures(e2)) if c.ensures else []:
            emit('ensures ' + lab, list(s.pc), t, 'post')
        if s.heap and 'leak' not in ignore: emit('allocations-released', list(s.pc), FALSE, 'post')
        # array objects: nothing but their elements is written
        for p in c.params:
            if p.arr and 'base' not in s.mem[objof[p.name]]:
                if any(k not in initial[p.name] for k in s.mem[objof[p.name]]) and p.name not in c.opts.get('uninit', ()): emit('frame gaps ' + p.name, list(s.pc), FALSE, 'frame')
        # frame: const objects unchanged (unless shared with a mutable one)
        mutobj = {objof[p.name] for p in c.params if p.mut}
        for p in c.params:
            o = objof.get(p.name)
            if o is None or o in mutobj or p.mut: continue
            a = initial[p.name]; b = s.mem[o]
            if a is b: continue
            for off in set(a) | set(b):
                if off in ('log', 'base'):
                    if a.get(off) != b.get(off): emit('frame ' + p.name, list(s.pc), FALSE, 'frame')
                    continue
                x = a.get(off); y = b.get(off)
                if x is None or y is None: emit('frame %s' % p.name, list(s.pc), FALSE, 'frame'); continue
                if x[0] is y[0]: continue
                if isinstance(x[0], T) and isinstance(y[0], T): emit('frame %s+%d' % (p.name, off), list(s.pc), eq(x[0], y[0]), 'frame')
                elif x[0] != y[0]: emit('frame %s+%d' % (p.name, off), list(s.pc), FALSE, 'frame')
        # globals unchanged
        for k, v in s.mem.items():
            if k.startswith('@') and k in u.globmem and v is not u.globmem[k]:
                for off in set(v) | set(u.globmem[k]):
                    x = v.get(off); y = u.globmem[k].get(off)
                    if x is None or y is None or not (x[0] is y[0] or x[0] == y[0]):
                        if not ('guard' in k or '_ZGV' in k): emit('frame global ' + k, list(s.pc), FALSE, 'frame')
    return ctx, len(res), e

def mkview(t, g):
    if t in TYPES: return View(t, g)
    return g('', t)

def mem_getter(ctx, st, obj, u, t):
    cells = {path: (off, lt_) for off, path, lt_ in u.cells(t)}
    cache = {}
    def g(path, lt_):
        if path in cache: return cache[path]
        off, l2 = cells[path]
        try: v = ctx.ld(st, obj, off, leaf_irtype(l2, u.bits))
        except Unsupported: v = UNDEF
        r = spec_leaf(v, l2)
        cache[path] = r
        return r
    return g

def pre_value(p, inst, u, st, objof, ctx):
    if p.arr:
        return ArrView(ctx, st.fork(), objof[p.name], p, u, pre=True)
    if p.t in TYPES or p.mut:
        s0 = st.fork()
        return mkview(p.t, mem_getter(ctx, s0, objof[p.name], u, p.t))
    v = inst.case.get(p.name)
    if v is not None:
        if p.t == 'B': return lift(bool(v))
        return v if p.t != 'R' else lift(v)
    return var(p.name, 'R' if p.t == 'R' else 'I')

class ArrView:
    def __init__(self, ctx, st, obj, p, u, pre=False):
        self.ctx = ctx; self.st = st; self.obj = obj; self.p = p; self.u = u
        self.n = None
    def __getitem__(self, i):
        o = self.ctx.objs[self.obj]
        if o.kind == 'cells':
            es = self.u.size(self.p.t)
            cells = self.u.cells(self.p.t)
            sd = o.info or es
            m = {path: (off, lt_) for off, path, lt_ in cells}
            def g(path, lt_):
                off, l2 = m[path]
                try: v = self.ctx.ld(self.st, self.obj, i * sd + off, leaf_irtype(l2, self.u.bits))
                except Unsupported: v = UNDEF
                return spec_leaf(v, l2)
            return mkview(self.p.t, g)
        i = lift(i, 'I')
        offs = {path: off for off, path, lt_ in self.u.cells(self.p.t)}
        def g(path, lt_):
            fo = offs[path]
            return self.ctx.array_read(self.st, o, fo, i)
        return mkview(self.p.t, g)

def count_term(c):
    for o in '+-':
        if o in c:
            a, b = c.split(o)
            return count_term(a) + int(b) if o == '+' else count_term(a) - int(b)
    return num(int(c), 'I') if c.isdigit() else var(c, 'I')

def make_array(ctx, st, u, p, inst):
    n = inst.case.get(p.count)
    es = u.size(p.t)
    if p.count.isdigit(): n = int(p.count)
    elif n is None and '-' in p.count:
        b, k = p.count.split('-'); 
        if b in inst.case: n = inst.case[b] - int(k)
    elif n is None and '+' in p.count:
        b, k = p.count.split('+')
        if b in inst.case: n = inst.case[b] + int(k)
    elif n is None and '*' in p.count:
        b, k = p.count.split('*')
        if b in inst.case: n = inst.case[b] * (int(k) if k.isdigit() else inst.case[k])
    sd = es
    if p.stride:
        sd = int(p.stride) if p.stride.isdigit() else inst.case.get(p.stride, None)
    if n is not None and sd is not None:
        o = ctx.newobj(max(0, (n - 1) * sd + es) if n else 0, name=p.name, info=sd)
        cells = {}
        if p.name not in inst.c.opts.get('uninit', ()):
            for k in range(n):
                for off, path, lt_ in u.cells(p.t):
                    cells[k * sd + off] = (leaf_input(lt_, '%s[%d]%s' % (p.name, k, '.' + path if path else '')), leaf_irtype(lt_, u.bits))
        st.mem[o] = cells
        return o
    fields = {off: (path or 'v', leaf_irtype(lt_, u.bits)) for off, path, lt_ in u.cells(p.t)}
    cnt = count_term(p.count)
    stride = es if not p.stride else var(p.stride, 'I')
    o = ctx.newobj(None, 'array', p.name, dict(stride=stride, fields=fields, n=cnt, es=es))
    ctx.objs[o].name = p.name
    st.mem[o] = {'base': 0, 'log': ()}
    return o
