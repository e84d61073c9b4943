"""Using a contract at a call site in place of the callee's body."""
from terms import *
import ir, loops
from symex import Ptr, PtrIte, UNDEF, Unsupported, Infeasible, Ctx, State, Comp
from contract import *
from verify import *
from ring import Ring, TooBig, CantRing

def register(c, unit):
    """Identify the one mathlib function the wrapper of c calls and how its IR arguments map to the contract's
    parameters. Returns (mangled, [descr], retkind) or None."""
    fn = unit.mod.funcs.get('W_' + c.name)
    unit.mod.parse(fn)
    calls = []
    for b in fn.blocks.values():
        for I in b.insts:
            if I.op == 'call' and I.x[0] == 'fn' and not I.x[1].startswith('llvm.'):
                calls.append(I)
    if len(calls) != 1: return None
    I = calls[0]
    # map registers: wrapper params are either pointers (object params) or scalars
    names = {}
    params = list(c.params)
    ids = fn.params
    for k, p in enumerate(params):
        names[ids[k]] = ('obj', p.name) if (p.t in TYPES or p.mut or p.arr) else ('sc', p.name)
    if c.ret != 'void': names[ids[len(params)]] = ('out', None)
    desc = []
    for o in I.ops:
        if o[0] == 'loc' and o[1] in names: desc.append(names[o[1]])
        elif o[0] == 'ci': desc.append(('const', o[1]))
        elif o[0] == 'null': desc.append(('null', None))
        else:
            # zext of an i1 parameter etc.
            return None
    return (I.x[1], desc)

FUNCTIONAL = {}; RINGS = []
def argkey(ctx, t):
    """equal for arguments with the same normal form"""
    if t.sort != 'R': return t.id
    if not hasattr(ctx, 'keyring'): ctx.keyring = Ring(); ctx.keyserial = len(RINGS); RINGS.append(0)
    try: n, d = ctx.keyring.rf(t); return (ctx.keyserial, tuple(sorted(n.items())), tuple(d))
    except (CantRing, TooBig): return t.id
class Applier:
    def __init__(self, c, unit, desc):
        self.c = c; self.u = unit; self.desc = desc
        self.uses = 0

    def __call__(self, ctx, args, st, fn):
        c = self.c; u = self.u
        objs = {}; scal = {}; outptr = None
        for d, a in zip(self.desc, args):
            if d[0] == 'const':
                if a != d[1]: return None
            elif d[0] == 'null':
                if not (isinstance(a, Ptr) and a.obj is None): return None
            elif d[0] == 'obj':
                if not isinstance(a, Ptr) or a.obj is None or isinstance(a.off, T): return None
                if ctx.objs[a.obj].kind != 'cells': return None
                objs[d[1]] = a
            elif d[0] == 'out': outptr = a
            else: scal[d[1]] = a
        if any(p.arr for p in c.params): return None
        # aliasing pattern must be one the contract was verified for
        muts = [p for p in c.params if p.mut and p.name in objs]
        for p in muts:
            for q in c.params:
                if q.name == p.name or q.name not in objs: continue
                A, B = objs[p.name], objs[q.name]
                if A.obj != B.obj: continue
                la, lb = u.size(p.t), u.size(q.t)
                if A.off + la <= B.off or B.off + lb <= A.off: continue
                if A.off == B.off and ((p.name, q.name) in c.alias or (q.name, p.name) in c.alias): continue
                return None
        e = Env(); e.ctx = ctx; e.inst = None; e.bits = u.bits; e.case = {}; e.hyp = []
        s0 = st.fork()
        def sub_getter(s, ptr, t):
            cells = {path: (off, lt_) for off, path, lt_ in u.cells(t)}
            cache = {}
            def g(path, lt_):
                if path in cache: return cache[path]
                off, l2 = cells[path]
                v = ctx.ld(s, ptr.obj, ptr.off + off, leaf_irtype(l2, u.bits))
                r = spec_leaf(v, l2); cache[path] = r
                return r
            return g
        try:
            for p in c.params:
                if p.name in objs:
                    # reading uninitialised parts is left to the inlined body
                    v = mkview(p.t, sub_getter(s0, objs[p.name], p.t))
                    if p.name not in c.opts.get('uninit', ()):
                        for off, path, lt_ in u.cells(p.t):
                            if ctx.ld(st, objs[p.name].obj, objs[p.name].off + off, leaf_irtype(lt_, u.bits)) is UNDEF: return None
                    setattr(e, p.name, v)
                elif p.name not in scal and c.name in ctx.supply:
                    # a ghost parameter, chosen by the contract under verification
                    setattr(e, p.name, ctx.supply[c.name](e)[p.name])
                else:
                    if p.name not in scal: return None
                    v = scal[p.name]
                    if p.t in ENUMS or p.t in ('i', 'u', 'sz'):
                        if isinstance(v, T) and v.op == 'num': v = int(v.val)
                        if not isinstance(v, int): return None
                        if p.name in c.cases and v not in c.cases[p.name]: return None
                        if p.t in ENUMS and p.name not in c.cases and v not in ENUMS[p.t][1].values(): return None
                        e.case[p.name] = v
                        setattr(e, p.name, v)
                    elif p.t == 'B':
                        v = ctx.asB(v)
                        if v not in (TRUE, FALSE): return None
                        setattr(e, p.name, v)
                    else: setattr(e, p.name, ctx.asR(v))
        except Unsupported: return None
        if any(k not in e.case for k in c.cases): 
            # a case over an object field or literal: cannot be matched here
            for k in c.cases:
                if k not in e.case: return None
        pre = []
        if c.inv:
            for p in c.params:
                if p.t in INVARIANTS and p.name in objs: pre += [t for _, t in flatclauses(INVARIANTS[p.t](getattr(e, p.name)))]
        if c.requires: pre += [t for _, t in flatclauses(c.requires(e))]
        for t in pre: ctx.oblige(st, 'precondition of %s' % c.name, t)
        # havoc + postconditions
        if c.opts.get('functional'):
            # the same arguments give the same result
            key = [c.name]
            for p in c.params:
                if p.name in objs: key += [argkey(ctx, x) for x in getattr(e, p.name).leaves()] if p.t in TYPES and not (p.mut and p.name in c.opts.get('outonly', ())) else []
                elif p.name in scal: v = getattr(e, p.name); key.append(argkey(ctx, v) if isinstance(v, T) else v)
            k = 'f%d' % FUNCTIONAL.setdefault(tuple(key), len(FUNCTIONAL))
        else: k = fresh(c.name).val.split('!')[1]
        freshv = {}
        def post_getter(name, t):
            def g(path, lt_):
                key = (name, path)
                if key not in freshv:
                    if lt_ in FLAGSETS: freshv[key] = flag_input(lt_, '%s.%s!%s' % (name, path, k))
                    else: freshv[key] = var('%s.%s!%s' % (c.name + ':' + name, path, k), 'R' if lt_ == 'R' else 'B' if lt_ == 'B' else 'I')
                return freshv[key]
            return g
        e.post = Env()
        for p in c.params:
            if p.name in objs:
                al = next((a for a in c.params if a.mut and a.name in objs and objs[a.name] == objs[p.name]), None)
                if p.mut: setattr(e.post, p.name, mkview(p.t, post_getter((al or p).name if al else p.name, p.t)))
                elif al is not None: setattr(e.post, p.name, mkview(p.t, post_getter(al.name, p.t)))
                else: setattr(e.post, p.name, getattr(e, p.name))
        rt = None
        if c.ret.startswith('&'): e.out = TRUE
        elif c.ret != 'void':
            rt = c.ret; e.out = mkview(rt, post_getter('out', rt))
        clauses = [t for _, t in flatclauses(c.ensures(e))] if c.ensures else []
        # make sure every post leaf exists
        for p in muts: 
            g = post_getter(p.name, p.t)
            for off, path, lt_ in u.cells(p.t): g(path, lt_)
        if rt:
            g = post_getter('out', rt)
            for off, path, lt_ in u.cells(rt): g(path, lt_)
        byid = {v.id: key for key, v in freshv.items() if v.op == 'var'}
        flagvars = {}
        for key, v in freshv.items():
            if v.op == 'ite':
                for t in subterms([v]):
                    if t.op == 'var': flagvars[t.id] = t
        sub = {}; rest = []
        def isfresh(t): return t.id in byid or t.id in flagvars
        work = []
        for t in clauses: work += list(t.args) if t.op == 'and' else [t]
        for t in work:
            t = subst(t, sub) if sub else t
            done = False
            if t.op in ('eq', 'iff'):
                for x, y in (t.args, t.args[::-1]):
                    if isfresh(x) and x.id not in sub and not any(z is x for z in subterms([y])):
                        if sub:
                            pass
                        sub = {i: subst(v, {x.id: y}) for i, v in sub.items()}
                        sub[x.id] = y; done = True; break
            if not done and t.op == 'var' and isfresh(t): sub[t.id] = TRUE; done = True
            if not done and t.op == 'not' and isfresh(t.args[0]): sub[t.args[0].id] = FALSE; done = True
            if not done: rest.append(t)
        for t in rest:
            t = subst(t, sub)
            if t is FALSE: raise Infeasible()
            st.assume(t)
        def put(ptr, t, name):
            for off, path, lt_ in u.cells(t):
                v = freshv[(name, path)]
                v = subst(v, sub)
                if v.sort == 'B': v = ite(v, num(1, 'I'), num(0, 'I'))
                if v.op == 'num' and v.sort == 'I':
                    ty = leaf_irtype(lt_, u.bits); v = int(v.val) & ((1 << ty[1]) - 1)
                ctx.store(st, Ptr(ptr.obj, ptr.off + off), v, leaf_irtype(lt_, u.bits))
        for p in muts: put(objs[p.name], p.t, p.name)
        self.uses += 1
        if c.ret == 'void': return [(st, UNDEF)]
        if c.ret.startswith('&'): return [(st, objs[c.ret[1:]])]
        if outptr is not None:
            put(outptr, rt, 'out'); return [(st, UNDEF)]
        if rt in TYPES:
            o = ctx.newobj(u.size(rt), name='ret'); st.mem[o] = {}; st.own.add(o)
            put(Ptr(o, 0), rt, 'out')
            return [(st, ctx.ld(st, o, 0, fn.ret))]
        v = subst(freshv[('out', '')], sub)
        if v.op == 'num' and v.sort == 'I': v = int(v.val) & ((1 << fn.ret[1]) - 1)
        if v is TRUE: v = True
        elif v is FALSE: v = False
        return [(st, v)]

class Choice:
    """the contracts of one function; the first that fits the call is used"""
    def __init__(self, xs): self.xs = list(xs)
    def add(self, a): self.xs.append(a)
    def without(self, name):
        xs = [a for a in self.xs if a.c.name != name]
        return Choice(xs) if xs else None
    def used(self): return {a.c.name: a.uses for a in self.xs}
    def __call__(self, ctx, args, st, fn):
        for a in self.xs:
            r = a(ctx, args, st, fn)
            if r is not None: return r

class ArrayApplier:
    """Contracts of one function on arrays of any length.  The contract without ghost parameters states when the function may be
    called; each contract gives what is known afterwards, at the indices the contract under verification chooses (option supply)."""
    def __init__(self, cs, unit, desc):
        self.cs = cs; self.u = unit; self.desc = desc; self.uses = 0
        self.c = cs[0]; self.main = next((c for c in cs if not c.opts.get('ghosts')), None)
    def without(self, name): return self if self.c.name != name else None
    def used(self): return {self.c.name: self.uses}

    def __call__(self, ctx, args, st, fn):
        u = self.u; c0 = self.main
        if c0 is None or not any(c.name in ctx.supply for c in self.cs): return None
        par = {p.name: p for p in c0.params}
        arrs = {}; scal = {}
        for d, a in zip(self.desc, args):
            if d[0] == 'obj':
                p = par[d[1]]
                if not p.arr or p.stride or not isinstance(a, Ptr) or a.obj is None or ctx.objs[a.obj].kind != 'array': return None
                o = ctx.objs[a.obj]; es = u.size(p.t)
                if isinstance(o.info['stride'], T) or o.info['stride'] != es or {off for off, _, _ in u.cells(p.t)} != set(o.info['fields']): return None
                i0 = num(0, 'I') if a.off == 0 else ctx.exact_idiv(a.off, es)
                if i0 is None: return None
                arrs[d[1]] = (a.obj, lift(i0, 'I'))
            elif d[0] == 'sc': scal[d[1]] = a
            else: return None
        muts = [p.name for p in c0.params if p.mut]
        if any(n not in arrs for n in muts): return None
        for n in muts:
            if any(m != n and arrs[m][0] == arrs[n][0] for m in arrs): return None
        def count(p): return loops.canon(ctx, subst(count_term(p.count), {var(k, 'I').id: lift(v, 'I') for k, v in scal.items() if par[k].t in ('i', 'u', 'sz')}))
        for n in muts:
            o = ctx.objs[arrs[n][0]]
            if arrs[n][1] is not num(0, 'I') or loops.canon(ctx, sub(count(par[n]), lift(o.info['n'], 'I'))) is not num(0, 'I'): return None
        def env(ghosts, post):
            e = Env(); e.ctx = ctx; e.inst = None; e.bits = u.bits; e.case = {}; e.hyp = []; e.state = st; e.post = Env() if post else None
            for p in c0.params:
                if p.name in arrs:
                    v = Shifted(ctx, st, arrs[p.name][0], p, u, arrs[p.name][1])
                    if post: setattr(e.post, p.name, v); v = v if not p.mut else None
                    setattr(e, p.name, v)
                else:
                    v = scal[p.name]
                    setattr(e, p.name, lift(v, 'I') if par[p.name].t in ('i', 'u', 'sz') else ctx.asR(v))
            for k, v in ghosts.items(): setattr(e, k, lift(v, 'I'))
            return e
        e = env({}, False)
        for t in [t for _, t in flatclauses(c0.requires(e))] if c0.requires else []: ctx.oblige(st, 'precondition of %s' % c0.name, t)
        for n, (o, i0) in arrs.items():
            k = ctx.objs[o].info.get('n')
            if k is not None: ctx.oblige(st, 'array-bounds', And(le(num(0, 'I'), i0), le(add(i0, count(par[n])), lift(k, 'I'))))
        for n in muts:
            w = st.wcells(arrs[n][0]); w['base'] = 'c' + fresh('h').val.split('!')[1]; w['log'] = ()
        out = fresh(c0.name + ':out', 'B' if c0.ret == 'B' else 'I')
        for c in self.cs:
            if c.name not in ctx.supply: continue
            for g in ctx.supply[c.name](None):
                e = env(g, True); e.out = out
                rq = [t for _, t in flatclauses(c.requires(e))] if c.requires else []
                for _, t in flatclauses(c.ensures(e)):
                    t = Implies(And(*rq), t) if c is not c0 else t
                    if t is not TRUE: st.assume(t)
        self.uses += 1
        return [(st, out)]

class Shifted(ArrView):
    """elements of an array from index i0 on"""
    def __init__(self, ctx, st, obj, p, u, i0): ArrView.__init__(self, ctx, st, obj, p, u); self.i0 = i0
    def __getitem__(self, i): return ArrView.__getitem__(self, loops.canon(self.ctx, add(lift(i, 'I'), self.i0)))
