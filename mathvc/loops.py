"""Loops whose trip count is not fixed.

At a loop head the loop is summarised instead of unrolled.  k counts the iterations that were completed.
Everything the loop carries round (header phis, memory cells it changes) is one of
  - a value with a closed form in k (unchanged, init + k*step, or a function of the previous k),
  - a function of k, known through its definition: value(0) and value(k+1) in terms of value(k),
and every array element it writes is, for iteration k, a function of k known by definition in the same way
(the element index must be a + k or a - k).  The body is then executed once for the first iteration and once
for an arbitrary later iteration k >= 1, whose hypotheses are what the previous iteration established; this gives
the obligations of all iterations and the states in which the loop is left.  Afterwards an element read from a
written array, or a value the contract asks about, brings in the definition at that iteration.  For values that
only ever grow or only ever fall (checked by the solver on every path of the body) that fact is used too."""
from terms import *
import symex
from symex import Ptr, PtrIte, Comp, UNDEF, Unsupported, Infeasible, FnPtr
import ir

class Range:
    """log entry of an array object: iterations 0 <= k < bound wrote field fo of element a + c*k"""
    __slots__ = ('summ', 'fo', 'a', 'c', 'bound', 'name')
    def __init__(self, summ, fo, a, c, bound, name): self.summ = summ; self.fo = fo; self.a = a; self.c = c; self.bound = bound; self.name = name

def canon(ctx, t):
    """normal form of an integer term"""
    if not isinstance(t, T): return num(t, 'I')
    if t.op in ('num', 'var'): return t
    from ring import Ring
    R = ctx.idxring = getattr(ctx, 'idxring', None) or Ring()
    p, d = R.rf(t)
    if d: return t
    out = num(0, 'I')
    for m, k in sorted(p.items()):
        x = num(k, 'I')
        for a, e in m:
            for _ in range(e): x = mul(x, R.kind[a][1])
        out = add(out, x)
    return out

def linear(ctx, t, k):
    """t = c*k + a with a number c and a free of k, or None"""
    if not isinstance(t, T): return 0, num(t, 'I')
    a = canon(ctx, subst(t, {k.id: num(0, 'I')})); b = canon(ctx, sub(subst(t, {k.id: num(1, 'I')}), a))
    if b.op != 'num': return None
    if canon(ctx, sub(t, add(a, mul(b, k)))).op != 'num' or canon(ctx, sub(t, add(a, mul(b, k)))).val != 0: return None
    return int(b.val), a

def leaves(v):
    if isinstance(v, list): return [x for y in v for x in leaves(y)]
    if isinstance(v, Ptr): return [v.off]
    if isinstance(v, (PtrIte, Comp)): raise Unsupported('loop carries %s' % type(v).__name__)
    return [v]
def remake(v, it):
    if isinstance(v, list): return [remake(x, it) for x in v]
    if isinstance(v, Ptr):
        x = next(it)
        return Ptr(v.obj, int(x.val) if isinstance(x, T) and x.op == 'num' else x)
    return next(it)
def shape(v):
    if isinstance(v, list): return tuple(shape(x) for x in v)
    if isinstance(v, Ptr): return ('ptr', v.obj)
    return 'x'
def sortof(v, ty):
    if isinstance(v, T): return v.sort
    if isinstance(v, bool): return 'B'
    if isinstance(v, int): return 'I'
    if isinstance(v, FnPtr): raise Unsupported('loop carries a function')
    t = ty
    while t[0] in ('vec', 'arr'): t = t[2]
    return 'R' if t[0] == 'f' else 'B' if t == ('i', 1) else 'I'
def vmap(v, f):
    if isinstance(v, T):
        r = f(v)
        return r
    if isinstance(v, list): return [vmap(x, f) for x in v]
    if isinstance(v, Ptr):
        if isinstance(v.off, T):
            o = f(v.off); return Ptr(v.obj, int(o.val) if o.op == 'num' else o)
        return v
    if isinstance(v, PtrIte): return PtrIte(f(v.c), vmap(v.a, f), vmap(v.b, f))
    if isinstance(v, Comp): return Comp([(o, vmap(x, f), t) for o, x, t in v.parts], v.size)
    return v

class Summary:
    def __init__(self, n): self.n = n; self.done = False

def hook(ctx, fn, bid, prev, regs, st, depth, blocks):
    if not ctx.opts.get('symloops'): return None
    n = ctx.nloops = getattr(ctx, 'nloops', 0) + 1
    S = Summary(n); I0 = num(0, 'I'); I1 = num(1, 'I')
    B = fn.blocks[bid]
    phis = []; np = 0
    for I in B.insts:
        if I.op != 'phi': break
        np += 1
        for o, pb in I.ops:
            if pb == prev: phis.append((I, ctx.val(o, regs, st))); break
        else: raise Unsupported('phi')
    nb = ir.Block(); nb.id = None; nb.insts = B.insts[np:]; nb.name = ''
    def stop(b): return b == bid or b not in blocks
    def back(b, p): return b == bid
    base_dead = len(ctx.dead)
    def run(vals, cellv, assume=(), ranges=(), keep=False):
        """one pass through the body from the head; -> (back states, exit states)"""
        s = st.fork(); rg = dict(regs)
        for I, v in phis: rg[I.id] = vals[I.id]
        for (o, off), v in cellv.items(): s.wcells(o)[off] = v
        for o, r in ranges:
            c = s.wcells(o); c['log'] = c.get('log', ()) + (r,)
        for a in assume: s.assume(a)
        start = len(s.pc); log0 = {o: len(s.mem[o].get('log', ())) for o in s.mem if 'log' in s.mem[o]}
        out = ctx._run_from(fn, rg, nb, bid, prev, s, depth, stop, {})
        bs, es, ds = [], [], []
        for s2, kind, x in out:
            if kind == 'dead': ds.append(s2)
            elif kind == 'at': (bs if x[0] == bid else es).append((s2, x))
            else: raise Unsupported('return from within a loop body')
        if keep: ctx.dead.extend(ds); ctx.dead.extend(s2 for s2, _ in bs)
        else: del ctx.dead[base_dead:]
        return bs, es, start, log0
    def phinext(s2, x):
        """values of the phis when the head is reached again"""
        out = {}
        for I, v in phis:
            for o, pb in I.ops:
                if pb == x[1]: out[I.id] = ctx.val(o, x[2], s2); break
            else: raise Unsupported('phi')
            if shape(out[I.id]) != shape(v):
                if v is UNDEF or (not isinstance(v, (list, Ptr)) and not isinstance(out[I.id], (list, Ptr))): continue
                raise Unsupported('loop carries a pointer into different objects')
        return out
    # ---- what is carried
    init = {}; tys = {}
    for I, v in phis:
        for j, x in enumerate(leaves(v)): init[('p', I.id, j)] = x; tys[('p', I.id, j)] = I.ty
    carried = []
    def headvals(f):
        vals = {}
        for I, v in phis:
            vals[I.id] = remake(v, iter([f(('p', I.id, j)) for j in range(len(leaves(v)))]))
        cellv = {}
        for (o, off) in carried:
            v, ty = st.mem[o].get(off, (UNDEF, cellty[(o, off)]))
            cellv[(o, off)] = (remake(v, iter([f(('m', o, off, j)) for j in range(len(leaves(v)))])), cellty[(o, off)])
        return vals, cellv
    cellty = {}
    ptrs = {}
    def note(key, v):
        if isinstance(v, list):
            j = 0
            for x in v: j += note(key + ('.',), x) if False else len(leaves(x))
            return j
        if isinstance(v, Ptr) and v.obj is not None and ctx.objs[v.obj].kind == 'array': ptrs[key + (0,)] = v
        return 1
    for I, v in phis: note(('p', I.id), v)
    def frsh(it):
        if it in ptrs:      # within an array: some whole number of elements on
            v = ptrs[it]; return add(lift(v.off, 'I'), mul(lift(ctx.objs[v.obj].info['stride'], 'I'), fresh('loop', 'I')))
        return fresh('loop', sortof(init[it], tys[it]))
    for _ in range(10):
        cur = {}
        def f(it):
            cur[it] = frsh(it); return cur[it]
        vals, cellv = headvals(f)
        try: bs, es, start, log0 = run(vals, cellv)
        except Unsupported as ex:
            ctx.notes.append('loop in %s unrolled: %s' % (fn.name, ex)); return None
        if not bs: return None
        new = {}
        for s2, x in bs:
            for o in st.mem:
                if o not in s2.mem: raise Unsupported('loop releases memory')
                a, b = st.mem[o], s2.mem[o]
                if a is b: continue
                if a.get('base') != b.get('base'): raise Unsupported('loop replaces an array')
                for off, c in b.items():
                    if off in ('log', 'base'): continue
                    if (o, off) in carried: continue
                    if off in a and (a[off] is c or a[off][0] is c[0]): continue
                    new[(o, off)] = c[1]
                for off in a:
                    if off not in b: raise Unsupported('loop overlays memory')
            if s2.heap != st.heap: raise Unsupported('loop allocates memory')
        if not new: break
        for k, ty in new.items():
            carried.append(k); cellty[k] = ty
            v, t0 = st.mem[k[0]].get(k[1], (UNDEF, ty))
            note(('m',) + k, v)
            if t0 != ty: raise Unsupported('loop changes the type of a cell')
            for j, x in enumerate(leaves(v)): init[('m',) + k + (j,)] = x; tys[('m',) + k + (j,)] = ty
    else: raise Unsupported('loop carries too much')
    def nexts(s2, x):
        ph = phinext(s2, x); out = {}
        for I, v in phis:
            ls = leaves(ph[I.id])
            for j in range(len(ls)): out[('p', I.id, j)] = ls[j]
        for k in carried:
            ls = leaves(s2.mem[k[0]][k[1]][0])
            for j in range(len(ls)): out[('m',) + k + (j,)] = ls[j]
        return out
    def term(v, it):
        if isinstance(v, T): return v
        if v is UNDEF: return fresh('uninit', sortof(v, tys[it]))
        if isinstance(v, bool): return TRUE if v else FALSE
        if isinstance(v, int):
            w = tys[it][1] if tys[it][0] == 'i' else 64
            if tys[it] == ('i', 1): return TRUE if v & 1 else FALSE
            return num(v - (1 << w) if v >> (w - 1) else v, 'I')
        raise Unsupported('loop carries %r' % (v,))
    # ---- closed forms
    k = var('k!%d' % n, 'I')
    form = {}
    N = [nexts(s2, x) for s2, x in bs]
    own = {v.id for it in init for v in freevars([cur[it]]) if '!' in str(v.val)}
    for it in init:
        a = cur[it]; ts = [term(q[it], it) for q in N]
        if all(t is a for t in ts): form[it] = init[it]; continue
        if a.sort == 'I':
            ds = {canon(ctx, sub(t, a)) for t in ts}
            if len(ds) == 1:
                d = ds.pop()
                if not any(v.id in own or '!' in str(v.val) for v in freevars([d])): form[it] = add(term(init[it], it), mul(k, d)) if d is not I0 else init[it]
    def name(it): return 'fn:L%d.%s' % (n, '_'.join(str(z) for z in it))
    def at(it, kk):
        if it in form:
            v = form[it]
            if not isinstance(v, T): return v
            v = subst(v, {k.id: kk})
            return canon(ctx, v) if v.sort == 'I' else v
        return mk('app', (canon(ctx, kk),), sortof(init[it], tys[it]), name(it))
    def heads(kk):
        def f(it):
            if kk is I0: return init[it]
            v = at(it, kk)
            return v
        return headvals(f)
    for _ in range(4):
        vals, cellv = heads(k)
        bs, es, start, log0 = run(vals, cellv, [le(I0, k)])
        if not bs: return None
        N = [nexts(s2, x) for s2, x in bs]
        more = False
        for it in init:
            if it in form: continue
            ts = {term(q[it], it) for q in N}
            if sortof(init[it], tys[it]) == 'I' and len(ts) == 1:
                t = canon(ctx, ts.pop())
                if any(x.op == 'app' and x.val.startswith('fn:L%d.' % n) for x in subterms([t])) or any('!' in str(v.val) and v is not k for v in freevars([t])): continue
                t = canon(ctx, subst(t, {k.id: sub(k, I1)}))
                if canon(ctx, sub(subst(t, {k.id: I0}), term(init[it], it))) is I0: form[it] = t; more = True
        if not more: break
    gens = [it for it in init if it not in form]
    # ---- a loop with a fixed number of iterations is unrolled
    for s2, x in es + bs:
        for h in s2.pc[start:]:
            fv = freevars([h])
            if len(fv) == 1 and fv[0] is k and not any(z.op == 'app' for z in subterms([h])): return None
    # ---- array elements written
    writes = {}
    for s2, x in bs:
        for o in log0:
            for e in s2.mem[o]['log'][log0[o]:]:
                if isinstance(e, Range): raise Unsupported('nested loop writes an array')
                idx, fo, v = e
                l = linear(ctx, idx, k)
                if l is None or l[0] not in (1, -1): raise Unsupported('array element written is not a + k')
                key = (o, fo)
                if key in writes and writes[key] != l: raise Unsupported('several elements of an array written in one iteration')
                writes[key] = l
    def wname(key): return 'fn:L%d.W.%s.%d' % (n, key[0], key[1])
    def wat(key, kk): return mk('app', (canon(ctx, kk),), 'R', wname(key))
    def ranges(bound): return [(o, Range(S, fo, a, c, bound, wname((o, fo)))) for (o, fo), (c, a) in sorted(writes.items())]
    # ---- definitions
    base = freshmark()
    def definition(bs, start, kk):
        """disjunction over the paths: conditions, next values, values written; as functions of k"""
        out = []
        for s2, x in bs:
            q = nexts(s2, x); eqs = list(s2.pc[start:])
            for it in gens: eqs.append(eq(mk('app', (canon(ctx, add(kk, I1)),), sortof(init[it], tys[it]), name(it)), term(q[it], it)))
            for key, (c, a) in writes.items():
                o, fo = key
                v = ctx.array_read(s2, ctx.objs[o], fo, canon(ctx, add(a, mul(num(c, 'I'), kk))))
                eqs.append(eq(wat(key, kk), v))
            out.append(eqs)
        # quantities that arise anew in each iteration
        vs = {v.id: mk('app', (kk,), v.sort, 'fn:L%d.v.%s' % (n, v.val)) for p in out for t in p for v in freevars([t]) if newer(v, base) and v is not k}
        if vs: out = [[subst(t, vs) for t in p] for p in out]
        return out
    vals, cellv = heads(k)
    bs, es, start, log0 = run(vals, cellv, [le(I0, k)], ranges(k))
    if not bs: return None
    D0 = definition(bs, start, k)
    vals0, cellv0 = heads(I0)
    bsA, esA, startA, _ = run(vals0, cellv0)
    DA = definition(bsA, startA, I0)
    start0 = [eq(at(it, I0), term(init[it], it)) for it in gens if init[it] is not UNDEF]
    def inst(D, kk): return [[normapps(ctx, subst(t, {k.id: kk})) for t in p] for p in D]
    def join(ps):
        if len(ps) == 1: return list(ps[0])
        if not ps: return [FALSE]
        return [Or(*[And(*p) for p in ps])]
    # ---- an arbitrary later iteration, after an iteration that did not leave the loop
    km = canon(ctx, sub(k, I1))
    prevf = [le(I1, k)] + join(inst(D0, km)) + [Or(ne(km, I0), z) for z in start0]
    # counters that stop at equality
    for s2, x in bs:
        for h in s2.pc[start:]:
            if h.op == 'not' and h.args[0].op == 'eq' and h.args[0].args[0].sort == 'I':
                d = canon(ctx, sub(*h.args[0].args)); l = linear(ctx, d, k)
                if l and l[0] in (1, -1):
                    d = d if l[0] < 0 else canon(ctx, neg(d))      # falls by one each time
                    if len(bs) == 1 and not ctx.feasible(st.pc, lt(subst(d, {k.id: I0}), I0)): prevf.append(le(I0, d))
    bs1, es1, start1, _ = run(vals, cellv, prevf, ranges(k))
    D1 = definition(bs1, start1, k)
    # ---- termination: some condition to continue bounds k
    def counts(s2):
        for h in s2.pc[start1:]:
            g = h.args[0] if h.op == 'not' else h
            if g.op in ('lt', 'eq') and g.args[0].sort == 'I':
                l = linear(ctx, canon(ctx, sub(g.args[1], g.args[0])), k)
                if l and l[0] and (g.op == 'eq' and h.op == 'not' or g.op == 'lt' and (l[0] < 0) == (h.op != 'not')): return True
        return False
    bounded = all(counts(s2) for s2, x in bs1)
    if not bounded: ctx.notes.append('termination of a loop in %s is not shown' % fn.name)
    # ---- monotone values
    mono = {}
    for it in gens:
        if sortof(init[it], tys[it]) != 'R' or init[it] is UNDEF: continue
        for d, rel in (('down', lambda a, b: lt(a, b)), ('up', lambda a, b: lt(b, a))):
            ok = True
            for s2, x in bs:
                if ctx.feasible(s2.pc, rel(at(it, k), term(nexts(s2, x)[it], it)), True): ok = False; break
            if ok:
                for s2, x in bsA:
                    if ctx.feasible(s2.pc, rel(term(init[it], it), term(nexts(s2, x)[it], it)), True): ok = False; break
            if ok: mono[it] = d; break
    # ---- which elements iteration k looks at
    looks = {}
    for p in D0:
        for t in subterms([z for z in p]):
            if t.op == 'app' and t.val.startswith('arr:') and len(t.args) == 1:
                l = linear(ctx, t.args[0], k)
                if l and l[0] in (1, -1): looks[(l[0], l[1])] = True
    def facts(pc, kk):
        """the definition at iteration kk, which was completed"""
        if not ctx.feasible(pc, lt(kk, I1)): return join(inst(D1, kk))
        if not ctx.feasible(pc, ne(kk, I0)): return join(inst(DA, I0)) + start0
        return join(inst(D0, kk)) + [Or(ne(kk, I0), z) for z in start0]
    S.facts = facts; S.ctx = ctx
    S.done = True
    # ---- leaving the loop; the states of this pass carry the obligations of every iteration
    del ctx.dead[base_dead:]
    out = []
    S.done = False
    bsA, esA, startA, _ = run(vals0, cellv0, keep=True)
    bs1, es1, start1, _ = run(vals, cellv, prevf, ranges(k), keep=True)
    S.done = True
    def leave(s2, x, trip):
        b, p, rg = x
        s2.pc = tuple(s2.pc)
        for it in gens:
            if init[it] is UNDEF or sortof(init[it], tys[it]) != 'R' or trip is I0: continue
            g = at(it, trip)
            if it in mono:
                g0 = term(init[it], it)
                s2.assume(le(g, g0) if mono[it] == 'down' else le(g0, g))
                for gname in ctx.opts.get('ghosts', ()):
                    gh = var(gname, 'I')
                    for (c, a) in looks:
                        kk = canon(ctx, mul(num(c, 'I'), sub(gh, a)))
                        cond = And(le(I0, kk), lt(kk, trip))
                        if not ctx.feasible(s2.pc, cond): continue
                        g1 = at(it, canon(ctx, add(kk, I1)))
                        demand(ctx, S, s2, kk, cond)
                        s2.assume(Or(Not(cond), le(g, g1) if mono[it] == 'down' else le(g1, g)))
            if ctx.opts.get('witness'):
                j = fresh('j', 'I')
                s2.assume(Or(eq(g, term(init[it], it)), And(le(I0, j), lt(j, trip), eq(g, at(it, add(j, I1))), ne(at(it, j), at(it, add(j, I1))), *join(inst(D0, j)))))
                s2.sk = s2.sk + tuple((n, it, canon(ctx, add(a, mul(num(c, 'I'), j)))) for (c, a) in looks)
        out.append((s2, b, p, rg))
    for s2, x in esA: leave(s2, x, I0)
    for s2, x in es1:
        root = None
        for h in s2.pc[start1:]:
            g = h.args[0] if h.op == 'not' else h
            if g.op in ('lt', 'eq') and g.args[0].sort == 'I':
                l = linear(ctx, canon(ctx, sub(g.args[1], g.args[0])), k)
                if l and l[0] in (1, -1):
                    for d in (0, 1, -1):
                        r = canon(ctx, mul(num(l[0], 'I'), sub(num(d, 'I'), l[1])))
                        if not ctx.feasible(s2.pc, ne(k, r)): root = r; break
            if root is not None: break
        if root is None: leave(s2, x, k); continue
        m = {k.id: root}; cache = {}
        def f(t): return normapps(ctx, subst(t, m, cache))
        s2.pc = tuple(z for z in (f(h) for h in s2.pc) if z is not TRUE) if False else tuple(f(h) for h in s2.pc)
        s2.obl = tuple((w, f(c) if isinstance(c, T) else c, q) for w, c, q in s2.obl)
        for o in list(s2.mem):
            c = s2.mem[o]; ch = {}
            for off, v in c.items():
                if off == 'base': continue
                if off == 'log':
                    nl = tuple(Range(e.summ, e.fo, f(e.a), e.c, f(e.bound), e.name) if isinstance(e, Range) and e.bound is k else e if isinstance(e, Range) else (f(e[0]), e[1], f(e[2])) for e in v)
                    if any(x is not y for x, y in zip(nl, v)): ch[off] = nl
                else:
                    v2 = vmap(v[0], f)
                    if v2 is not v[0]: ch[off] = (v2, v[1])
            if ch: s2.wcells(o).update(ch)
        rg = {r: vmap(v, f) for r, v in x[2].items()}
        leave(s2, (x[0], x[1], rg), root)
    return out

def freshmark():
    import terms
    return terms._fresh[0]
def newer(v, mark):
    s = str(v.val)
    if '!' not in s or s.startswith('k!'): return False
    try: return int(s.rsplit('!', 1)[1]) > mark
    except ValueError: return False

def normapps(ctx, t, _c={}):
    """arguments of array elements and of loop functions in normal form"""
    m = {}
    for x in subterms([t]):
        if x.op == 'app' and (x.val.startswith('arr:') or x.val.startswith('fn:L')) and x.args[0].sort == 'I':
            c = canon(ctx, x.args[0])
            if c is not x.args[0]: m[x.id] = mk('app', (c,), x.sort, x.val)
    return subst(t, m) if m else t

def demand(ctx, S, st, kk, cond):
    """bring in the definition of iteration kk under cond (kk was completed)"""
    if not S.done or (S.n, kk.id) in st.dem: return
    st.dem = st.dem | {(S.n, kk.id)}
    sure = not ctx.feasible(st.pc, Not(cond))
    pc = st.pc if sure else st.pc + (cond,)
    for t in S.facts(pc, kk):
        if t is TRUE: continue
        t = t if sure else Or(Not(cond), t)
        if t is FALSE: raise Infeasible()
        if t is not TRUE: st.pc = st.pc + (t,)

def read(ctx, st, e, idx, v):
    """value of element idx, v before the writes of entry e"""
    kk = canon(ctx, mul(num(e.c, 'I'), sub(idx, e.a)))
    cond = And(le(num(0, 'I'), kk), lt(kk, e.bound))
    if not ctx.feasible(st.pc, cond): return v
    demand(ctx, e.summ, st, kk, cond)
    w = mk('app', (kk,), 'R', e.name)
    if not ctx.feasible(st.pc, Not(cond)): return w
    return ite(cond, w, v)
