#!/usr/bin/env python3-vt
"""Check one property:  run.py <ID> [--tier quick|thorough] [--only CONTRACT] [-v]"""
import re, sys, os, json, time, random, tempfile, shutil, multiprocessing as mp, traceback, resource
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(ROOT, 'contracts'))
from terms import *
import contract as K
from contract import *
import verify as V
from verify import *
import prove as P
from replay import Replayer, model_values
from modular import register, Applier, ArrayApplier, Choice
import props

def closure_types(): pass

class Job:
    __slots__ = ('c', 'unit')

def worker_init(): 
    signal = __import__('signal'); signal.signal(signal.SIGINT, signal.SIG_IGN)

UNITS = {}; APPL = {}; OPTS = {}

class Several:
    """native runs of a contract proved for all sizes: the sizes are fixed for each run"""
    def __init__(self, inst):
        self.reps = []
        for case in inst.c.opts['natives']:
            i2 = V.Inst(inst.c, inst.u, dict(inst.case, **case), inst.alias)
            self.reps.append(Replayer(i2))
        self.ok = all(r.ok for r in self.reps)
    def search(self, rng, n, seeds=()):
        total = 0
        for r in self.reps:
            tried, v, env, bad = r.search(rng, max(20, n // len(self.reps)))
            total += tried or 0
            if bad: return total, dict(v, **{'case ' + k: x for k, x in r.inst.case.items()}), env, bad
        return total, None, None, None
def replayer(inst): return Several(inst) if inst.c.opts.get('natives') else Replayer(inst)

def check_contract(name, real, seed, tier, prover):
    t0 = time.time()
    c = K.REG[name]; u = UNITS[real]
    appl = {k: b for k, a in APPL[real].items() for b in [a.without(name)] if b is not None}
    P.STATS.clear(); P.TRIGSIGN[0] = bool(c.opts.get('trig')); P.FMODN[:] = [var(n, 'I') for n in c.opts.get('turns', ())]
    budget = c.opts.get('budget', 150 if tier == 'quick' else 900)
    prover.deadline = t0 + budget
    out = dict(name=name, real=real, obligations=[], undecided=[], failures=[], sampled=[], inlined=set(), called=set(), ext=set(), instances=0, paths=0, reach=0)
    rng = random.Random('%s/%s/%s' % (seed, name, real))
    uses0 = {(k, n): m for k, a in appl.items() for n, m in a.used().items()}
    for inst in instances(c, u):
        il = inst.label()
        obls = []
        out['instances'] += 1
        try:
            if c.opts.get('sampled'):
                # bounded stand-in: the contract is judged on the compiled code for sampled inputs only
                rep = replayer(inst); n = c.opts['sampled']
                tried, v, env, bad = rep.search(rng, n * (1 if tier == 'quick' else 10))
                out['sampled'].append(dict(contract=name, inst=il, real=real, inputs=tried))
                if tried < n // 20: out['undecided'].append(dict(inst=il, label='vacuity', why='only %d of %d sampled inputs meet the precondition' % (tried, n)))
                if bad:
                    out['failures'].append(dict(contract=name, inst=il, label='sampled ' + bad[0][0], kind='bounded', status='refuted', backend='native', t=0, goal=bad[0][1], hyps=[],
                        witness=dict(inputs={k: repr(x) for k, x in v.items()}, outputs={k: repr(x) for k, x in env.items() if k not in v and (k.startswith('post') or k.startswith('out'))}, violated=[list(b) for b in bad[:6]])))
                    break
                continue
            ctx, npaths, e = run_instance(inst, appl, prover, obls.append)
            out.setdefault('notes', []).extend(ctx.notes)
            out['inlined'] |= ctx.inlined; out['called'] |= ctx.called; out['ext'] |= ctx.externals
            out['paths'] += npaths
            # vacuity: the precondition must be satisfiable (a witness or at least not refuted)
            reach = not e.requires_terms or prover.feasible((), And(*e.requires_terms))
            if not reach:
                out['undecided'].append(dict(inst=il, label='vacuity', why='precondition is unsatisfiable'))
            if npaths == 0: 
                obls.append(dict(label='terminates-normally', hyps=list(e.requires_terms), goal=FALSE, kind='post', inst=inst, env=e))
            if not obls:
                out['undecided'].append(dict(inst=il, label='vacuity', why='no obligation was generated'))
            lb, nl = OPTS.get('labels'), OPTS.get('nolabels')
            if lb: obls = [o for o in obls if re.search(lb, o['label'])]
            if nl: obls = [o for o in obls if not re.search(nl, o['label'])]
            rep = None
            for o in obls:
                t1 = time.time()
                st_, be, det = prover.prove(o['hyps'], o['goal'], o['label'], effort=1)
                rec = dict(contract=name, inst=il, label=o['label'], kind=o['kind'], status=st_, backend=be)
                vals = []
                if st_ != 'proved':
                    if rep is None:
                        try: rep = replayer(inst)
                        except BuildError: raise
                        except Exception as ex: rep = False; rec['replay_error'] = repr(ex)
                    def hunt(n):
                        if not (rep and rep.ok): return
                        if det is not None and isinstance(det, tuple) and isinstance(rep, Replayer):
                            try: vals[:] = [model_values(rep, det[0], det[1])]
                            except Exception as ex: rec['model_error'] = repr(ex)
                        try:
                            tried, v, env, bad = rep.search(rng, n, vals)
                            rec['searched'] = rec.get('searched', 0) + tried
                            if bad:
                                rec['witness'] = dict(inputs={k: repr(x) for k, x in v.items()}, outputs={k: repr(x) for k, x in env.items() if k not in v and (k.startswith('post') or k.startswith('out'))}, violated=[list(b) for b in bad[:6]])
                        except V.BuildError: raise
                        except Exception as ex: rec['replay_error'] = traceback.format_exc()[-600:]
                    ns = c.opts.get('samples', 1500 if tier == 'quick' else 20000)
                    hunt(ns // 2)
                    if not rec.get('witness') and st_ != 'refuted':
                        st_, be, det = prover.prove(o['hyps'], o['goal'], o['label'])
                        rec.update(status=st_, backend=be)
                        if st_ != 'proved': hunt(ns // 2)
                rec['t'] = round(time.time() - t1, 3)
                if st_ != 'proved':
                    rec['goal'] = show(o['goal'], 8)[:2000]
                    rec['hyps'] = [show(h, 6)[:300] for h in o['hyps']][:40]
                    if vals: rec['model'] = {k: repr(x) for k, x in vals[0].items()}
                    out['failures'].append(rec)
                    if rec.get('witness') or len(out['failures']) > 6: break
                out['obligations'].append(rec)
        except (Unsupported, Infeasible, RecursionError, KeyError, AttributeError, NotImplementedError, IndexError, TypeError, ValueError) as ex:
            why = '%s: %s' % (type(ex).__name__, ex)
            if OPTS.get('verbose'): traceback.print_exc()
            # outside the verifier's reach: bounded check of the same contract on the real code
            rec = dict(inst=il, label='*', why=why)
            try:
                rep = replayer(inst)
                if rep.ok:
                    tried, v, env, bad = rep.search(rng, 4000 if tier == 'quick' else 40000)
                    rec['bounded_samples'] = tried
                    if bad:
                        out['failures'].append(dict(contract=name, inst=il, label='bounded:' + bad[0][0], kind='bounded', status='refuted', backend='native', t=0, goal=bad[0][1], hyps=[],
                            witness=dict(inputs={k: repr(x) for k, x in v.items()}, outputs={k: repr(x) for k, x in env.items() if k not in v and (k.startswith('post') or k.startswith('out'))}, violated=[list(b) for b in bad[:6]])))
            except Exception as ex2: rec['bounded_error'] = repr(ex2)
            out['undecided'].append(rec)
        if any(f.get('witness') for f in out['failures']): break
    out['applied'] = sorted(n for k, a in appl.items() for n, m in a.used().items() if m > uses0.get((k, n), 0))
    out['stats'] = {k: list(v) for k, v in P.STATS.items()}
    out['time'] = time.time() - t0
    for k in ('inlined', 'called', 'ext'): out[k] = sorted(out[k])
    return out

def task(a):
    name, reals, seed, tier = a
    # one prover for both instantiations: identical obligations (same terms) are discharged once
    prover = P.Prover(rlimit=4000000 if tier == 'quick' else 20000000, timeout=6000 if tier == 'quick' else 30000)
    out = []
    for real in reals:
        try: out.append(check_contract(name, real, seed, tier, prover))
        except Exception as ex: out.append(dict(name=name, real=real, crash=traceback.format_exc()))
    return out

def demangle(names):
    import subprocess
    if not names: return []
    p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return p.stdout.strip().split('\n')

def load_known(pid):
    """known-findings file: one JSON object per line {property, contract, label|null, real|null, what}"""
    out = []
    p = os.path.join(ROOT, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith('#') or l.startswith('fixed:'): continue
            d = json.loads(l)
            if d.get('property') == pid: out.append(d)
    return out

def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only'); ap.add_argument('-v', action='store_true'); ap.add_argument('--real'); ap.add_argument('-j', type=int, default=int(os.environ.get('MATHVC_JOBS', '8')))
    a = ap.parse_args()
    OPTS['verbose'] = a.v
    t0 = time.time()
    seed = os.environ.get('VERIF_SEED', '1')
    prop = props.PROPS[a.pid]
    OPTS['labels'] = prop.get('labels'); OPTS['nolabels'] = prop.get('nolabels')
    names = list(prop['contracts'])
    # every modular contract that can be applied while verifying these is verified here as well
    mods = [n for n in prop.get('uses', [])]
    for n in mods:
        if n not in names: names.append(n)
    if a.only: sel = [n for n in names if n in a.only.split(',')]
    else: sel = names
    work = tempfile.mkdtemp(prefix='mathvc_%s_' % a.pid)
    rc = 2
    try:
        rc = go(a, prop, names, sel, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)

def go(a, prop, names, sel, seed, work, t0):
    cs = [K.REG[n] for n in names]
    reals = [a.real] if a.real else ['float', 'double']
    from concurrent.futures import ThreadPoolExecutor
    def mkunit(r):
        u = Unit([c for c in cs if r in c.opts.get('reals', ('float', 'double'))], r, work)
        return r, u
    with ThreadPoolExecutor(2) as ex: us = list(ex.map(mkunit, reals))
    for r, u in us:
        try: u.build()
        except BuildError as ex:
            print('ERROR property=%s cannot build the contract wrappers against /repo (%s):\n%s' % (a.pid, r, ex)); return 2
        UNITS[r] = u; APPL[r] = {}
        for c in u.contracts:
            if c.modular:
                d = register(c, u)
                if d is None: print('NOTE: contract %s is not applicable at call sites' % c.name); continue
                if any(p.arr for p in c.params):
                    x = APPL[r].get(d[0])
                    if x is None or x.desc != d[1]: APPL[r][d[0]] = ArrayApplier([c], u, d[1])
                    else: APPL[r][d[0]] = ArrayApplier(x.cs + [c], u, d[1])
                else: APPL[r].setdefault(d[0], Choice([])).add(Applier(c, u, d[1]))
    # native libraries for replays are built in the background, only used on failure
    tasks = [(n, [r for r in reals if r in K.REG[n].opts.get('reals', ('float', 'double'))], seed, a.tier) for n in sel]
    tasks.sort(key=lambda t: -K.REG[t[0]].opts.get('cost', 1))
    res = []
    ctx = mp.get_context('fork')
    if a.j > 1 and len(tasks) > 1:
        with ctx.Pool(a.j, initializer=worker_init, maxtasksperchild=20) as pool:
            for rr in pool.imap_unordered(task, tasks, chunksize=1):
                for r in rr:
                    res.append(r)
                    if a.v: report1(r)
    else:
        for t in tasks:
            for r in task(t):
                res.append(r)
                if a.v: report1(r)
    res.sort(key=lambda r: (r['name'], r['real']))
    return finish(a, prop, names, sel, res, seed, t0, reals)

def report1(r):
    if 'crash' in r: print('CRASH', r['name'], r['real'], r['crash']); return
    print('%-34s %-6s inst=%d paths=%d obl=%d fail=%d undec=%d %.2fs %s' % (r['name'], r['real'], r['instances'], r['paths'], len(r['obligations']), len(r['failures']), len(r['undecided']), r['time'], ' '.join('%s:%d/%.1f' % (k, v[0], v[1]) for k, v in r['stats'].items())))
    for f in r['failures']:
        print('   FAIL', f['inst'], f['label'], f['status'], f['backend'], f.get('t'), 'searched=%s' % f.get('searched'), f.get('replay_error', ''), f.get('model_error', ''))
        print('      goal', f['goal'][:600]);
        for h in f['hyps']: print('      hyp ', h[:200])
        if f.get('model'): print('      model', f['model'])
        if f.get('witness'): print('      WITNESS', f['witness'])
    for f in r['undecided']: print('   UNDECIDED', f)
    sys.stdout.flush()

def finish(a, prop, names, sel, res, seed, t0, reals):
    pid = a.pid
    known = load_known(pid)
    obl = sum(len(r.get('obligations', [])) for r in res)
    disch = sum(1 for r in res for o in r.get('obligations', []) if o['status'] == 'proved')
    failing = []; undec = []; crash = []; kn = {}
    for r in res:
        if 'crash' in r: crash.append(r); continue
        for f in r['failures']:
            f['real'] = r['real']
            k = next((k for k in known if k['contract'] == f['contract'] and (k.get('label') is None or f['label'].startswith(k['label'])) and k.get('real') in (None, r['real']) and (k.get('inst') is None or k['inst'] in f['inst'])), None)
            if k is not None: kn.setdefault(k['what'], []).append(f)
            else: failing.append(f)
        for f in r['undecided']: f['contract'] = r['name']; f['real'] = r['real']; undec.append(f)
    EV = os.environ.get('MATHVC_EVID') or os.path.join(ROOT, 'evidence')
    os.makedirs(EV, exist_ok=True)
    backends = {}; stats = {}
    for r in res:
        for o in r.get('obligations', []):
            if o['status'] == 'proved':
                for b in (o['backend'] or '').split('+'): backends[b] = backends.get(b, 0) + 1
        for k, v in r.get('stats', {}).items():
            s = stats.setdefault(k, [0, 0.0]); s[0] += v[0]; s[1] += v[1]
    fns = set(); ext = set(); applied = set()
    for r in res:
        fns.update(r.get('inlined', [])); ext.update(r.get('ext', [])); applied.update(r.get('applied', []))
    dem = sorted({d for d in demangle(sorted(fns)) if 'mathlib::' in d})
    targets = sorted(n for n in sel)
    bounded = sorted({c for c in sel if K.REG[c].opts.get('bounded')}); sampled = [x for r in res for x in r.get('sampled', [])]; sampnames = sorted({x['contract'] for x in sampled})
    rc = 0; lines = []
    for what in kn: lines.append('KNOWN-FINDING: property=%s %s' % (pid, what))
    nviol = 0
    shown = set()
    for f in failing:
        if f['contract'] in shown and not f.get('witness'): continue
        shown.add(f['contract'])
        nviol += 1
        path = os.path.join(EV, 'replay-%s-%d.json' % (pid, nviol))
        f['cxx'] = K.REG[f['contract']].wrapper()
        f['expression'] = K.REG[f['contract']].expr
        with open(path, 'w') as fh: json.dump(f, fh, indent=1, default=str)
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, path, '' if f.get('witness') else ' no-failing-input-found'))
        lines.append('  contract %s [%s] %s: %s' % (f['contract'], f['real'], f['inst'], f['label']))
        rc = 1
    for u in undec: lines.append('UNDECIDED property=%s contract=%s [%s] %s: %s (bounded samples on the real code: %s)' % (pid, u['contract'], u['real'], u.get('inst'), u['why'], u.get('bounded_samples', 0)))
    if crash and rc == 0: rc = 2
    for c in crash: lines.append('ERROR ' + c['name'] + '\n' + c['crash'])
    if any(u['label'] == 'vacuity' for u in undec) and rc == 0: rc = 2
    if obl == 0 and rc == 0: rc = 2; lines.append('ERROR no obligations')
    assumptions = list(COMMON_ASSUMPTIONS) + list(prop.get('assumptions', []))
    if bounded: assumptions.append('bounded stand-ins (fixed sizes, complete for those sizes, not counted as proof for all sizes): ' + ', '.join(bounded))
    if sampnames: assumptions.append('bounded stand-ins judged on the compiled code for sampled inputs only (not proved): ' + ', '.join(sampnames))
    notes = {}
    for r in res:
        for n in set(r.get('notes', [])): notes.setdefault(n, set()).add(r['name'])
    for n, cs in sorted(notes.items()): assumptions.append('loops: %s (%s)' % (n, ', '.join(sorted(cs))))
    if any(K.REG[c].opts.get('symloops') and K.REG[c].opts.get('ghosts') for c in sel): assumptions.append('array contracts with a symbolic element count: arrays hold exactly the stated number of elements at the stated stride and do not overlap other arguments; counts and byte offsets are shown to stay within the machine range, elements are shown to lie inside their arrays')
    for u in undec: assumptions.append('UNDECIDED on this tree: %s %s: %s' % (u['contract'], u.get('inst'), u['why']))
    nb = [o for r in res for o in r.get('obligations', []) if o['status'] == 'proved' and K.REG[r['name']].opts.get('bounded')]
    part = bool(bounded or sampnames)
    ev = dict(property=pid, tier=a.tier, seed=int(seed), level='other' if part else 'proof', wall_s=round(time.time() - t0, 1),
              assumptions=assumptions,
              coverage=dict(obligations=obl + sum(len(r.get('undecided', [])) for r in res if 'crash' not in r), discharged=disch, discharged_bounded=len(nb),
                            checker_cmd='python3-vt mathvc/run.py %s --tier %s' % (pid, a.tier),
                            trusted_base=TRUSTED, contracts=targets, bounded_contracts=bounded, sampled_contracts=sampled, instances=sum(r.get('instances', 0) for r in res),
                            paths=sum(r.get('paths', 0) for r in res), modular_applications=sorted(applied), functions_executed_from_source=dem,
                            external_functions=sorted(ext), backends=backends, solver={k: dict(queries=v[0], seconds=round(v[1], 2)) for k, v in stats.items()},
                            undecided=undec, real_types=reals, known_findings=sorted(kn)),
              violations=nviol)
    ev['coverage']['failed_obligations'] = [dict(contract=f['contract'], real=f['real'], instance=f['inst'], obligation=f['label'], witness=f.get('witness')) for f in failing]
    if part: ev['coverage']['explanation'] = 'contracts discharged by deductive verification for all inputs, except the contracts listed as bounded (all inputs, fixed sizes) or sampled (compiled code run on sampled inputs), which stand in for what the verifier does not reach'
    if not a.only:
        with open(os.path.join(EV, pid + '.json'), 'w') as fh: json.dump(ev, fh, indent=1, default=str)
    for l in lines: print(l)
    print('%s property=%s contracts=%d%s obligations=%d discharged=%d undecided=%d violations=%d wall=%.1fs' % ('OK' if rc == 0 else 'FAIL' if rc == 1 else 'ERROR', pid, len(sel), ' (%d sampled only)' % len(sampnames) if sampnames else '', obl, disch, len(undec), nviol, time.time() - t0))
    return rc

COMMON_ASSUMPTIONS = [
 'machine floating point is treated as mathematical real arithmetic (no rounding, overflow, NaN or infinity); float and double instantiations are both verified; a narrowing to float inside a double instantiation is NOT treated as exact',
 'decimal and pi-multiple literals are read as the mathematical constant the source spells',
 'clang 18 front end and the LLVM passes sroa, early-cse, simplifycfg preserve the meaning of the source; asserts are compiled out (NDEBUG) as in the shipped build',
 'libm functions (sqrt, sin, cos, tan, asin, acos, atan2, fmod, pow, floor) satisfy their textbook axioms over the reals',
 'pointer arguments are valid and either disjoint or aliased exactly in the patterns the contract lists',
]
TRUSTED = ['mathvc symbolic executor and ring normaliser (/verif/mathvc)', 'LLVM 18 IR reader and clang 18', 'z3 5.3.2 / cvc5 1.1.2', 'the contract files in /verif/contracts']

if __name__ == '__main__': main()
