#!/usr/bin/env python3-vt
"""Mutation sweep (development aid, not a check): small syntactic changes to the library in scratch copies, each run against the contracts
that reach the changed function.  Prints the changes no contract objects to.   sweep.py FILE.h[,FILE.h] [count] [seed] [-j N]"""
import sys, os, re, random, subprocess, shutil, json
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT + '/mathvc', ROOT + '/contracts']
import contract as K, verify as V, props
files = sys.argv[1].split(','); count = int(sys.argv[2]) if len(sys.argv) > 2 else 40; seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
J = int(sys.argv[4]) if len(sys.argv) > 4 else 4
W = '/tmp/sweep.%d' % os.getpid(); os.makedirs(W)
INC = '/libs/mathlib/include'
def base():
    u = V.Unit([c for c in K.REG.values() if 'float' in c.opts.get('reals', ('float',))], 'float', W)
    u.build(); m = u.mod
    calls = {}
    for line in open(u.src[:-4] + '.opt.ll'):
        g = re.match(r'define .*?@"?([\w.$]+)"?\(', line)
        if g: cur = g.group(1); calls[cur] = set(); continue
        if '@' in line and not line.startswith('@') and not line.startswith('declare'):
            for f in re.findall(r'(?:call|invoke)[^@]*@"?([\w.$]+)"?\(', line): calls[cur].add(f)
    names = sorted({f for s in calls.values() for f in s} | set(calls))
    dem = dict(zip(names, subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')))
    reach = {}
    for c in u.contracts:
        w = ['W_' + c.name]
        if w[0] not in calls: continue
        seen = {w[0]: 0}; q = [w[0]]
        while q:
            f = q.pop(0)
            for g in calls.get(f, ()):
                if g not in seen: seen[g] = seen[f] + 1; q.append(g)
        for f, d in seen.items():
            k = dem.get(f, f); k = re.sub(r'<(float|double)>', '', k)
            k = re.sub(r'\(.*', '', k).split(' ')[-1].replace('mathlib::', '') if 'operator' not in k else re.sub(r'.*mathlib::(\w+::operator[^(]*|operator[^(]*)\(.*', r'\1', k)
            reach.setdefault(k, {}); reach[k][c.name] = min(d, reach[k].get(c.name, 99))
    return reach
OPS = [(r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '), (r'<= ', '< '), (r' < ', ' <= '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' && ', ' || '), (r' \|\| ', ' && '),
       (r'\.x\b', '.y'), (r'\.y\b', '.x'), (r'\.z\b', '.y'), (r'\bx\b', 'y'), (r'\bz\b', 'x'), (r'Real\(1\)', 'Real(2)'), (r'Real\(0\)', 'Real(1)'), (r'Real\(2\)', 'Real(1)'), (r'return false', 'return true'), (r'return true', 'return false'),
       (r'\+= ', '-= '), (r'-= ', '+= '), (r'\*= ', '/= '), (r'::min\(', '::max('), (r'::max\(', '::min('), (r'([=(,] ?)-', r'\1'), (r'!(?=[a-z(])', ''), (r'&= ', '= '), (r'\|= ', '= '), (r'~', ''), (r'^(\s*)[\w.\[\]\->:]+ ?[-+*|&/]?= .*;', r'\1;'), (r'^(\s*)(?!return|else|case|Real|Vec|Mat|Quat|bool|int|const|delete)[\w.:]+\(.*\);', r'\1;'),
       (r'\bsin\b', 'cos'), (r'\bcos\b', 'sin'), (r'\[0\]', '[1]'), (r'\[1\]', '[0]'), (r' 0;', ' 1;'), (r' % ', ' * '), (r'\+\+i', 'i += 2'), (r'\btrue\b', 'false'), (r'NormalBit|FlagNormal|Normal\b', 'Identity') ]
def mutants(reach):
    out = []
    for f in files:
        p = '/repo' + INC + '/' + ('impl/' + f if os.path.exists('/repo' + INC + '/impl/' + f) and not f.startswith('./') else f)
        src = open(p, newline='', encoding='latin-1').read().split('\n'); fn = None
        for i, l in enumerate(src):
            g = re.match(r'^(?:inline |static |constexpr )*[\w<>,&*: ]*?\b(\w+)<Real>::(~?operator ?[^(]+|\w+)\s*\(', l)
            if g and not l.startswith('\t'): fn = g.group(1) + '::' + g.group(2).strip(); continue
            g = re.match(r'^(?:inline |static |template.*> )*[\w<>,&*: ]+? [&*]?(operator ?[^(]+|\w+)\s*\(', l)
            if g and not l.startswith('\t'): fn = g.group(1); continue
            if l.startswith('}'): fn = None
            s = l.strip()
            if fn is None or s.startswith('//') or 'assert' in s or s.startswith('#') or not s: continue
            for a, b in OPS:
                ms = list(re.finditer(a, l))
                for m in ms:
                    l2 = l[:m.start()] + re.sub(a, b, m.group(0), count=1) + l[m.end():] if '^' not in a else re.sub(a, b, l, count=1)
                    if l2 != l: out.append((p, i, fn, l, l2))
    return out
def run(n, mu):
    p, i, fn, l, l2 = mu
    d = '%s/r%d' % (W, n); shutil.copytree('/repo/libs', d + '/libs', symlinks=True)
    q = d + p[len('/repo'):]
    s = open(q, newline='', encoding='latin-1').read().split('\n'); s[i] = l2 + ('' if not l.endswith('\r') or l2.endswith('\r') else '\r'); open(q, 'w', newline='', encoding='latin-1').write('\n'.join(s))
    t = '%s/t%d.cpp' % (W, n); open(t, 'w').write('#include <cstddef>\n#include "mathlib.h"\n')
    cs = sorted(reach.get(fn, {}).items(), key=lambda z: (z[1], K.REG[z[0]].opts.get('cost', 1), z[0]))
    cs = [c for c, _ in cs][:14]
    res = 'MISSED' if cs else 'UNREACHED'; det = ''
    by = {}
    for c in cs:
        for pid, v in props.PROPS.items():
            if pid[0] == 'P' and c in v['contracts']: by.setdefault(pid, []).append(c)
    for pid, only in sorted(by.items(), key=lambda z: (z[0] == 'P06', -len(z[1]))):
        try: r = subprocess.run(['python3-vt', ROOT + '/mathvc/run.py', pid, '--only', ','.join(only), '--real', 'float', '-j', '1'], env=dict(os.environ, MATHVC_REPO=d, MATHVC_EVID=d), capture_output=True, text=True, timeout=200)
        except subprocess.TimeoutExpired: res = 'TIMEOUT'; continue
        if 'VIOLATION' in r.stdout: res = 'caught' if re.search(r'VIOLATION property=\S+ replay=\S+$', r.stdout, re.M) else 'nowitness'; det = pid
        elif 'cannot build' in r.stdout: res = 'nobuild'; break
        elif r.returncode == 2: res = 'ERROR'; det = r.stdout[-200:]
        elif 'UNDECIDED' in r.stdout and res == 'MISSED': res = 'UNDECIDED'; det = pid
        if res == 'caught': break
    shutil.rmtree(d)
    return res, det, fn, os.path.basename(p), i + 1, l.strip(), l2.strip(), ','.join(cs[:4])
reach = base()
ms = mutants(reach); random.Random(seed).shuffle(ms); ms = ms[:count]
tot = {}
with ThreadPoolExecutor(J) as ex:
    for r in ex.map(lambda z: run(*z), enumerate(ms)):
        tot[r[0]] = tot.get(r[0], 0) + 1
        if r[0] not in ('caught', 'nobuild'): print(r[0], r[1], r[2], '%s:%d' % (r[3], r[4]), '|', r[5], '=>', r[6], '|', r[7], flush=True)
print(tot)
shutil.rmtree(W)
