#!/usr/bin/env python3
"""Development helper: makes /verif/seeded/<id>/ from a planted change and confirms it in a scratch copy of /repo
(applies, builds, stable tests pass, demo 0 without and nonzero with).  Usage: seed.py specs.py [id...]"""
import json, os, subprocess, sys, shutil, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = 'libs/mathlib/include/'
SH = '''#!/bin/bash
# run in /repo after the build; compiles the program beside this file against the headers and runs it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
/usr/bin/g++ -std=c++11 -O1 -DNDEBUG -w -I libs/mathlib/include "$D/demo.cpp" -o "$T/demo" || exit 1
"$T/demo"
'''
PRE = '''#include <cmath>
#include <cstdio>
#include <cstddef>
#include "mathlib.h"
using namespace MATHLIB_NS;
typedef double R;
static int bad = 0;
static void check(bool ok, const char* what) { if (!ok) { printf("FAILED: %s\\n", what); bad = 1; } }
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-7 * (1 + std::fabs(a) + std::fabs(b)); }
'''
def run(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    scratch = '/tmp/seedscratch'; repo = scratch + '/repo'
    if not os.path.isdir(repo):
        os.makedirs(scratch, exist_ok=True); run('cp -a /repo ' + repo, '/')
        for f in ('build.sh', 'test.sh', 'results.py'):
            s = open('/opt/vp/' + f).read().replace('/repo', repo).replace('/opt/vp/', scratch + '/')
            open(scratch + '/' + f, 'w').write(s)
    run('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD', repo)
    shutil.rmtree(repo + '/_build', ignore_errors=True) if not os.path.exists(scratch + '/built') else None
    base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []) or [])
    for s in ns['SEEDS']:
        if want and s['id'] not in want: continue
        run('git checkout -q -f .', repo)
        d = ROOT + '/seeded/' + s['id']
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        for f, old, new in s['edits']:
            p = os.path.join(repo, INC, f); b = open(p, newline='').read(); crlf = '\r\n' in b
            t = b.replace('\r\n', '\n')
            if isinstance(old, tuple): old, nth = old
            else: nth = None
            n = t.count(old)
            if nth is None and n != 1: print(s['id'], 'PATTERN COUNT', n, f); break
            if nth is None: t = t.replace(old, new)
            else:
                i = -1
                for _ in range(nth): i = t.index(old, i + 1)
                t = t[:i] + new + t[i + len(old):]
            open(p, 'w', newline='').write(t.replace('\n', '\r\n') if crlf else t)
        else:
            open(d + '/patch.diff', 'w', newline='').write(subprocess.run('git diff --binary', cwd=repo, shell=True, stdout=subprocess.PIPE).stdout.decode('utf8', 'surrogateescape'))
            open(d + '/demo.cpp', 'w').write(PRE + s.get('top', '') + 'int main()\n{\n' + s['demo'].strip('\n') + '\n\treturn bad;\n}\n')
            open(d + '/demo.sh', 'w').write(SH); os.chmod(d + '/demo.sh', 0o755)
            json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
            r1 = run('bash %s/demo.sh' % d, repo)
            run('git checkout -q -f .', repo)
            r0 = run('bash %s/demo.sh' % d, repo)
            a = run('git apply %s/patch.diff' % d, repo)
            t = run('bash %s/test.sh %s/out.json' % (scratch, scratch), scratch)
            open(scratch + '/built', 'w').write('')
            o = json.load(open(scratch + '/out.json'))
            npass = len(o['passed']); nf = o['failed']
            ok = r0.returncode == 0 and r1.returncode != 0 and a.returncode == 0 and not nf and npass >= 1028
            print(s['id'], 'OK' if ok else 'BAD', 'demo', r0.returncode, r1.returncode, 'pass', npass, 'fail', nf[:4])
            if not ok: print(r0.stdout[-1500:], r1.stdout[-500:], a.stdout, t.stdout[-600:] if npass < 1028 else '')
        run('git checkout -q -f .', repo)
if __name__ == '__main__': main()
