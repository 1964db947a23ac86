#!/usr/bin/env python3
"""Make one planted bug: mkseed.py SPEC.py  (SPEC defines id, prop, edits=[(old,new)], demo, needs, breaks).  Writes seeded/<id>/ and tests it in a scratch copy."""
import os, subprocess, sys, json, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = r'''#include "include/colorsystem.hpp"
#include <cstdio>
#include <cmath>
#include <vector>
#include <string>
using namespace ColorSystem;
static int bad = 0;
static void near(const char *w, double a, double b, double tol) { if (!(std::fabs(a - b) <= tol)) { std::printf("%s: %.9g, expected %.9g\n", w, a, b); bad = 1; } }
static void yes(const char *w, bool c) { if (!c) { std::printf("%s\n", w); bad = 1; } }
int main() {
'''
SH = '''#!/bin/bash
# run with cwd = the repository
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 %s -include cstring -include cstdint -I . "$d/demo.cpp" -o "$t/demo" || exit 2
timeout 60 "$t/demo"
'''


def sh(c, cwd, timeout=600):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)


def main(path, full):
    for k in runpath(path):
        one(k, full)


def runpath(path):
    g = {}
    exec(open(path).read(), g)
    return g['SEEDS']


def one(k, full):
    d = os.path.join(HERE, 'seeded', k['id'])
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='seed_')
    try:
        r = os.path.join(t, 'r')
        sh('git clone -q /repo %s' % r, '/')
        f = os.path.join(r, 'include/colorsystem.hpp')
        s = open(f).read()
        for old, new in k['edits']:
            n = s.count(old)
            if n != 1:
                print(k['id'], 'edit matches', n, 'times:', old[:80])
                return
            s = s.replace(old, new)
        open(f, 'w').write(s)
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git diff', r).stdout)
        open(os.path.join(d, 'demo.cpp'), 'w').write(PRE + k['demo'] + '\n    return bad;\n}\n')
        open(os.path.join(d, 'demo.sh'), 'w').write(SH % k.get('flags', ''))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=k['prop'], needs=k['needs'], what_it_breaks=k['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = sh('bash %s/demo.sh' % d, '/repo')
        b = sh('bash %s/demo.sh' % d, r)
        msg = 'demo clean=%d patched=%d' % (a.returncode, b.returncode)
        if a.returncode:
            msg += ' CLEAN: ' + (a.stdout + a.stderr)[:500]
        if full:
            c = sh('cp -a /repo/ext . ; cmake -S . -B _b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS_RELWITHDEBINFO="-O1" -DCMAKE_POLICY_VERSION_MINIMUM=3.5 '
                   '-DCMAKE_CXX_FLAGS="-Wno-error -include cstring -DCATCH_CONFIG_NO_POSIX_SIGNALS" >/dev/null && ninja -C _b >/dev/null && cd test && ../_b/test/colortest | tail -3', r)
            msg += ' tests: ' + ' / '.join(c.stdout.strip().split('\n')[-2:])
        print(k['id'], k['prop'], msg)
    finally:
        shutil.rmtree(t, ignore_errors=True)


main(sys.argv[1], '--full' in sys.argv)
