#!/usr/bin/env python3
"""Make /verif/seeded/<id>/ from a specification and confirm it:  python3 tools/mkbug.py SPEC.py [id...]
SPEC.py defines B = [dict(id, prop, edits=[(file, old, new[, nth])], needs, breaks, demo=<C++ main body or dict(lua=...)>)]"""
import sys, os, subprocess, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
HEAD = '''#include "TSpace.hpp"
#include "TSortedTree.hpp"
#include "TMatrix.hpp"
#include "MConvectiveFast.hpp"
#include "MDiffusiveFast.hpp"
#include "MEpsilonFast.hpp"
#include "MFlowmove.hpp"
#include "MStepdata.hpp"
#include "XField.hpp"
#include "XIsoline.hpp"
#include "XPressure.hpp"
#include "XVorticity.hpp"
#include "XVelocity.hpp"
#include "XStreamfunction.hpp"
#include <cstdio>
#include <cmath>
#include <cstdlib>
#include <memory>
#include <vector>
#include <string>
#include <stdexcept>
static int bad = 0;
static void same(const char* what, double a, double b, double tol = 1e-9) {
    if (!(fabs(a - b) <= tol * (1 + fabs(a) + fabs(b)))) { printf("MISMATCH %s: %.17g expected %.17g\\n", what, a, b); bad = 1; }
}
static std::shared_ptr<TBody> mkbody(const std::vector<TVec>& c, const std::vector<int>& slip = {}) {
    auto b = std::make_shared<TBody>();
    for (size_t i = 0; i < c.size(); i++) b->alist.emplace_back(c[i], i < slip.size() ? slip[i] : 0);
    b->doUpdateSegments(); b->doFillProperties(); return b;
}
static std::shared_ptr<TBody> circle(double x, double y, double r, int n) {
    std::vector<TVec> c; for (int i = 0; i < n; i++) c.push_back(TVec(x + r*cos(-2*M_PI*i/n), y + r*sin(-2*M_PI*i/n))); return mkbody(c);
}
extern "C" { extern const char* libvvhd_gitrev; extern const char* libvvhd_gitinfo; extern const char* libvvhd_gitdiff; }
'''
DEMO = '''#!/bin/bash
# run in /repo after the build: exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd); O=$(mktemp -d); trap 'rm -rf "$O"' EXIT
P=/opt/vp/deps
g++ -std=c++11 -w -O1 -fopenmp -fno-access-control -Ilibvvhd/headers -I$P/hdf5/include -I$P/lua/src "$D/demo.cpp" -L_build/libvvhd -Wl,--copy-dt-needed-entries -lvvhd -Wl,-rpath,"$PWD/_build/libvvhd" -o "$O/demo" || exit 2
cd "$O" && OMP_NUM_THREADS=2 timeout 120 ./demo
'''
LUA = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; O=$(mktemp -d); trap 'rm -rf "$O"' EXIT
cd "$O" && OMP_NUM_THREADS=2 timeout 200 "$R/_build/utils/vvflow/vvflow" "$D/demo.lua"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)


def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns); only = sys.argv[2:]
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    assert sh('git -C /repo status --porcelain').stdout.strip() == '', 'dirty /repo'
    todo = [b for b in ns['B'] if not only or b['id'] in only]
    for b in todo:
        d = os.path.join(ROOT, 'seeded', b['id']); os.makedirs(d, exist_ok=True)
        try:
            for e in b['edits']:
                p = os.path.join(REPO, e[0]); s = open(p).read(); n = e[3] if len(e) > 3 else 1
                if s.count(e[1]) < n: raise Exception('pattern not found: %r' % e[1])
                a = s.split(e[1]); s = e[1].join(a[:n]) + e[2] + e[1].join(a[n:]); open(p, 'w').write(s)
            open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C /repo diff').stdout)
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            if isinstance(b['demo'], dict):
                for f, t in b['demo'].items(): open(os.path.join(d, f), 'w').write(t)
                if 'demo.sh' not in b['demo']: open(os.path.join(d, 'demo.sh'), 'w').write(LUA)
            else:
                open(os.path.join(d, 'demo.cpp'), 'w').write(HEAD + b.get('pre', '') + '\nint main() {\n' + b['demo'] + '\n    return bad;\n}\n'); open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
            r = sh('bash /opt/vp/build.sh')
            if r.returncode: print(b['id'], 'DOES NOT BUILD', r.stdout[-500:]); continue
            with_ = sh('bash %s/demo.sh' % d, cwd=REPO)
            sh('bash /opt/vp/test.sh /tmp/mkbug.json'); miss = sorted(base - set(json.load(open('/tmp/mkbug.json'))['passed']))
        finally:
            sh('git -C /repo checkout -- .'); 
        sh('bash /opt/vp/build.sh')
        without = sh('bash %s/demo.sh' % d, cwd=REPO)
        ok = with_.returncode not in (0, 2) and without.returncode == 0 and not miss
        print(b['id'], 'OK' if ok else 'BAD', 'with=%d without=%d missing=%s' % (with_.returncode, without.returncode, miss[:3]), '' if ok else with_.stdout[-400:] + without.stdout[-600:], flush=True)
main()
