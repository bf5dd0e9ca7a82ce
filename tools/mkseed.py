#!/usr/bin/env python3
"""Development aid: python3 tools/mkseed.py BUGS.py [id...]: plants each bug of BUGS.py in /repo, confirms it (builds, stable tests pass,
demonstration passes without and fails with it), stores it under seeded/, runs the property's check, and restores /repo."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('CM_REPO', '/repo')   # a scratch copy may stand in, with build.sh and test.sh of its own in CM_VP
VP = os.environ.get('CM_VP', '/opt/vp')
DEMO = '''#!/bin/bash
# exit 0: the behaviour is as it should be; cwd is the repository after the build
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
clang++-18 -std=c++14 -fms-extensions -Wno-nonportable-include-path -w -include "$D/compat.h" -I"$PWD/ColorMagic" -O1 "$D/demo.cpp" "$PWD/_build/libColorMagic.a" -o "$W/demo" || exit 3
timeout 60 "$W/demo"
'''
HEAD = '''#include <cstdio>
#include <cmath>
#include <vector>
%s
using namespace color_space;
using namespace color_manipulation;
static int bad = 0;
static void near(double got, double want, double tol, const char *what) { if (!(std::fabs(got - want) <= tol)) { std::printf("%%s: got %%g, want %%g\\n", what, got, want); bad = 1; } }
static void ok(bool c, const char *what) { if (!c) { std::printf("%%s\\n", what); bad = 1; } }
template <class F> static bool throws(F f) { try { f(); } catch (...) { return true; } return false; }
int main()
{
%s
  return bad;
}
'''
INC = ''.join('#include "%s"\n' % h for h in ['spaces/%s.h' % n for n in 'rgb_truecolor rgb_deepcolor grey_truecolor grey_deepcolor cmyk hsi hsv hsl hcy xyz xyy cieluv lab lch_ab lch_uv'.split()] +
              ['manipulation/%s.h' % n for n in 'color_converter color_calculation color_blend porter_duff color_adjustments color_combinations color_distance chromatic_adaptation'.split()] + ['utils/matrix.h', 'utils/colors.h'])


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    sh('git -C %s checkout -- .' % R)


def passed():
    p = sh('bash %s/test.sh /tmp/mkseed.json' % VP)
    return set(json.load(open('/tmp/mkseed.json'))['passed']) if p.returncode == 0 or os.path.exists('/tmp/mkseed.json') else set()


def main():
    bugs = {}
    exec(open(sys.argv[1]).read(), bugs)
    base = set(json.load(open('/opt/vp/BASELINE.json'))[next(k for k in json.load(open('/opt/vp/BASELINE.json')) if isinstance(json.load(open('/opt/vp/BASELINE.json'))[k], list))])
    for b in bugs['BUGS']:
        if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
            continue
        assert not sh('git -C %s status --porcelain' % R).stdout.strip(), 'repo not clean'
        d = V + '/seeded/' + b['id']
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copy(V + '/shim/msvc_compat.h', d + '/compat.h')
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.cpp', 'w').write(HEAD % (INC, b['demo']))
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        msg = []
        try:
            sh('bash %s/build.sh' % VP)
            p = sh('bash %s/demo.sh' % d, cwd=R)
            if p.returncode:
                msg.append('DEMO FAILS ON CLEAN TREE %d %s' % (p.returncode, p.stdout[-1500:]))
            for f, a, c in b['edits']:
                path = R + '/ColorMagic/' + f
                s = open(path, encoding='latin-1', newline='').read()
                if '\r\n' in s:
                    a, c = a.replace('\n', '\r\n'), c.replace('\n', '\r\n')
                n = s.count(a)
                if n != 1:
                    msg.append('edit of %s matches %d times' % (f, n))
                open(path, 'w', encoding='latin-1', newline='').write(s.replace(a, c, 1))
            open(d + '/patch.diff', 'w').write('')
            subprocess.run('git -C %s diff > %s/patch.diff' % (R, d), shell=True)
            p = sh('bash %s/build.sh' % VP)
            if p.returncode:
                msg.append('DOES NOT BUILD')
            lost = base - passed()
            if lost:
                msg.append('tests lost: %s' % sorted(lost)[:5])
            p = sh('bash %s/demo.sh' % d, cwd=R)
            if p.returncode in (0, 3):
                msg.append('DEMO PASSES WITH THE BUG %d %s' % (p.returncode, p.stdout[-800:]))
            demo = p.stdout.strip().split('\n')[0][:100]
            p = sh('python3 %s/check.py %s' % (V, b['prop']), cwd=V)
            v = [l for l in p.stdout.split('\n') if l.startswith('VIOLATION')]
            msg.append('caught (%d)' % len(v) if p.returncode == 1 and v else 'NOT CAUGHT %d %s' % (p.returncode, p.stdout[-300:]))
        finally:
            clean()
        print(b['id'], b['prop'], '; '.join(msg), '|', demo, flush=True)
    sh('bash %s/build.sh' % VP)


main()
