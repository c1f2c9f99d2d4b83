"""mkseed.py SPEC.py : each entry of SPECS (id, property, [(file, old, new)], needs, breaks, demo main body) is tried on /repo
(build, stable tests, demo before and after) and kept in seeded/ if it counts; /repo is restored."""
import sys, os, subprocess, json, shutil, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = '/repo'
DEMO_SH = '''#!/bin/bash
# exit 0: the behaviour the property demands; nonzero: broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/Ystring"
g++ -std=c++20 -O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all -w -I/repo/include -I/repo/src -I/repo/src/Ystring "$d/demo.cpp" $(ls /repo/src/Ystring/*.cpp | grep -v Subrange.cpp) -o "$t/demo" || exit 3
timeout 60 "$t/demo"
'''
PRE = '''#include <EncodeUtf8.hpp>
#include <Ystring/Algorithms.hpp>
#include <Ystring/CaseInsensitive.hpp>
#include <Ystring/CodepointPredicates.hpp>
#include <Ystring/CodepointSet.hpp>
#include <Ystring/ConvertCase.hpp>
#include <Ystring/DecodeUtf8.hpp>
#include <Ystring/Escape.hpp>
#include <Ystring/Normalize.hpp>
#include <Ystring/TokenIterator.hpp>
#include <Ystring/Unescape.hpp>
#include <Ystring/Utf32.hpp>
#include <cstdio>
#include <string>
#include <vector>
using namespace ystring;
using std::string; using std::string_view; using std::u32string;
static int bad = 0;
#define CHECK(x) do { if (!(x)) { std::printf("wrong: %s\\n", #x); bad = 1; } } while (0)
int main()
{
'''
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    base = set(json.load(open('/opt/vp/BASELINE.json'))['passed']) if 'passed' in json.load(open('/opt/vp/BASELINE.json')) else None
    for sid, prop, edits, needs, breaks, demo in ns['SPECS']:
        if only and sid not in only: continue
        d = os.path.join(ROOT, 'seeded', sid); tmp = d + '.tmp'
        if os.path.exists(d) and not only: continue
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        open(tmp + '/demo.sh', 'w').write(DEMO_SH); os.chmod(tmp + '/demo.sh', 0o755)
        open(tmp + '/demo.cpp', 'w').write(PRE + demo.strip('\n') + '\n    return bad;\n}\n')
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(tmp + '/meta.json', 'w'), indent=1)
        why = None
        try:
            r = sh('bash', tmp + '/demo.sh', cwd=R)
            if r.returncode: why = 'demo fails on the clean tree: ' + r.stdout + r.stderr[-1500:]
            else:
                for f, a, b in edits:
                    t = open(R + '/' + f).read()
                    if t.count(a) != 1: why = '%d matches in %s of %r' % (t.count(a), f, a); break
                    open(R + '/' + f, 'w').write(t.replace(a, b))
            if why is None:
                open(tmp + '/patch.diff', 'w').write(sh('git', '-C', R, 'diff').stdout)
                r = sh('bash', '/opt/vp/test.sh', '/tmp/seed-out.json'); o = json.load(open('/tmp/seed-out.json'))
                if len(o['passed']) < 100: why = 'tests: %d passed, failed %s %s' % (len(o['passed']), o['failed'][:5], r.stderr[-800:] + r.stdout[-500:] if not o['passed'] else '')
                else:
                    r = sh('bash', tmp + '/demo.sh', cwd=R)
                    if r.returncode in (0, 3): why = 'demo passes with the patch (%d) %s' % (r.returncode, r.stderr[-500:])
        finally:
            sh('git', '-C', R, 'checkout', '--', '.')
        if why: print(sid, 'NO:', why); shutil.rmtree(tmp)
        else:
            shutil.rmtree(d, ignore_errors=True); os.rename(tmp, d); print(sid, 'ok')
    sh('bash', '/opt/vp/build.sh')
main()
