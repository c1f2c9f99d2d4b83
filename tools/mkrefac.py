"""development: leave the tree after one behaviour-preserving edit in a directory  mkrefac.py SPEC.py ID DIR"""
import sys, subprocess
ns = {}; exec(open(sys.argv[1]).read(), ns)
w = sys.argv[3]; subprocess.run('mkdir -p %s && cp -a /repo/. %s && rm -rf %s/build %s/.git' % (w, w, w, w), shell=True)
for rid, props, edits in ns['SPECS']:
    if rid == sys.argv[2]:
        for f, a, b in edits:
            t = open(w + '/' + f).read(); assert t.count(a) == 1; open(w + '/' + f, 'w').write(t.replace(a, b))
