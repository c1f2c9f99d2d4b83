"""Lists the normalised signatures of the functions of Ystring in the verified IR."""
import sys, os, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../engine'))
import prog, contracts
w = tempfile.mkdtemp()
try:
    p = prog.Prog('/repo', w); p.contracts = contracts.C
    for s, n in sorted(p.bysig.items()):
        if 'ystring' in s and not s.startswith(('std::', '__gnu', 'bool __gnu', 'vector')): print('*' if any(c.match(s) for c in contracts.C) else ' ', s[:240])
finally: shutil.rmtree(w)
