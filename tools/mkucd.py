"""data/ucd16.txt from UnicodeData16.0.0.txt: 'first[-last];Gc;U;L;T;D' (hex; runs without mappings are merged;
U/L/T: simple mappings, D: canonical two-part decomposition). Run once; the result is committed, so that an edit
of the data or of the generated tables in the repository does not change the oracle."""
import sys
rows = []; first = None
for l in open('/repo/data/unicode/UnicodeData16.0.0.txt'):
    f = l.rstrip('\n').split(';'); c = int(f[0], 16)
    if f[1].endswith(', First>'): first = c; continue
    lo = first if f[1].endswith(', Last>') else c; first = None
    d = f[5]; d = d.replace(' ', '+') if d and d[0] != '<' and len(d.split()) == 2 else ''
    rows.append([lo, c, f[2], f[12], f[13], f[14], d])
out = []
for r in rows:
    if out and out[-1][1] + 1 == r[0] and out[-1][2] == r[2] and not any(out[-1][3:]) and not any(r[3:]): out[-1][1] = r[1]
    else: out.append(r)
with open('/verif/data/ucd16.txt', 'w') as g:
    for lo, hi, gc, u, l, t, d in out:
        g.write(('%X' % lo if lo == hi else '%X-%X' % (lo, hi)) + ';' + ';'.join((gc, u, l, t, d)).rstrip(';') + '\n')
