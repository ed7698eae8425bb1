"""add_fixed.py <Pxx> [n]: append "fixed:" lines for the fix commits of /repo that known_findings.txt does not list yet (oldest first; at most n)."""
import subprocess, sys
p = sys.argv[1]; n = int(sys.argv[2]) if len(sys.argv) > 2 else 10**9
F = '/verif/known_findings.txt'; txt = open(F).read()
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
out = []
for l in log:
    h, s = l.split(' ', 1)
    if s.startswith('fix: ') and h not in txt and n > 0: out.append(f'fixed: property={p} {h} {s[5:]}'); n -= 1
if not txt.endswith('\n'): txt += '\n'
open(F, 'w').write(txt + ''.join(o + '\n' for o in out)); print('\n'.join(out))
