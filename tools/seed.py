"""seed.py: plant a bug. Reads a spec (python file) with ID, PROP, NEEDS, BREAKS, EDITS=[(path, old, new)], DEMO (C++ source) [, SH].
Verifies in a scratch copy: builds, stable tests pass, demo is 0 without and nonzero with the change; then writes /verif/seeded/<ID>/."""
import os, re, subprocess, sys, json, shutil
S = '/tmp/seedrepo'
FLAGS = '-G Ninja -DCMAKE_BUILD_TYPE=Debug -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS -DCatch2_DIR=/usr/lib/cmake/Catch2 -Dspirv-headers_DIR=/opt/vp/cmake -Dspirv-tools_DIR=/opt/vp/cmake -DSPVGENTWO_BUILD_TESTS=TRUE -DSPVGENTWO_BUILD_DISASSEMBLER=TRUE -DSPVGENTWO_BUILD_REFLECT=TRUE -DSPVGENTWO_BUILD_LINKER=TRUE'
SH = '''#!/bin/bash
# run with cwd = the built repository
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O0 -g -w -Ilib/include -Icommon/include "$D/demo.cpp" _build/libSpvGenTwoCommon.a _build/libSpvGenTwoLib.a -o "$T/demo" || exit 2
cd "$T" && timeout 60 ./demo
'''
def run(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def build():
    r = run(f'export CC=/usr/bin/gcc CXX=/usr/bin/g++; cmake -S {S} -B {S}/_build {FLAGS} && ninja -C {S}/_build -j8'); return r.returncode == 0, r.stdout[-1500:] + r.stderr[-500:]
def tests():
    r = run(f'ctest --test-dir {S}/_build -j8 --timeout 120'); ok = r.returncode == 0 or 'tests failed' not in r.stdout; bad = re.findall(r'^\s*\d+ - (.*?) \(', r.stdout.split('FAILED')[-1], re.M) if r.returncode else []
    for f in sorted(os.listdir(f'{S}/dis/test')):
        if f.endswith('.spv') and run(f'cd {S}/_build && timeout 60 ./SpvGenTwoDisassembler {S}/dis/test/{f} --assignids').returncode: bad.append(f)
    return bad
def main(f):
    g = {}; exec(open(f).read(), g)
    if not os.path.exists(S): shutil.copytree('/repo', S, symlinks=True); shutil.rmtree(S + '/_build', ignore_errors=True)
    run(f'git -C {S} checkout -q -- . ; git -C {S} fetch -q /repo; git -C {S} reset -q --hard FETCH_HEAD')
    d = f'/verif/seeded/{g["ID"]}'; os.makedirs(d, exist_ok=True)
    open(d + '/demo.sh', 'w').write(g.get('SH', SH)); 
    if 'DEMO' in g: open(d + '/demo.cpp', 'w').write(g['DEMO'])
    json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    ok, o = build(); assert ok, o
    base_bad = tests()
    r = run(f'cd {S} && bash {d}/demo.sh'); 
    if r.returncode: print('DEMO FAILS ON BASE', r.returncode, r.stdout[-1500:], r.stderr[-3000:]); return 1
    for p, old, new in g['EDITS']:
        q = f'{S}/{p}'; s = open(q, newline='').read(); crlf = '\r\n' in s; s = s.replace('\r\n', '\n'); assert s.count(old) == 1, (p, s.count(old), old); s = s.replace(old, new); open(q, 'w', newline='').write(s.replace('\n', '\r\n') if crlf else s)
    diff = subprocess.run(f'git -C {S} diff', shell=True, capture_output=True).stdout; open(d + '/patch.diff', 'wb').write(diff)
    base = run(f'git -C {S} log --reverse --format=%h').stdout.split()[0]
    for p, old, new in g['EDITS']:
        bl = run(f'git -C {S} blame -s HEAD -- {p}').stdout.splitlines()
        rm = [l[1:].rstrip('\r') for l in run(f'git -C {S} diff -U0 -- {p}').stdout.splitlines() if l.startswith('-') and not l.startswith('---')]
        for l in rm:
            hit = [b for b in bl if b.rstrip('\r').split(') ', 1)[-1] == l]
            if hit and not any(b.startswith('^') for b in hit): print('NOT AN ORIGINAL LINE:', l)
    ok, o = build()
    if not ok: print('PATCHED DOES NOT BUILD', o); return 1
    bad = [b for b in tests() if b not in base_bad]
    if bad: print('TESTS FAIL', bad); 
    r = run(f'cd {S} && bash {d}/demo.sh'); print(g['ID'], 'demo with change:', r.returncode, (r.stdout + r.stderr)[-300:].strip(), '| base-bad', base_bad)
    run(f'git -C {S} checkout -q -- .')
    return 0 if r.returncode and not bad else 1
sys.exit(main(sys.argv[1]))
