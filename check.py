#!/usr/bin/env python3
"""check.py <property> <quick|thorough> : builds the repository's sources with sanitizers, runs the
property's monitors over its cases, matches violations with known_findings.txt, writes evidence/<id>.json.
Exit 0: held on everything observed (known findings aside); 1: VIOLATION; 2: the check itself failed."""
import sys, os, json, time, subprocess, re, hashlib, glob, shutil, fcntl, threading, struct
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(V, 'build'))
NPROC = int(os.environ.get('VERIF_JOBS', '0')) or os.cpu_count() or 4
DEFS = '-DSPVGENTWO_ENABLE_OPERANDVALIDATION=1 -DSPVGENTWO_LOGGING=1 -DSPVGENTWO_REPLACE_PLACEMENTNEW=1 -DSPVGENTWO_REPLACE_TRAITS=1'
SAN = '-fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all -fno-omit-frame-pointer'
HARNESS = {}  # property -> list of harness sources (a property may have several monitors)

def harnesses():
    h = {}
    for f in sorted(glob.glob(os.path.join(V, 'src', 'p[0-9][0-9]*.cpp'))):
        b = os.path.basename(f)[:-4]
        h.setdefault(b[:3].upper(), []).append(b)
    return h

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), **kw)

def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text: return
    open(path, 'w').write(text)

def build(targets):
    """ninja build of the repository's current sources plus the harnesses (targets: harness names or 'tools')"""
    os.makedirs(BUILD, exist_ok=True)
    inc = f'-I{REPO}/lib/include -I{REPO}/common/include'
    n = ['ninja_required_version = 1.5', f'builddir = {BUILD}',
         f'rule cc\n  command = clang++ -std=c++17 -g1 $opt {SAN} $flags {DEFS} {inc} -I{V}/src -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc',
         f'rule msan\n  command = clang++ -std=c++17 -g1 $opt -fsanitize=memory -fsanitize-memory-track-origins -fno-sanitize-memory-use-after-dtor -fno-omit-frame-pointer $flags {DEFS} {inc} -I{V}/src -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc',
         f'rule link\n  command = clang++ {SAN} $in -o $out $libs',
         # SPIRV-Tools and libstdc++ are not instrumented: they must not call the instrumented copies of inline functions
         f'rule svlib\n  command = printf "{{ global: spv*; local: *; }};" > $out.map && printf "{{ local: _ZNSt*; _ZNKSt*; _ZSt*; _ZNKS*; }};" > $out.ex && clang++ -shared -o $out -Wl,--whole-archive -l:libSPIRV-Tools.a -Wl,--no-whole-archive -Wl,--version-script=$out.map',
         f'build {BUILD}/libsvt.so: svlib',
         f'rule msanlink\n  command = clang++ -fsanitize=memory $in -o $out -Wl,--version-script={BUILD}/libsvt.so.ex -Wl,-rpath,{BUILD}',
         f'rule gen\n  command = python3 {V}/tools/gen_spec.py {V}/spec $out',
         f'build {BUILD}/spec_tables.cpp: gen | {V}/tools/gen_spec.py {V}/spec/spirv.core.grammar.json']
    def objs(rule, sub, files, flags='', opt='-O1'):
        o = []
        for f in files:
            ob = f'{BUILD}/{sub}/{os.path.basename(f)[:-4]}.o'
            op = '-O0' if os.path.basename(f) in ('Grammar.cpp', 'spec_tables.cpp') else opt
            n.append(f'build {ob}: {rule} {f}\n  opt = {op}\n  flags = {flags}')
            o.append(ob)
        return o
    libsrc = sorted(glob.glob(f'{REPO}/lib/source/*.cpp')) + sorted(glob.glob(f'{REPO}/common/source/*.cpp'))
    supsrc = [f'{V}/src/hx.cpp', f'{V}/src/spv.cpp', f'{BUILD}/spec_tables.cpp'] + [f'{V}/src/{x}.cpp' for x in ('gen', 'sem', 'interp', 'build', 'extra', 'linkmodel', 'work')]
    lib = objs('cc', 'lib', libsrc)
    sup = objs('cc', 'sup', supsrc)
    for t in ('dis', 'link', 'refl'):
        o = objs('cc', 'tool_' + t, sorted(glob.glob(f'{REPO}/{t}/source/*.cpp')))
        n.append(f'build {BUILD}/tool_{t}_bin: link {" ".join(o + lib)}')
    for ps in harnesses().values():
        for b in ps:
            src = open(f'{V}/src/{b}.cpp').read()
            fl = re.search(r'//\s*build:\s*(.*)', src)
            lf = re.search(r'//\s*library:\s*(.*)', src)  # flags for the repository's sources only
            ms = '// sanitizer: memory' in src
            cc, pre = ('msan', 'm') if ms else ('cc', '')
            o = objs(cc, pre + 'h', [f'{V}/src/{b}.cpp'], fl.group(1) if fl else '', '-O0' if '// opt: O0' in src else '-O1')
            ul = objs(cc, pre + 'lib_' + b, libsrc, lf.group(1) if lf else '') if lf or ms else lib
            us = objs(cc, pre + 'sup_' + b, supsrc, fl.group(1) if fl else '') if ms else sup
            if ms: n.append(f'build {BUILD}/{b}: msanlink {" ".join(o + us + ul)} {BUILD}/libsvt.so')
            else: n.append(f'build {BUILD}/{b}: link {" ".join(o + us + ul)}\n  libs = -lSPIRV-Tools-link -lSPIRV-Tools-opt -lSPIRV-Tools -lpthread')
    write_if_changed(f'{BUILD}/build.ninja', '\n'.join(n) + '\n')
    with open(f'{BUILD}/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        tg = [f'{BUILD}/{t}' for t in targets]
        r = sh(['ninja', '-f', f'{BUILD}/build.ninja', '-j', str(NPROC)] + tg, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write('\n'.join([l for l in r.stdout.split('\n') if 'error' in l or 'FAILED' in l or 'undefined' in l and 'fsanitize' not in l][:40])[:6000]); print('BUILD-ERROR'); sys.exit(2)

def clean_frame(fn):
    fn = re.sub(r'\(.*', '', fn)
    prev = None
    while prev != fn: prev = fn; fn = re.sub(r'<[^<>]*>', '', fn)
    return fn.replace('spvgentwo::', '').strip()

def crash_key(err, rc):
    kind = None
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    if m: kind = m.group(1)
    m2 = re.search(r'runtime error: (.*)', err)
    if not kind and m2:
        kind = 'ubsan-' + re.sub(r'0x[0-9a-f]+|\d+|\'[^\']*\'', '', m2.group(1))[:60].strip().replace(' ', '-')
    m3 = re.search(r'MemorySanitizer: ([\w-]+)', err)
    if not kind and m3: kind = 'msan-' + m3.group(1)
    if 'HARNESS-HANG' in err: kind = 'hang'
    if not kind: kind = 'signal%d' % -rc if rc < 0 else 'exit%d' % rc
    frames = []; inner = []
    if m2 and not m:
        loc = re.search(r'([\w./]+/(?:lib|common)/[\w./]+):\d+:\d+: runtime error', err)
    for f, path in re.findall(r'#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):\d+', err):
        if path.startswith(REPO + '/') and os.path.basename(path) not in ('Entry.h', 'EntryIterator.h', 'List.h', 'Vector.h', 'HashMap.h', 'HashMapIterator.h', 'Allocator.h'): frames.append(clean_frame(f))
        elif path.startswith(REPO + '/') and not inner: inner.append(clean_frame(f))
        if frames: break
    frames += inner
    if m and 'allocation' not in kind and not frames:
        pass
    return 'crash:%s:%s' % (kind, frames[0] if frames else '?')

def run_harness(b, tier, seed, env, deadline=0):
    exe = f'{BUILD}/{b}'
    info = sh([exe, '--info'], stdout=subprocess.PIPE, text=True, env=env)
    if info.returncode != 0: print('HARNESS-ERROR info', b); sys.exit(2)
    il = info.stdout.split('\n'); total = int(il[1] if tier == 'quick' else il[2]); rule = il[3]
    total = max(1, total // int(os.environ.get('VERIF_DIV', '1')))  # development only
    tmp = os.path.join(BUILD, 'run', f'{b}-{os.getpid()}'); os.makedirs(tmp, exist_ok=True)
    W = max(1, min(NPROC, total)); res = {'eval': 0, 'viol': {}, 'counters': {}, 'samples': [], 'hashes': set(), 'errors': [], 'crashes': 0}
    lock = threading.Lock()
    def parse(path):
        done = False
        if not os.path.exists(path): return False
        for line in open(path, errors='replace'):
            p = line.rstrip('\n').split('\t')
            if p[0] == 'V':
                with lock: res['viol'].setdefault(p[1], []).append((int(p[2]), p[3] if len(p) > 3 else ''))
            elif p[0] == 'N':
                with lock: res['eval'] += int(p[1])
            elif p[0] == 'C':
                with lock: res['counters'][p[1]] = res['counters'].get(p[1], 0) + int(p[2])
            elif p[0] == 'S':
                with lock: res['samples'].append(p[1])
            elif p[0] == 'H':
                with lock: res['hashes'].add(p[1])
            elif p[0] == 'E':
                with lock: res['errors'].append(p[1])
            elif p[0] == 'D': done = True
        return done
    stop = threading.Event()   # enough crashes or hangs seen: exploring further would only use up the time
    def worker(w):
        start = w; restarts = 0
        while start < total and not stop.is_set() and not (restarts and deadline and time.time() > deadline):
            out = f'{tmp}/o{w}_{restarts}'; st = f'{tmp}/s{w}'; er = f'{tmp}/e{w}_{restarts}'
            open(st, 'wb').write(b'\xff' * 64)
            with open(er, 'w') as ef:
                try:
                    r = sh([exe, '--out', out, '--status', st, '--tier', tier, '--seed', str(seed), '--start', str(start), '--end', str(total), '--stride', str(W)], stdout=subprocess.DEVNULL, stderr=ef, env=env, timeout=3000 if tier == 'thorough' else max(60, deadline + 60 - time.time()))
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    with lock: res['errors'].append(f'{b}: shard {w} exceeded its wall-clock budget (inconclusive)')
                    return
            done = parse(out)
            if done and rc == 0: return
            err = open(er, errors='replace').read()
            if rc == 97:
                with lock: res['errors'].append(err[-500:])
                return
            case = struct.unpack('<Q', open(st, 'rb').read(8))[0]
            if case >= (1 << 63):
                with lock: res['errors'].append(f'{b}: died outside a case (rc {rc}): ' + err[-1500:])
                return
            key = crash_key(err, rc)
            if ':hang:' in key or rc == -9:   # confirm once before reporting
                r2 = sh([exe, '--tier', tier, '--seed', str(seed), '--case', str(case), '--cpu', '60'], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, text=True, errors='replace')
                if r2.returncode == 0: key = None
                elif rc == -9 and r2.returncode == -9: key = None; res['errors'].append(f'{b}: case {case} killed (memory)')
                else: key = crash_key(r2.stderr, r2.returncode); err = r2.stderr
            if key:
                with lock:
                    res['viol'].setdefault(key, []).append((case, err[-3500:] if 'SUMMARY' not in err else err[:3500])); res['crashes'] += 1; res['eval'] += (case - start) // W + 1
                    listed = any(re.fullmatch(k, key) for _, k, _ in known()); res['unlisted'] = res.get('unlisted', 0) + (0 if listed else 20 if ':hang:' in key else 1)
                    if res['unlisted'] >= 60: stop.set()
            start = case + W; restarts += 1
            if restarts > 200:
                with lock: res['errors'].append(f'{b}: more than 200 crashes in one shard')
                return
    ths = [threading.Thread(target=worker, args=(w,)) for w in range(W)]
    [t.start() for t in ths]; [t.join() for t in ths]
    shutil.rmtree(tmp, ignore_errors=True)
    return res, rule, total

def known():
    k = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\w+) key=(\S+) :: (.*)', line)
            if m: k.append((m.group(1), m.group(2).replace('%20', ' '), m.group(3).strip()))
    return k

def main():
    if sys.argv[1] == 'setup': os.makedirs(BUILD, exist_ok=True); build(['spec_tables.cpp']); print('setup ok'); sys.exit(0)
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    hs = harnesses().get(prop, [])
    if not hs: print('no harness for', prop); sys.exit(2)
    only = os.environ.get('VERIF_ONLY')
    if only: hs = [h for h in hs if h == only]
    tools = []
    for h in hs:
        s = open(f'{V}/src/{h}.cpp').read()
        if '// needs: tools' in s: tools = ['tool_dis_bin', 'tool_link_bin', 'tool_refl_bin']
    build(hs + tools)
    tb = time.time() - t0
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=4096:handle_abort=0:detect_stack_use_after_return=1:print_legend=0',
               UBSAN_OPTIONS='print_stacktrace=1:abort_on_error=1', VERIF_DIR=V, VERIF_BUILD_DIR=BUILD, VERIF_REPO_DIR=REPO)
    deadline = 0 if tier == 'thorough' else t0 + 720
    if deadline: env['VERIF_DEADLINE'] = str(int(deadline))
    allv = {}; errors = []; evals = 0; counters = {}; samples = []; hashes = set(); rules = []
    for h in hs:
        res, rule, total = run_harness(h, tier, seed, env, deadline)
        for k, v in res['viol'].items(): allv.setdefault(k, []).extend([(h, c, d) for c, d in v])
        errors += res['errors']; evals += res['eval']; samples += res['samples'][:3]; hashes |= {h + x for x in res['hashes']}; rules.append(rule)
        for k, n in res['counters'].items(): counters[k] = counters.get(k, 0) + n
    kn = [(k, w) for p, k, w in known() if p == prop]
    unlisted = []; hit = set()
    for key in sorted(allv):
        m = [(k, w) for k, w in kn if re.fullmatch(k, key)]
        if m: hit.add(m[0])
        else: unlisted.append(key)
    for k, w in kn: print(f'KNOWN-FINDING: property={prop} {w}' + ('' if (k, w) in hit else ' (listed; not reached in this run)'))
    rdir = os.path.join(BUILD, 'replay'); os.makedirs(rdir, exist_ok=True)
    for i, key in enumerate(unlisted[:int(os.environ.get('VERIF_KEYS', '40'))]):
        h, c, d = allv[key][0]
        path = os.path.join(rdir, f'{prop}-{hashlib.sha1(key.encode()).hexdigest()[:10]}.txt')
        open(path, 'w').write(f'property {prop}\nkey {key}\ncommand: {BUILD}/{h} --tier {tier} --seed {seed} --case {c} -v\n\n' + d.replace('\\n', '\n') + '\n')
        print(f'VIOLATION property={prop} replay={path}')
        print('   key', key, '| cases', len(allv[key]), '|', d[:300].replace('\n', ' '))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': evals, 'distinct_nontrivial': len(hashes), 'rule': ' || '.join(rules), 'samples': samples[:6] or ['(none)'], 'observed': dict(sorted(counters.items())), 'known_findings_observed': sorted({w for _, w in hit})},
          'assumptions': ['clang AddressSanitizer/UndefinedBehaviorSanitizer build of the working tree; the oracles are this directory\'s own models and SPIRV-Tools', 'held only on the executions described here'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(unlisted)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    print(f'{prop} {tier} seed={seed}: cases={evals} distinct={len(hashes)} violations={len(unlisted)} known={len(hit)} build={tb:.1f}s total={time.time()-t0:.1f}s')
    print('   observed:', ' '.join(f'{k}={v}' for k, v in sorted(counters.items()))[:1500])
    if unlisted: sys.exit(1)
    if errors:
        print('CHECK-ERROR', *errors[:5], sep='\n  '); sys.exit(2)
    if evals == 0 or len(hashes) < 2: print('CHECK-ERROR nothing was observed'); sys.exit(2)
    sys.exit(0)
if __name__ == '__main__': main()
