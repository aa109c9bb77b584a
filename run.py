#!/usr/bin/env python3
"""Decide one property of /repo with the TLA+ specifications in spec/.

usage: run.py <ID>            quick or thorough check, by VERIF_TIER
       run.py --replay FILE   run the failing case of a reported violation again
exit 0 held, 1 VIOLATION printed, 2 error of the check itself
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(ROOT, '.build')
HARNESS = os.path.join(BUILD, 'debug', 'mamharness')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
sys.path.insert(0, ROOT)

class ToolError(Exception): pass

def build():
    shutil.rmtree(os.path.join(BUILD, 'debug', '.fingerprint'), ignore_errors=True)  # never trust mtimes
    env = dict(os.environ, CARGO_TARGET_DIR=BUILD, RUSTFLAGS='--cfg iota_mam_verif -Awarnings', CARGO_NET_OFFLINE='true')
    env.pop('CARGO_BUILD_TARGET', None)
    p = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=os.path.join(ROOT, 'harness'), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise ToolError('harness does not build:\n' + p.stdout[-4000:])

class Ctx:
    def __init__(self, pid, tmp):
        self.pid, self.tmp = pid, tmp
        self.lock = threading.Lock()
        self.states = self.transitions = self.cases = self.traces = 0
        self.stats, self.samples, self.runs, self.fails, self.known = {}, [], [], [], []
        self.n = 0
    def dir(self):
        with self.lock: self.n += 1; d = os.path.join(self.tmp, 'r%d' % self.n)
        os.mkdir(d); return d

def cfgval(v):
    if isinstance(v, bool): return 'TRUE' if v else 'FALSE'
    if isinstance(v, int): return str(v)
    if isinstance(v, (set, frozenset, list)): return '{' + ', '.join(cfgval(x) for x in sorted(v)) + '}'
    return '"%s"' % v

def tlc(c, module, constants={}, invariants=(), properties=(), extra='', sim=None, depth=None, workers=1, timeout=800, heap='3g',
        spec='Spec', env=None, seed=None, post=None):
    """run TLC; returns (stdout lines, ok)"""
    d = c.dir()
    for f in os.listdir(SPEC):
        if f.endswith('.tla'): os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    with open(os.path.join(d, 'M.cfg'), 'w') as f:
        f.write('SPECIFICATION %s\n' % spec)
        for k, v in constants.items(): f.write('CONSTANT %s = %s\n' % (k, cfgval(v)))
        for i in invariants: f.write('INVARIANT %s\n' % i)
        for i in properties: f.write('PROPERTY %s\n' % i)
        if post: f.write('POSTCONDITION %s\n' % post)
        f.write('CHECK_DEADLOCK FALSE\n' + extra)
    cmd = ['java', '-Xss16m', '-Xmx' + heap, '-XX:+UseParallelGC', '-cp',
           '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar', 'tlc2.TLC'] \
        if False else ['tlc']
    cmd += ['-metadir', os.path.join(d, 'states'), '-noGenerateSpecTE', '-config', 'M.cfg', '-workers', str(workers), '-lncheck', 'final']
    if sim: cmd += ['-simulate', 'num=%d' % sim, '-depth', str(depth or 100), '-seed', str(seed if seed is not None else SEED)]
    else: cmd += ['-fp', '0', '-seed', str(seed if seed is not None else SEED)]
    cmd += [module + '.tla']
    e = dict(os.environ, JAVA_TOOL_OPTIONS='-Xss64m -Xmx%s' % heap)
    e.update(env or {})
    out = os.path.join(d, 'out')
    t = time.time()
    with open(out, 'w') as f:
        try: p = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=e)
        except subprocess.TimeoutExpired: raise ToolError('TLC timed out on ' + module)
    gen = dist = 0
    ok = p.returncode == 0
    tail, errs = [], []
    with open(out) as f:
        for l in f:
            if l.startswith('"@@'): continue
            m = re.match(r'^([\d,]+) states generated.*?, ([\d,]+) distinct states found', l)
            if m: gen, dist = int(m[1].replace(',', '')), int(m[2].replace(',', ''))
            m = re.match(r'^The number of states generated: ([\d,]+)', l)
            if m: gen = dist = int(m[1].replace(',', ''))
            m = re.search(r'Progress: ([\d,]+) states checked', l)
            if m and sim: gen = dist = int(m[1].replace(',', ''))
            if l.startswith('Error') and len(errs) < 5: errs.append(l)
            tail.append(l); tail = tail[-60:]
    with c.lock:
        c.states += dist; c.transitions += gen
        c.runs.append(dict(module=module, constants={k: cfgval(v) for k, v in constants.items()}, states=dist, transitions=gen,
                           mode='simulate %d' % sim if sim else 'exhaustive', invariants=list(invariants) + list(properties), wall_s=round(time.time() - t, 1)))
    return out, ok, ''.join(errs + tail)

def mc(c, module, constants={}, invariants=(), **kw):
    """exhaustive model check of the specification itself"""
    out, ok, tail = tlc(c, module, constants, invariants, **kw)
    if not ok: raise ToolError('TLC rejects %s:\n%s' % (module, tail))
    return out

def emitted(path):
    with open(path) as f:
        for l in f:
            if l.startswith('"@@'): yield json.loads(l)[2:]

def gen(c, family, module, constants={}, invariants=('Emit',), chunks=1, sim=None, **kw):
    """behaviours generated by TLC, replayed by the harness"""
    outs = []
    if sim and chunks > 1:
        with ThreadPoolExecutor(chunks) as ex:
            fs = [ex.submit(tlc, c, module, constants, invariants, sim=(sim + chunks - 1) // chunks, seed=SEED * 1000 + i, **kw) for i in range(chunks)]
            outs = [f.result() for f in fs]
    else: outs = [tlc(c, module, constants, invariants, sim=sim, **kw)]
    cases = os.path.join(c.dir(), 'cases.ndjson')
    n = 0
    with open(cases, 'w') as f:
        for out, ok, tail in outs:
            if not ok: raise ToolError('TLC fails on %s:\n%s' % (module, tail))
            for s in emitted(out): f.write(s + '\n'); n += 1
    if n == 0: raise ToolError('no behaviours from ' + module)
    with open(cases) as f:
        s = f.readline().strip()
        with c.lock: c.samples.append(dict(module=module, constants={k: cfgval(v) for k, v in constants.items()}, case=s if len(s) < 1500 else s[:1500] + '...'))
    replay(c, family, cases)
    with c.lock: c.cases += n
    return n

def harness(args, timeout=800, env=None):
    try: p = subprocess.run([HARNESS] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=dict(os.environ, **(env or {})))
    except subprocess.TimeoutExpired: raise ToolError('harness timed out: ' + ' '.join(args))
    return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')

def replay(c, family, cases, extra=()):
    rc, out, err = harness([family, cases] + list(extra))
    done = '\nDONE' in '\n' + out
    for l in out.splitlines():
        if l.startswith('FAIL '):
            with c.lock: c.fails.append(json.loads(l[5:]))
        elif l.startswith('KNOWN '):
            with c.lock: c.known.append(json.loads(l[6:]))
        elif l.startswith('STAT '):
            _, k, v = l.split()
            with c.lock: c.stats[k] = c.stats.get(k, 0) + int(v)
        elif l.startswith('TOOLERROR'): raise ToolError(l)
    if done and rc == 0: return out
    if rc == 3: raise ToolError(out[-2000:] + err[-2000:])
    if rc < 0 or rc in (101, 134, 139):
        # the process died in the code under test: find the case
        rc2, out2, err2 = harness([family, cases] + list(extra), env=dict(HARNESS_SERIAL='1'))
        last = [l for l in out2.splitlines() if l.startswith('BEGIN')]
        if '\nDONE' in '\n' + out2 or not last: raise ToolError('harness died (%d) and does not die again: %s' % (rc, err[-2000:]))
        i = int(last[-1].split()[1])
        data = [l for l in open(cases).read().splitlines() if l][i] if cases != '-' else 'null'
        with c.lock: c.fails.append(dict(family=family, case=i, why='process died with status %d: %s' % (rc2, err2[-300:]), data=json.loads(data)))
        return out2
    raise ToolError('harness failed (%d): %s %s' % (rc, out[-2000:], err[-2000:]))

def record(c, family, module, constants={}, args=(), invariants=(), **kw):
    """traces recorded from the code by the harness, validated by TLC against the specification"""
    d = c.dir()
    tr = os.path.join(d, 'trace.ndjson')
    out = replay(c, family, '-', [tr] + [str(a) for a in args])
    if not os.path.exists(tr):
        if c.fails: return
        raise ToolError('no trace from ' + family)
    n = sum(1 for l in open(tr) if l.strip())
    if n == 0: raise ToolError('empty trace from ' + family)
    with open(tr) as f:
        s = f.readline().strip()
        with c.lock: c.samples.append(dict(module=module, recorded=s if len(s) < 600 else s[:600] + '...'))
    o, ok, tail = tlc(c, module, constants, invariants, env=dict(TRACE=tr), **kw)
    txt = ''.join(l for l in open(o))
    acc = [l for l in txt.splitlines() if l.startswith('"##')]
    if not ok and not acc: raise ToolError('TLC fails on %s:\n%s' % (module, tail))
    if acc and acc[-1].startswith('"##OK'):
        with c.lock: c.traces += 1
    else:
        m = re.match(r'"##STUCK (\d+)', acc[-1]) if acc else None
        if not m: raise ToolError('TLC fails on %s:\n%s' % (module, tail))
        i = int(m[1])
        line = [l for l in open(tr) if l.strip()][i - 1].strip()
        with c.lock: c.fails.append(dict(family=family, case=i, why='recorded event %d is not a step of %s: %s' % (i, module, line[:300]), data=dict(trace=open(tr).read()[:200000])))
    with c.lock: c.stats['trace_events'] = c.stats.get('trace_events', 0) + n

def par(*fs):
    with ThreadPoolExecutor(len(fs)) as ex:
        rs = [ex.submit(f) for f in fs]
        return [r.result() for r in rs]

def known_findings():
    p = os.path.join(ROOT, 'KNOWN_FINDINGS.json')
    return json.load(open(p))['findings'] if os.path.exists(p) else []

def main():
    pid = sys.argv[1]
    if pid == '--replay':
        build()
        f = json.load(open(sys.argv[2]))['failure']
        with tempfile.TemporaryDirectory() as t:
            p = os.path.join(t, 'case'); open(p, 'w').write(json.dumps(f['data'], separators=(',', ':')) + '\n')
            sys.exit(subprocess.run([HARNESS, f['family'], p], env=dict(os.environ, HARNESS_SERIAL='1')).returncode)
    import plans
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='mamverif')
    try:
        c = Ctx(pid, tmp)
        try:
            build()
            plans.PLANS[pid](c, THOROUGH)
        except ToolError as e:
            if not c.fails: print('check error: %s' % e); sys.exit(2)
            print('note: %s' % e)
        listed = [k for k in known_findings() if k['property'] == pid and not k.get('fixed')]
        fails = list(c.fails)
        hit = {}
        for k in c.known:
            m = [x for x in listed if x['key'] == k['key']]
            if m: hit[k['key']] = (m[0]['what'], k)
            else: fails.append(dict(family=k.get('family', ''), case=k.get('case', 0), why=k['why'], data=k.get('data')))
        for what, k in hit.values(): print('KNOWN-FINDING: property=%s %s' % (pid, what))
        cov = dict(states=c.states, transitions=c.transitions, traces_validated_against_impl=c.cases + c.traces,
                   behaviours_replayed=c.cases, recorded_traces_accepted=c.traces, samples=c.samples[:6], tlc_runs=c.runs, harness=c.stats)
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        ev = dict(property=pid, tier='thorough' if THOROUGH else 'quick', seed=SEED, level='model_checking', coverage=cov,
                  assumptions=plans.ASSUME.get(pid, []) + plans.ASSUME['*'], wall_s=round(time.time() - t0, 2), violations=len(fails))
        json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
        if fails:
            r = os.path.join(ROOT, 'evidence', 'replay_%s.json' % pid)
            json.dump(dict(property=pid, seed=SEED, failure=fails[0], others=[f['why'] for f in fails[1:]]), open(r, 'w'))
            for f in fails[:5]: print('  %s case %s: %s' % (f['family'], f['case'], f['why'][:600]))
            print('VIOLATION property=%s replay=%s' % (pid, r))
            sys.exit(1)
        print('ok %s: %d states, %d behaviours replayed, %d traces accepted, %.1f s' % (pid, c.states, c.cases, c.traces, time.time() - t0))
    finally: shutil.rmtree(tmp, ignore_errors=True)
if __name__ == '__main__':
    sys.modules['run'] = sys.modules['__main__']
    main()
