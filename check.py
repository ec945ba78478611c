#!/usr/bin/env python3
"""Driver: check.py PROPERTY  (tier from VERIF_TIER, default quick).

Rebuilds the engine and the whole-program bitcode from /repo's working tree, runs every harness of
the property through the symbolic engine, replays counterexamples and sample paths natively,
rewrites evidence/PROPERTY.json.  Exit 0 held / 1 VIOLATION / 2 no verdict."""
import json, os, re, signal, subprocess, sys, time, shutil, glob, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
W = os.path.join(V, 'work')
ENGINE = os.path.join(V, 'engine/target/release/symex')
T0 = time.time()

def sh(cmd, **k): return subprocess.run(cmd, **k)

def build():
    env = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true')
    r = sh(['cargo', 'build', '--release', '--offline', '-q'], cwd=os.path.join(V, 'engine'), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: print(r.stdout[-4000:]); print('ERROR: the engine does not build'); sys.exit(2)
    r = sh(['bash', os.path.join(V, 'bin/build_ir.sh')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: print(r.stdout[-6000:]); print('ERROR: /repo or the harness crate does not build'); sys.exit(2)

def harnesses(prop, tier):
    """h_<prop>_* of harness/src; `_t` suffix: thorough tier only.  The doc comment is the stated bound;
    `[jobs N]`, `[time S]` in it tune the run."""
    out = []
    pre = 'h_' + prop.lower() + '_'
    for f in sorted(glob.glob(os.path.join(V, 'harness/src/*.rs'))):
        doc = []
        for l in open(f):
            s = l.strip()
            if s.startswith('///'): doc.append(s[3:].strip()); continue
            m = re.search(r'extern "C" fn (h_\w+)', s)
            if m and m.group(1).startswith(pre):
                n = m.group(1); d = ' '.join(doc)
                j = re.search(r'\[jobs (\d+)\]', d); t = re.search(r'\[time (\d+)\]', d); mi = re.search(r'\[ins (\d+)\]', d)
                o = dict(name=n, bound=re.sub(r'\s*\[(jobs|time|ins) \d+\]', '', d), jobs=int(j.group(1)) if j else 4, time=int(t.group(1)) if t else None, ins=int(mi.group(1)) if mi else 12000000)
                if tier == 'thorough' or not n.endswith('_t'): out.append(o)
            if not s.startswith('#['): doc = []
            if m: doc = []
    return out

def known(prop):
    k = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\w+) harness=(\w+) check="([^"]*)" (.*)', l.strip())
            if m and m.group(1) == prop: k.append((m.group(2), m.group(3), m.group(4)))
    return k

def native(h, data, timeout=20):
    d = tempfile.mkdtemp(dir=W, prefix='rp.')
    try:
        f = os.path.join(d, 'in.bin'); open(f, 'wb').write(data)
        c = os.path.join(d, 'cwd'); os.mkdir(c)
        try: r = sh([os.path.join(W, 'vh'), h, f], cwd=c, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired: return dict(hang=True, rc=None, obs=None, end='', err='')
        out = r.stdout.decode('utf8', 'replace')
        obs = re.search(r'^OBS (.*)$', out, re.M); end = re.search(r'^END (\d+) (.*)$', out, re.M)
        return dict(hang=False, rc=r.returncode, obs=obs.group(1) if obs else None, end=end.group(2) if end else '', err=r.stderr.decode('utf8', 'replace')[-600:])
    finally: shutil.rmtree(d, ignore_errors=True)

FOUND = threading.Event()  # a confirmed violation ends the other harnesses of the property soon after
GRACE = 60

def engine(cmd, log, timeout):
    with open(log, 'wb') as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        t0 = time.time(); tf = None
        while True:
            try: return p.wait(1)
            except subprocess.TimeoutExpired: pass
            if FOUND.is_set() and tf is None: tf = time.time()
            late = tf is not None and time.time() - tf > GRACE
            if late or time.time() - t0 > timeout:
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                p.wait(); return 'found' if late else 'timeout'

def confirms(v, x):
    """Whether the native run x of the real code shows the violation v."""
    return (v['kind'] == 'assert' and x['rc'] == 42) or (v['kind'] == 'panic' and x['rc'] not in (0, 42, 77, 3, None)) or (v['kind'] == 'hang' and (x['hang'] or (x['rc'] or 0) < 0)) or (v['kind'] == 'ub' and (x['rc'] or 0) < 0)

def run_one(h, budget, dump=None):
    if FOUND.is_set(): return dict(h=h, fail=None, skipped=True, shards=[])
    d = tempfile.mkdtemp(dir=W, prefix='sx.')
    try:
        cmd = [ENGINE, '--bc', os.path.join(W, 'vh.bc'), '--harness', h['name'], '--out', os.path.join(d, 'o'), '--jobs', str(h['jobs']), '--time', str(budget), '--max-ins', str(h['ins'])]
        if dump: cmd += ['--dump', os.path.join(dump, h['name']), '--dump-max', '25', '--recheck', '3000']
        rc = engine(cmd, os.path.join(d, 'log'), budget + 120)
        if rc == 'timeout': return dict(h=h, fail='engine did not stop in time', shards=[])
        if rc == 'found': return dict(h=h, fail=None, skipped=True, shards=[])
        sh_ = []
        for f in sorted(glob.glob(os.path.join(d, 'o.*'))):
            try: sh_.append(json.load(open(f)))
            except Exception as e: return dict(h=h, fail='bad engine output: %s' % e, shards=[])
        fail = None
        if rc: fail = 'engine exit %d: %s' % (rc, open(os.path.join(d, 'log'), 'rb').read().decode('utf8', 'replace')[-500:])
        return dict(h=h, fail=fail, shards=sh_)
    finally: shutil.rmtree(d, ignore_errors=True)

def crosscheck(d):
    """Second opinion on dumped solver queries (thorough tier): cvc5 on the same SMT-LIB text."""
    res = dict(queries=0, agree=0, disagree=0, unknown=0)
    for f in sorted(glob.glob(os.path.join(d, '*', '*.smt2')))[:200]:
        exp = re.search(r'_(sat|unsat)\.smt2$', f)
        if not exp: continue
        try: o = sh(['cvc5', '--tlimit=20000', f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=40).stdout.split()
        except subprocess.TimeoutExpired: o = []
        res['queries'] += 1
        if not o or o[0] not in ('sat', 'unsat'): res['unknown'] += 1
        elif o[0] == exp.group(1): res['agree'] += 1
        else: res['disagree'] += 1
    return res

def demangle_list(names):
    r = sh(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True) if shutil.which('c++filt') else None
    return r.stdout.split('\n') if r else names

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    if tier not in ('quick', 'thorough'): tier = 'quick'
    os.makedirs(W, exist_ok=True); os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    if '--no-build' not in sys.argv: build()
    tb = time.time() - T0
    hs = harnesses(prop, tier)
    if not hs: print('ERROR: no harness for', prop); sys.exit(2)
    total = 640 if tier == 'quick' else 6000
    dump = None
    if tier == 'thorough': dump = os.path.join(W, 'dump.' + prop); shutil.rmtree(dump, ignore_errors=True); os.makedirs(dump)
    kn = known(prop)
    def go(h):
        left = total - (time.time() - T0)
        r = run_one(h, max(20, min(left, h['time'] or 10**9)), dump)
        for v in [v for d in r['shards'] for v in d['violations'] if v['kind'] in ('assert', 'panic')][:3]:
            if not FOUND.is_set() and not any(k[:2] == (h['name'], v['id']) for k in kn) and confirms(v, native(h['name'], bytes.fromhex(v['bytes']))): FOUND.set()
        return r
    with ThreadPoolExecutor(3) as ex: res = list(ex.map(go, hs))
    viols, kfs, problems, incomplete, validated, samples = [], {}, [], [], 0, []
    cov = dict(states=0, transitions=0, infeasible=0, instructions=0, queries=0, sat=0, unsat=0, unknown=0, cache_hits=0, domain=0, time=0.0, maxq=0.0)
    funcs = {}; hrep = []; jobs = []; ended = 0
    rdir = os.path.join(W, 'replays', prop); shutil.rmtree(rdir, ignore_errors=True)
    for r in res:
        h = r['h']; n = h['name']
        if r['fail']: problems.append('%s: %s' % (n, r['fail']))
        if r.get('skipped'): incomplete.append((n, {'stopped, as another harness found a violation': 1})); continue
        reach = set(); checks = {}; errs = {}; vv = {}; vt = 0
        hp = dict(harness=n, bound=h['bound'], paths=0, queries=0, solver_s=0.0, wall_s=0.0)
        for d in r['shards']:
            reach |= set(d['reach'])
            for k, v in d['checks'].items(): o = checks.setdefault(k, [0, 0]); o[0] += v[0]; o[1] += v[1]
            for k, v in d['errors'].items(): errs[k] = errs.get(k, 0) + v
            for k, v in d['functions'].items(): funcs[k] = funcs.get(k, 0) + v
            s = d['solver']
            cov['states'] += d['paths']; cov['infeasible'] += d['infeasible']; cov['transitions'] += d['branches']; cov['instructions'] += d['instructions']
            for k in ('queries', 'sat', 'unsat', 'unknown', 'cache_hits', 'domain'): cov[k] += s[k]
            cov['time'] += s['time_s']; cov['maxq'] = max(cov['maxq'], s['max_query_s'])
            hp['paths'] += d['paths']; hp['queries'] += s['queries']; hp['solver_s'] = round(hp['solver_s'] + s['time_s'], 3); hp['wall_s'] = max(hp['wall_s'], d['wall_s'])
            vt += d['violations_total']
            for v in d['violations']: vv.setdefault((v['id'], v['loc']), []).append(v)
            if s['unknown']: errs['solver answered unknown'] = errs.get('solver answered unknown', 0) + s['unknown']
            jobs += [(n, x) for x in d['samples'][:6]]
        hp['assertions'] = {k: dict(evaluated=v[0], by_simplification=v[1]) for k, v in sorted(checks.items())}
        hp['reached'] = sorted(reach)
        if errs: incomplete.append((n, errs)); hp['incomplete'] = errs
        # without an error that explains it the harness would be vacuous
        ended += 'end' in reach
        if not r['fail'] and 'end' not in reach and not vv and not errs: problems.append('%s: no path reached the end of the harness %s' % (n, list(errs)[:2]))
        for (vid, loc), l in sorted(vv.items()):
            kf = [k for k in kn if k[0] == n and k[1] == vid]
            ok = None
            # hash maps iterate in a random order natively: a counterexample that depends on it may need a few runs
            for v in l[:6] + ([] if l[0]['kind'] == 'hang' else l[:3] * 6):
                b = bytes.fromhex(v['bytes'])
                x = native(n, b)
                if confirms(v, x): ok = (v, b, x); break
            if not ok and l[0]['kind'] == 'hang': incomplete.append((n, {'instruction limit reached': len(l)})); hp['incomplete'] = {'instruction limit reached': len(l)}; continue  # slow, but it ends natively
            if not ok: problems.append('%s: counterexample for "%s" %s does not replay natively (%s)' % (n, vid, loc, l[0]['bytes'][:80])); continue
            if kf: kfs[(n, vid)] = kf[0][2]; continue
            os.makedirs(rdir, exist_ok=True)
            f = os.path.join(rdir, '%s-%d.bin' % (n, len(viols)))
            open(f, 'wb').write(ok[1])
            open(f + '.txt', 'w').write('harness %s\ncheck %s\nkind %s %s\nreplay: %s/vh %s %s\nnative result: rc=%s end=%s hang=%s\n%s\ntrace (innermost first):\n  %s\n' % (n, vid, ok[0]['kind'], loc, W, n, f, ok[2]['rc'], ok[2]['end'], ok[2]['hang'], ok[2]['err'], '\n  '.join(ok[0]['trace'])))
            viols.append((n, vid, loc, f))
        hrep.append(hp)
    if not ended and not viols: problems.append('no harness was explored to its end')
    # validation of the engine: sampled passing paths must behave natively as predicted
    lim = 240 if tier == 'quick' else 1500
    jobs = jobs[:: max(1, len(jobs) // lim)]
    with ThreadPoolExecutor(8) as ex: nat = list(ex.map(lambda j: (j, native(j[0], bytes.fromhex(j[1]['bytes']))), jobs))
    for (n, s), x in nat:
        if x['rc'] == 0 and x['obs'] == s['obs']: validated += 1; samples.append(dict(harness=n, symbolic_bytes=s['bytes'], observed=s['obs'][:200]))
        elif x['rc'] == 42: pass  # a check that fails on this input was reported above
        else: problems.append('%s: engine and native run disagree on %s: rc=%s end=%s' % (n, s['bytes'], x['rc'], x['end']))
    cc = None
    if dump: cc = crosscheck(dump); shutil.rmtree(dump, ignore_errors=True)
    if cc and cc['disagree']: problems.append('cvc5 disagrees with z3 on %d queries' % cc['disagree'])
    repo = sorted(k for k in funcs if '4swrs' in k)
    dm = demangle_list(repo)
    step = max(1, len(samples) // 12)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking', wall_s=round(time.time() - T0, 2), violations=len(viols),
        assumptions=['bounds stated per harness; inputs outside them are not covered', 'LLVM IR of the crate and its dependencies (opt-level 0, panic=abort, overflow checks on) represents the source', 'one fixed admissible hash function for hash maps; random ids are one fixed stream', 'AES-128 block permutation on symbolic blocks: uninterpreted bijection; text of error messages not modelled'],
        coverage=dict(states=cov['states'], transitions=cov['transitions'], traces_validated_against_impl=validated, samples=samples[::step][:12],
            exhaustive=not incomplete and not problems, harnesses=hrep, infeasible_paths=cov['infeasible'], instructions=cov['instructions'],
            solver=dict(name='z3 %s' % (res[0]['shards'][0]['solver']['name'] if res and res[0]['shards'] else ''), queries=cov['queries'], sat=cov['sat'], unsat=cov['unsat'], unknown=cov['unknown'], cached=cov['cache_hits'], decided_by_byte_domains=cov['domain'], time_s=round(cov['time'], 3), max_query_s=cov['maxq']),
            functions_encoded=len(funcs), functions_encoded_swrs=sorted(set(dm))[:400], build_s=round(tb, 1), second_solver=cc,
            known_findings=sorted('%s/%s' % k for k in kfs), problems=problems))
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    for (n, vid), what in sorted(kfs.items()): print('KNOWN-FINDING: property=%s %s (%s: %s)' % (prop, what, n, vid))
    for n, e in incomplete: print('INCOMPLETE %s: %s' % (n, '; '.join('%s x%d' % (k[:160], v) for k, v in sorted(e.items())[:4])))
    for p in problems: print('PROBLEM', p[:600])
    print('%s %s: %d harnesses, %d paths, %d queries (%.1f s solver), %d traces replayed, %.1f s' % (prop, tier, len(hs), cov['states'], cov['queries'], cov['time'], validated, time.time() - T0))
    for n, vid, loc, f in viols:
        print('  %s: %s %s' % (n, vid, loc))
    if viols:
        print('VIOLATION property=%s replay=%s' % (prop, viols[0][3])); sys.exit(1)
    sys.exit(2 if problems else 0)
main()
