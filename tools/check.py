#!/usr/bin/env python3
"""check.py PROPERTY: builds the simulator binaries of one property from /repo's working
tree, searches schedules / faults / inputs from VERIF_SEED, reports the first violation as a
minimised replay file, and rewrites evidence/PROPERTY.json."""
import json, os, re, struct, subprocess, sys, time, glob, shutil

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from checks import CHECKS, BUDGET
from meta import META

NW = max(2, min(8, os.cpu_count() or 2))
T0 = time.time()

def die(msg, code=2):
    print('check error: ' + msg)
    sys.stdout.flush()
    sys.exit(code)

def build(bins):
    ps = []
    for name, src, defs, _ in bins:
        ps.append((name, subprocess.Popen([os.path.join(V, 'build.sh'), src, name] + defs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=V)))
    for name, p in ps:
        out = p.communicate()[0].decode(errors='replace')
        if p.returncode != 0:
            print(out[-4000:])
            die('build of %s failed' % name)

def run(cmd, env=None, timeout=None):
    e = dict(os.environ)
    if env: e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=V)
    try:
        out = p.communicate(timeout=timeout)[0].decode(errors='replace')
    except subprocess.TimeoutExpired:
        p.kill(); p.communicate()
        return 124, ''
    return p.returncode, out

def known_findings():
    """known_findings.txt: 'known: property=<id> class=<class> <text>' (listed findings) and
    'fixed: property=<id> <commit> <text>' (suppress nothing)."""
    r = []
    f = os.path.join(V, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) class=(\S+) (.*)', l.strip())
            if m: r.append(m.groups())
    return r

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in BUDGET: tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ck = CHECKS[prop]
    bins = ck['bins']
    secs, runs = BUDGET[tier]
    secs = ck.get('secs', {}).get(tier, secs)
    if os.environ.get('SIM_SECS'): secs = float(os.environ['SIM_SECS'])
    tl = '1' if tier == 'thorough' else '0'
    env = {'SIM_PROP': prop, 'SIM_CPU': '60'}
    bd = os.path.join(V, 'build')
    os.makedirs(bd, exist_ok=True)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    rd = os.path.join(bd, 'replays')
    os.makedirs(rd, exist_ok=True)
    build(bins)
    tb = time.time() - T0
    kf = [k for k in known_findings() if k[0] == prop]
    kf_cls = {k[1] for k in kf}

    # 1. replay the recorded failures of repaired defects
    regress = 0
    hits = []           # (binary, replay file, class, msg)
    for f in sorted(glob.glob(os.path.join(V, 'corpus', prop, '*.replay'))):
        name = os.path.basename(f).split('-')[0]
        if name not in [b[0] for b in bins]: continue
        rc, out = run([os.path.join(bd, name), 'replay', f], env, 200)
        regress += 1
        if rc == 1:
            m = re.search(r'class=(\S+) .*msg=(.*)', out)
            if m.group(1) not in kf_cls:
                dst = os.path.join(rd, prop + '-' + os.path.basename(f))
                shutil.copy(f, dst)
                hits.append((name, dst, m.group(1), m.group(2)))
        elif rc != 0:
            die('replay of %s gave %d: %s' % (f, rc, out))

    # 2. the same seeds twice, in different processes, must give the same executions
    det = 0
    for name, *_ in bins:
        a = subprocess.Popen([os.path.join(bd, name), 'hashes', str(seed), '0', '64', '8', tl], stdout=subprocess.PIPE, env=dict(os.environ, **env), cwd=V)
        b = subprocess.Popen([os.path.join(bd, name), 'hashes', str(seed), '0', '64', '8', tl], stdout=subprocess.PIPE, env=dict(os.environ, X='y' * 99, **env), cwd=V)
        x, y = a.communicate()[0], b.communicate()[0]
        if x != y or not x.strip(): die('runs of %s are not repeatable' % name)
        det += len(x.split(b'\n')) - 1

    # 3. search
    tot = dict(runs=0, ok=0, skips=0, errors=0, nontrivial=0, steps=0, switches=0, preemptions=0, sync_ops=0, sim_ns=0, multi_threaded_runs=0)
    faults, probes, scen, known = {}, {}, {}, {}
    samples, viols, errs = [], [], []
    inter, inter_nt, cases = set(), set(), set()
    cov = bytearray(1 << 17)
    explored_s = 0.0
    if not hits:
        for bi, (name, src, defs, share) in enumerate(bins):
            stop = os.path.join(bd, '%s.stop' % name)
            if os.path.exists(stop): os.remove(stop)
            ps = []
            t1 = time.time()
            for w in range(NW):
                side = os.path.join(bd, '%s.%d.side' % (name, w))
                out = open(os.path.join(bd, '%s.%d.json' % (name, w)), 'w')
                ps.append(subprocess.Popen([os.path.join(bd, name), 'explore', str(seed), str(w), str(runs), str(NW), str(secs * share), tl, '3', side],
                                           stdout=out, env=dict(os.environ, SIM_STOP=stop, **env), cwd=V))
            for w, p in enumerate(ps):
                p.wait()
                if p.returncode != 0: die('explorer %s/%d ended with %d' % (name, w, p.returncode))
                d = json.load(open(os.path.join(bd, '%s.%d.json' % (name, w))))
                for k in tot: tot[k] += d[k]
                for k, (n, r) in d['faults'].items():
                    a = faults.setdefault(k, [0, 0]); a[0] += n; a[1] += r
                for k, n in d['probes'].items(): probes[k] = probes.get(k, 0) + n
                for k, n in d['scenarios'].items(): scen[k] = scen.get(k, 0) + n
                for k, n in d['known'].items(): known[k] = known.get(k, 0) + n
                if w < 2: samples += d['samples'][:1]
                viols += [dict(v, bin=name) for v in d['violations']]
                errs += d['errs']
                side = os.path.join(bd, '%s.%d.side' % (name, w))
                with open(side, 'rb') as f:
                    for st in (inter, inter_nt, cases):
                        n = struct.unpack('Q', f.read(8))[0]
                        st.update((bi << 64) | h for h in struct.unpack('%dQ' % n, f.read(8 * n)))
                    c = f.read()
                    cov = bytearray((int.from_bytes(cov, 'little') | int.from_bytes(c, 'little')).to_bytes(1 << 17, 'little'))
                os.remove(side)
            explored_s += time.time() - t1
            if any(v['class'] not in kf_cls for v in viols): break
    if tot['errors']: die('simulator errors: ' + '; '.join(errs[:3]))

    # 4. violations: record, replay in a fresh process, minimise, replay again
    fresh = sorted((v for v in viols if v['class'] not in kf_cls), key=lambda v: (v['ops'], v['steps']))
    done, tries, failed = set(), {}, []
    def confirm(v):
        """replay file that reproduces the violation in a fresh process, or None"""
        exe = os.path.join(bd, v['bin'])
        raw = os.path.join(rd, '%s-%s-raw.replay' % (prop, v['class']))
        fin = os.path.join(rd, '%s-%s.replay' % (prop, v['class']))
        rc, out = run([exe, 'record', str(seed), str(v['index']), tl, raw], env, 300)
        if rc != 1:
            failed.append('recording run %d of %s gave %d: %s' % (v['index'], v['bin'], rc, out))
            return None
        lim = 30 if tier == 'quick' else 120
        slow = v['steps'] > 8000000 or v['class'] == 'no-progress'
        rc, out = run([exe, 'minimize', raw, fin, str(lim if not slow else lim // 2)], env, lim + 240)
        if rc != 1: shutil.copy(raw, fin)
        for again in (False, True):
            rc, out = run([exe, 'replay', fin], env, 300)
            m = re.search(r'class=(\S+) .*matches_file=1.*msg=(.*)', out)
            if rc == 1 and m: return (v['bin'], fin, m.group(1), m.group(2))
            shutil.copy(raw, fin)
        failed.append('replay of run %d of %s does not reproduce: %s' % (v['index'], v['bin'], out))
        return None
    for v in fresh:
        if v['class'] in done or len(done) >= 2 or tries.get(v['class'], 0) >= 3 or len(failed) >= 5: continue
        tries[v['class']] = tries.get(v['class'], 0) + 1
        h = confirm(v)
        if h:
            done.add(v['class'])
            hits.append(h)
    if failed and not hits: die('; '.join(failed[:2]))

    # 5. evidence
    meta = META[prop]
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(
                  evaluations=tot['runs'], distinct_nontrivial=len(inter_nt),
                  rule=meta['rule'],
                  samples=samples or ['(stopped at a recorded failure before the search)'],
                  simulated_runs=tot['runs'], runs_skipped_outside_domain=tot['skips'],
                  seeds_per_hour=int(tot['runs'] / explored_s * 3600) if explored_s else 0,
                  simulated_seconds=round(tot['sim_ns'] / 1e9, 3),
                  scheduling_points=tot['steps'], context_switches=tot['switches'], preemptions=tot['preemptions'], synchronisation_operations=tot['sync_ops'],
                  runs_with_several_live_threads=tot['multi_threaded_runs'],
                  distinct_workloads=len(cases), distinct_interleavings=len(inter),
                  interleaving_measure='workload hash combined with a hash of the sequence of (thread, local step, next thread) of every context switch',
                  switch_pair_coverage=sum(bin(x).count('1') for x in cov),
                  switch_pair_measure='distinct pairs (code address switched away from, code address resumed), hashed into 2^20 bits',
                  faults_injected={k: dict(times=a[0], runs=a[1]) for k, a in faults.items() if a[0]},
                  scenarios=scen, rare_conditions=probes, repeatability_checks=det, recorded_failures_replayed=regress, known_findings_seen=known,
                  real_code=meta['real'], stubbed=meta['stub'],
                  build_s=round(tb, 1)),
              assumptions=meta['assume'], wall_s=round(time.time() - T0, 1), violations=len(hits))
    with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)

    for k in kf: print('KNOWN-FINDING: property=%s %s (class %s, seen %d times in this run)' % (prop, k[2], k[1], known.get(k[1], 0)))
    print('%s %s seed=%d runs=%d skipped=%d nontrivial=%d interleavings=%d steps=%d wall=%.1fs' % (prop, tier, seed, tot['runs'], tot['skips'], len(inter_nt), len(inter), tot['steps'], time.time() - T0))
    if hits:
        for b, f, c, m in hits:
            print('violation: class=%s %s (replay: build/%s replay %s)' % (c, m, b, f))
        print('VIOLATION property=%s replay=%s' % (prop, hits[0][1]))
        sys.exit(1)
    sys.exit(0)

main()
