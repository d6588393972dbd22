#!/usr/bin/env python3
"""run.py <PROPERTY> [quick|thorough] [--replay FILE] [--seed N] [--law NAME] [--cases N] [--repo DIR] [--keep]

Builds the property's harness against the current working tree of /repo, runs it, writes
evidence/<PROPERTY>.json and prints VIOLATION / KNOWN-FINDING lines.  Exit 0: held, 1: violated."""
import json, os, subprocess, sys, time, shutil, glob, concurrent.futures as cf, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS

MODS = ['core', 'classifier', 'clusterer', 'ensemble', 'featselect', 'regressor', 'valid', 'visual']
SRC = {'core': ['core/src/Datasets.cpp', 'core/src/Random.cpp', 'core/src/Utils.cpp'],
       'cls': ['classifier/src/int_dll.cpp'], 'vis': ['visual/src/gnuplot_i.cpp']}

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def build(repo, prop, spec, out, fuzz=False):
    cxx = 'clang++' if fuzz or spec.get('clang') else 'g++'
    san = spec.get('san', 'address')
    flags = ['-std=c++17', '-O1', '-g1', '-fno-omit-frame-pointer', '-w', '-pthread', '-DNDEBUG', '-D_GLIBCXX_ASSERTIONS']
    if san: flags += ['-fsanitize=' + san]
    if fuzz: flags = [f for f in flags if not f.startswith('-fsanitize')] + ['-fsanitize=fuzzer,address', '-DPBT_FUZZ']
    flags += spec.get('flags', [])
    inc = ['-I' + os.path.join(repo, 'subprojects', 'ufjfmltk-' + m, 'include') for m in MODS] + ['-I' + os.path.join(HERE, 'harness')]
    jobs = []
    for g in spec.get('src', ['core']):
        for s in SRC[g]:
            jobs.append((os.path.join(repo, 'subprojects', 'ufjfmltk-' + s), os.path.join(out, s.replace('/', '_') + '.o')))
    for h in [spec['harness']] + spec.get('more', []):
        jobs.append((os.path.join(HERE, 'harness', h), os.path.join(out, h + '.o')))
    second = set(os.path.join(HERE, 'harness', h) for h in spec.get('more', []))
    def one(j):
        return j, sh([cxx] + flags + inc + (['-DPBT_NOMAIN'] if j[0] in second else []) + ['-c', j[0], '-o', j[1]])
    with cf.ThreadPoolExecutor(8) as ex:
        for j, r in ex.map(one, jobs):
            if r.returncode != 0:
                print('BUILD FAILED', j[0]); print(r.stdout[:6000]); return None
    exe = os.path.join(out, prop + ('_fuzz' if fuzz else ''))
    r = sh([cxx] + flags + [j[1] for j in jobs] + ['-o', exe] + spec.get('libs', []))
    if r.returncode != 0:
        print('LINK FAILED'); print(r.stdout[:6000]); return None
    return exe

def env():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:quarantine_size_mb=16:max_allocation_size_mb=3000:allocator_may_return_null=0:detect_stack_use_after_return=0:handle_abort=1'
    e['TSAN_OPTIONS'] = 'exitcode=99:halt_on_error=1:suppressions=' + os.path.join(HERE, 'harness', 'tsan.supp')
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
    e.pop('DISPLAY', None)
    return e

def main():
    a = sys.argv[1:]
    prop = a.pop(0)
    spec = CHECKS[prop]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    repo, replay, law, cases, keep, nofuzz, workers = '/repo', None, None, None, False, False, 8
    while a:
        x = a.pop(0)
        if x in ('quick', 'thorough'): tier = x
        elif x == '--replay': replay = os.path.abspath(a.pop(0))
        elif x == '--seed': seed = int(a.pop(0))
        elif x == '--law': law = a.pop(0)
        elif x == '--cases': cases = int(a.pop(0))
        elif x == '--repo': repo = os.path.abspath(a.pop(0))
        elif x == '--keep': keep = True
        elif x == '--nofuzz': nofuzz = True
    t0 = time.time()
    out = os.path.join(HERE, 'build', '%s.%d' % (prop, os.getpid()))
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    rc = 2
    try:
        rc = check(prop, spec, tier, seed, repo, replay, law, cases, out, t0, nofuzz, workers)
    finally:
        if not keep: shutil.rmtree(out, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)

def save_replay(prop, out):
    d = os.path.join(HERE, 'replays'); os.makedirs(d, exist_ok=True)
    f = json.load(open(os.path.join(out, 'failure.json')))
    dst = os.path.join(d, '%s-%s-%d.json' % (prop, f['law'], os.getpid()))
    f['property'] = prop
    json.dump(f, open(dst, 'w'), separators=(',', ':'))
    return dst

def check(prop, spec, tier, seed, repo, replay, law, cases, out, t0, nofuzz, workers):
    fuzz_s = 0 if (nofuzz or tier == 'quick') else spec.get('fuzz_s', 120)
    exe = build(repo, prop, spec, out)
    if exe is None: return 2
    tb = time.time() - t0
    if replay:
        r = sh([exe, '--dir', out, '--replay', replay], env=env())
        print(r.stdout)
        if r.returncode == 1:
            print('VIOLATION property=%s replay=%s' % (prop, replay)); return 1
        return r.returncode
    laws = {}
    for l in sh([exe, '--list'], env=env()).stdout.splitlines():
        n, w, rule = l.split('\t', 2); laws[n] = rule
    # known findings of this property: replayed first, each must be listed to be excused
    known = []
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        for k in json.load(open(kf))['findings']:
            if k['property'] != prop or k.get('status') != 'known': continue
            r = sh([exe, '--dir', out, '--replay', os.path.join(HERE, k['replay'])], env=env())
            if r.returncode == 1:
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what'])); known.append(k['what'])
    n = cases or spec['cases'] * (spec.get('thorough_x', 15) if tier == 'thorough' else 1)
    budget = 420 if tier == 'quick' else 6 * 3600
    notes, violations, replay_path = [], 0, None
    def campaign(sd):
        cmd = [exe, '--dir', out, '--seed', str(sd), '--cases', str(n), '--workers', str(workers), '--budget', str(budget)]
        if law: cmd += ['--law', law]
        r = sh(cmd, env=env())
        if r.stdout.strip(): print(r.stdout.rstrip())
        return r.returncode
    # regression cases: shrunk failures of earlier (repaired or planted) defects, kept as plain inputs
    reg = sorted(glob.glob(os.path.join(HERE, 'regress', prop, '*.json')))
    nreg = 0
    if not law:
        for f in reg:
            r = sh([exe, '--dir', out, '--replay', f], env=env())
            nreg += 1
            if r.returncode == 1:
                print(r.stdout.rstrip())
                violations = 1; replay_path = f; break
    if not violations:
        rc = campaign(seed)
        if rc == 2:
            notes.append('a failure did not reproduce from its replay; run repeated with another seed')
            rc = campaign(seed + 1000003)
            if rc == 2: notes.append('second failure did not reproduce either'); rc = 0
        if rc == 1:
            violations = 1; replay_path = save_replay(prop, out)
        elif rc != 0:
            print('harness error', rc); return 2
    stats = {}
    for f in glob.glob(os.path.join(out, 'w*.json')):
        try: d = json.load(open(f))
        except Exception: continue
        for ln, s in d.items():
            t = stats.setdefault(ln, dict(evaluations=0, discarded=0, nontrivial=0, labels={}, samples=[], h=set()))
            for k in ('evaluations', 'discarded', 'nontrivial'): t[k] += s[k]
            for k, v in s['labels'].items(): t['labels'][k] = t['labels'].get(k, 0) + v
            t['samples'] += s['samples']; t['h'].update(s['hashes'])
    fuzz_info = None
    if fuzz_s and not violations:
        fuzz_info, fp = fuzz(prop, spec, repo, out, exe, fuzz_s, seed)
        if fp: violations = 1; replay_path = fp
    ev = sum(s['evaluations'] for s in stats.values())
    dn = sum(len(s['h']) for s in stats.values())
    samples = []
    for ln, s in sorted(stats.items()):
        for x in s['samples'][:2]: samples.append('%s: %s' % (ln, x))
    cov = dict(evaluations=ev, distinct_nontrivial=dn,
        rule='cases are choice sequences drawn from VERIF_SEED; non-trivial per law: ' + '; '.join('%s = %s' % x for x in laws.items()),
        samples=samples[:40] or ['none'],
        per_law={ln: dict(evaluations=s['evaluations'], discarded=s['discarded'], nontrivial=s['nontrivial'], distinct_nontrivial=len(s['h']), labels=s['labels']) for ln, s in sorted(stats.items())},
        regression_replays=nreg)
    if fuzz_info: cov['fuzzing'] = fuzz_info
    if known: cov['known_findings'] = known
    if notes: cov['notes'] = notes
    e = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=cov,
        assumptions=spec.get('assumptions', []) + ['library compiled with -O1, AddressSanitizer and libstdc++ assertions instead of -O3'],
        wall_s=round(time.time() - t0, 2), violations=violations)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(e, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, build %.1fs, total %.1fs' % (prop, tier, seed, ev, dn, tb, time.time() - t0))
    if violations:
        print('VIOLATION property=%s replay=%s' % (prop, replay_path)); return 1
    if ev == 0:
        print('no cases ran'); return 2
    return 0

def fuzz(prop, spec, repo, out, exe, secs, seed):
    """coverage-guided phase: the same laws, choices decoded from libFuzzer bytes"""
    fo = os.path.join(out, 'fuzz'); os.makedirs(fo)
    fexe = build(repo, prop, spec, fo, fuzz=True)
    if fexe is None: return dict(error='fuzz build failed'), None
    procs = []
    for w in range(8):
        d = os.path.join(fo, 'c%d' % w); os.makedirs(d)
        wd = os.path.join(fo, 'wd%d' % w); os.makedirs(wd)
        procs.append((w, wd, subprocess.Popen([fexe, d, '-seed=%d' % (seed * 100 + w + 1), '-max_total_time=%d' % secs, '-max_len=4096', '-len_control=20',
            '-timeout=60', '-rss_limit_mb=3500', '-print_final_stats=1', '-artifact_prefix=' + wd + '/', '-detect_leaks=0', '-handle_abrt=1'], cwd=wd, env=env(),
            stdout=subprocess.DEVNULL, stderr=open(os.path.join(wd, 'log'), 'w'))))
    execs = cov = corpus = 0; bad = None
    for w, wd, p in procs:
        try: p.wait(secs * 2 + 300)
        except subprocess.TimeoutExpired: p.kill(); p.wait()
        log = open(os.path.join(wd, 'log'), errors='replace').read()
        for l in log.splitlines():
            if 'stat::number_of_executed_units' in l: execs += int(l.split()[-1])
            if ' cov: ' in l:
                try: cov = max(cov, int(l.split(' cov: ')[1].split()[0]))
                except Exception: pass
        corpus += len(os.listdir(os.path.join(fo, 'c%d' % w)))
        for art in glob.glob(wd + '/crash-*') + glob.glob(wd + '/timeout-*'):
            if bad: continue
            r = sh([exe, '--dir', out, '--bytes', art], env=env())
            print(r.stdout.rstrip())
            if r.returncode == 1: bad = save_replay(prop, out)
    return dict(engine='libFuzzer + ASan', seconds=secs, processes=8, executions=execs, edges=cov, corpus=corpus), bad

if __name__ == '__main__': main()
