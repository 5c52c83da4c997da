#!/usr/bin/env python3
"""Builds and runs the generated-input check of one property against the tree in /repo.

  check.py P11 quick|thorough            run the check  (VERIF_SEED, default 1)
  check.py P11 --replay FILE             run one saved case again
Exit 0: held on everything explored. Exit 1 with "VIOLATION property=.. replay=..": broken. 2: the check itself failed.
"""
import sys, os, subprocess, json, time, tempfile, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, COMMON_FLAGS, VARIANTS, CONFIGS
REPO = os.environ.get('VERIF_REPO', '/repo')
NOTES = []   # parts of the check that could not be built as written

def compile_one(job):
    cmd, out, log = job
    t = time.time()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with open(log, 'w') as f: f.write(' '.join(cmd) + '\n' + p.stdout)
    return p.returncode, out, log, time.time() - t

def flags_of(v, src):
    d = VARIANTS[v]
    return d['cxx'], d['flags']

def build(prop, bdir, variants):
    """returns {variant: binary}, [failed logs]"""
    jobs = []
    bins = {}
    for vn, vd in variants:
        cxx, fl = flags_of(vd['variant'], None)
        objs = []
        for src in ['lib/pbt.cpp'] + VARIANTS[vd['variant']].get('extra', []) + vd['srcs']:
            o = os.path.join(bdir, vn + '.' + src.replace('/', '_').replace('#', '_').replace('@', '_') + '.o')
            src, _, cfg = src.partition('@')     # file#N@C: compiled as configuration C, all its names in namespaces of its own
            src, _, part = src.partition('#')    # file#N: one part of a file, compiled with -DPART=N
            own, of = (cxx, fl) if not cfg else (CONFIGS[cfg]['cxx'], CONFIGS[cfg]['flags'] + ['-DCFG="%s"' % cfg] + ['-D%s=%s_%s' % (n, n, cfg) for n in ('parlay', 'al', 'vt', 'sc', 'lin')])
            cmd = [own] + [f for f in COMMON_FLAGS if not (cfg and f.startswith('-std='))] + (['-DPART=' + part] if part else []) + of + (vd.get('flags', []) if not cfg else []) + ['-I' + REPO + '/include', '-I' + REPO, '-I' + HERE + '/lib', '-c', os.path.join(HERE, src), '-o', o]
            jobs.append((0 if src == 'lib/pbt.cpp' else 1, (cmd, o, o + '.log')))
            objs.append(o)
        b = os.path.join(bdir, vn)
        bins[vn] = (b, objs, cxx, fl + vd.get('flags', []), vd.get('link', []) + VARIANTS[vd['variant']].get('link', []))
    jobs.sort(key=lambda x: -x[0])
    fails = []; dropped = set()
    with ThreadPoolExecutor(int(os.environ.get('VERIF_JOBS', '8'))) as ex:
        res = list(ex.map(compile_one, [j for _, j in jobs]))
    def again(job):   # with fewer at a time: rules out memory pressure
        cmd, out, log = job
        if compile_one(job)[0] == 0: return
        shutil.copy(log, log + '.first')
        if compile_one((cmd + ['-DVERIF_NO_INTERNAL'], out, log))[0] == 0:   # only names internal to the library are gone
            NOTES.append(os.path.basename(out) + ': built without the parts that name internals of the library')
        elif '"ctl.h"' in open([x for x in cmd if x.endswith('.cpp')][0]).read():   # the instrumentation does not understand this code
            NOTES.append(os.path.basename(out) + ': controlled-interleaving part left out, it does not compile'); dropped.add(out)
        else: fails.append(log + '.first')
    with ThreadPoolExecutor(3) as ex: list(ex.map(again, [job for r, (_, job) in zip(res, jobs) if r[0] != 0]))
    if fails: return {}, fails
    out = {}
    for vn, (b, objs, cxx, fl, link) in bins.items():
        objs = [o for o in objs if o not in dropped]
        if len(objs) < 2: continue
        rc, _, log, _ = compile_one(([cxx] + fl + objs + ['-o', b, '-pthread', '-ldl'] + link, b, b + '.link.log'))
        if rc != 0: return {}, [log]
        out[vn] = b
    return out, []

def headers_ok(bdir):
    src = os.path.join(bdir, 'probe.cpp')
    with open(src, 'w') as f: f.write('#include <parlay/primitives.h>\n#include <parlay/io.h>\nint main(){}\n')
    rc, _, log, _ = compile_one((['g++', '-std=c++17', '-I' + REPO + '/include', '-fsyntax-only', src], '', src + '.log'))
    return rc == 0

def san_env():
    e = dict(os.environ)
    e.pop('PARLAY_NUM_THREADS', None)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=98:detect_stack_use_after_return=0:allocator_may_return_null=0:handle_abort=0:malloc_context_size=12'
    e['UBSAN_OPTIONS'] = 'halt_on_error=1:print_stacktrace=0:exitcode=98'
    e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=98:history_size=4:suppressions=' + HERE + '/lib/tsan.supp'
    return e

def main():
    if len(sys.argv) < 3: print(__doc__); return 2
    prop = sys.argv[1]
    c = CHECKS[prop]
    replay = sys.argv[3] if sys.argv[2] == '--replay' else None
    tier = 'quick' if replay else sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    bdir = tempfile.mkdtemp(prefix='verif-%s-' % prop, dir=os.environ.get('VERIF_TMP', '/tmp'))
    try:
        return run(prop, c, tier, seed, replay, bdir, t0)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)

def run(prop, c, tier, seed, replay, bdir, t0):
    allv = [(v['name'], v) for v in c['runs'] if tier == 'thorough' or replay or not v.get('thorough_only')]
    if replay:
        head = {}
        for l in open(replay):
            if l.startswith('---'): break
            k = l.split(None, 1); head[k[0]] = k[1].strip() if len(k) > 1 else ''
        if 'variant' not in head:
            print('not a case file (see its text)'); return 2
        allv = [x for x in allv if x[0] == head['variant']]
    replay_path = os.path.join(HERE, 'replays', '%s-%s-s%d.txt' % (prop, tier, seed))
    bins, fails = build(prop, bdir, allv)
    if fails:
        txt = open(fails[0]).read()
        if not headers_ok(bdir):
            print('cannot compile the library headers:\n' + txt[-3000:]); return 2
        with open(replay_path, 'w') as f: f.write('a program that uses only the library interface no longer compiles\n' + txt)
        print(txt[:3000])
        evidence(prop, c, tier, seed, [], 1, t0, 'client program does not compile')
        print('VIOLATION property=%s replay=%s' % (prop, replay_path)); return 1
    allv = [x for x in allv if x[0] in bins]
    for n in NOTES: print(n)
    print('%s: built %s in %.0fs' % (prop, ','.join(bins), time.time() - t0), flush=True)
    if replay:
        return subprocess.run([bins[allv[0][0]], '--replay', os.path.abspath(replay), '--tmp', bdir], env=san_env()).returncode
    results = []; rc = 0
    budget = (330 if tier == 'quick' else 640)
    for i, (vn, vd) in enumerate(allv):
        left = budget - (time.time() - t0)
        cap = max(15, left * vd.get('share', 1.0 / (len(allv) - i)))
        out = os.path.join(bdir, vn + '.json'); rep = os.path.join(bdir, vn + '.replay'); tmp = os.path.join(bdir, vn + '.tmp'); os.mkdir(tmp)
        cmd = [bins[vn], '--seed', str(seed), '--out', out, '--replay-out', rep, '--cap', '%.0f' % cap, '--variant', vn, '--tmp', tmp, '--scale', str(vd.get('scale', 1))]
        if tier == 'thorough': cmd.append('--thorough')
        if os.environ.get('VERIF_ONLY'): cmd += ['--only', os.environ['VERIF_ONLY']]
        p = subprocess.run(cmd, env=san_env(), timeout=880 - (time.time() - t0))
        if p.returncode not in (0, 1): print('harness error', p.returncode); return 2
        results.append(json.load(open(out)))
        if p.returncode == 1:
            shutil.copy(rep, replay_path); rc = 1
            break
    known = known_findings(prop, bdir, bins)
    if rc == 0:
        total = sum(r['evaluations'] for r in results)
        if total == 0: print('no case was run'); return 2
    evidence(prop, c, tier, seed, results, rc, t0, None)
    for r in results: print('%s: %d cases, %d distinct non-trivial, %.0fs%s' % (r['variant'], r['evaluations'], r['distinct_nontrivial'], r['wall_s'], ', %d chunks not run' % r['skipped_chunks'] if r['skipped_chunks'] else ''))
    for k in known: print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if rc: print('VIOLATION property=%s replay=%s' % (prop, replay_path))
    return rc

def known_findings(prop, bdir, bins):
    f = os.path.join(HERE, 'known-findings.txt'); out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop): out.append(l.split(' ', 2)[2])
    return out

def evidence(prop, c, tier, seed, results, viol, t0, note):
    subs = {}; labels = {}; samples = []
    for r in results:
        for k, v in r['subs'].items(): subs['%s/%s' % (r['variant'], k)] = v
        for k, v in r['labels'].items(): labels['%s/%s' % (r['variant'], k)] = v
        samples += [{'variant': r['variant'], **s} for s in r['samples'][:6]]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': sum(r['evaluations'] for r in results), 'distinct_nontrivial': sum(r['distinct_nontrivial'] for r in results),
                       'rule': c['rule'], 'samples': samples[:14], 'per_generator': subs, 'labels': labels,
                       'not_run_chunks': sum(r['skipped_chunks'] for r in results), 'unconfirmed_hangs': sum(r['unconfirmed_hangs'] for r in results), 'killed_chunks': sum(r['killed_chunks'] for r in results), 'starved_cases': sum(r.get('starved_cases', 0) for r in results)},
          'assumptions': c.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': viol}
    if NOTES: ev['coverage']['not_built_as_written'] = NOTES
    if note: ev['coverage']['note'] = note
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)

if __name__ == '__main__': sys.exit(main())
