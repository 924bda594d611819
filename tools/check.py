#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--seed N]: builds the check of one property from /repo's
working tree, runs it, confirms any failure by replaying it, writes evidence/<ID>.json."""
import json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
import build
FINDINGS = V + '/known_findings.txt'

def env():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=4096'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1'
    e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:second_deadlock_stack=1'
    e['LC_ALL'] = 'C.UTF-8'
    return e

def known(pid):
    """lines 'finding: property=<id> input=<hash or name> <what fails>'"""
    r = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            m = re.match(r'finding: property=(\S+) (.*)', l)
            if m and m.group(1) == pid: r.append(m.group(2).strip())
    return r

def main():
    a = sys.argv[1:]
    pid = a[0].upper()
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = os.environ.get('VERIF_SEED', '1'); extra = []
    i = 1
    while i < len(a):
        if a[i] == '--tier': tier = a[i + 1]; i += 2
        elif a[i] == '--seed': seed = a[i + 1]; i += 2
        else: extra.append(a[i]); i += 1
    try: seed = str(int(seed))
    except ValueError: seed = '1'
    t0 = time.time()
    prog = pid.lower()
    targets = [prog] + (['cli_asan', 'cli_plain'] if pid in CLI else [])
    if build.build(targets):
        print('build failed', file=sys.stderr); return 3
    exe = '%s/%s/%s' % (build.B, 'tsan' if pid == 'C23' else 'asan', prog)
    os.makedirs(V + '/replays', exist_ok=True); os.makedirs(V + '/evidence', exist_ok=True)
    os.makedirs(build.B + '/run', exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=pid + '-', dir=build.B + '/run')
    res = tmp + '/result.json'
    base = [exe, '--prop', pid, '--tmp', tmp, '--cli', build.B + '/asan/handlebarsc']
    limit = 150 if tier == 'quick' else 560
    def go():
        if os.path.exists(res): os.unlink(res)
        return subprocess.run(base + ['--seed', seed, '--tier', tier, '--out', res, '--time', str(limit), '--replays-dir', V + '/replays'] + extra,
                              env=env(), stdout=sys.stderr).returncode
    violation = None
    try:
        rc = go()
        if rc == 4:            # failed once, but not on its own: the whole run decides
            print('failure not reproduced by itself, running again', file=sys.stderr)
            rc = go()
            if rc == 4: violation = json.load(open(res))['violation'].replace('UNREPRODUCED ', '')
        if rc == 1:
            path = json.load(open(res))['violation']
            fails = 0
            for _ in range(3):
                r = subprocess.run(base + ['--replay', path], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode == 1: fails += 1
            print('replay failed %d of 3 times' % fails, file=sys.stderr)
            if fails: violation = path
            else:
                rc = go()
                if rc in (1, 4): violation = json.load(open(res))['violation'].replace('UNREPRODUCED ', '')
        if rc not in (0, 1, 4):
            print('check program ended with %d' % rc, file=sys.stderr); return 3
        r = json.load(open(res))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    level = 'fault_enumeration' if pid == 'C16' else 'exploration'
    cov = dict(evaluations=r['evaluations'], distinct_nontrivial=r['distinct_nontrivial'], rule=r['rule'], samples=r['samples'],
               nontrivial=r['nontrivial'], executions_inside_cases=r['sub_evaluations'], discarded=r['discarded'], discard_reasons=r['discards'],
               planned=r['planned'], generation_s=round(r['generation_s'], 1), features=r['labels'])
    ev = dict(property=pid, tier=tier, seed=int(seed), level=level, coverage=cov, violations=1 if violation else 0, wall_s=round(time.time() - t0, 1))
    with open(V + '/evidence/%s.json' % pid, 'w') as f: json.dump(ev, f, indent=1)
    for k in known(pid): print('KNOWN-FINDING: property=%s %s' % (pid, k))
    print('%s %s seed=%s: %d cases, %d distinct non-trivial, %d discarded, %.0f s' % (pid, tier, seed, r['evaluations'], r['distinct_nontrivial'], r['discarded'], time.time() - t0))
    if violation:
        print('VIOLATION property=%s replay=%s' % (pid, violation)); return 1
    return 0
CLI = {'C21', 'C20', 'C25', 'C01'}
if __name__ == '__main__': sys.exit(main())
