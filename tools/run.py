#!/usr/bin/env python3
"""usage: run.py PROPERTY [quick|thorough]   decides one property.

Rebuilds the harnesses of the property from /repo's working tree, runs them,
writes evidence/PROPERTY.json.  Exit 0: held on everything explored.  Exit 1 and
a VIOLATION line: broken.  Exit 2: no answer.
       run.py PROPERTY --replay FILE     re-executes one recorded choice sequence
"""
import json
import os
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import build  # noqa: E402
from checks import CHECKS  # noqa: E402

PY = '/opt/fcp/pyvenv/bin/python'


def known_findings(pid):
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                out.append(line[len('known: '):])
    return out


def main():
    pid = sys.argv[1]
    c = CHECKS[pid]
    rest = sys.argv[2:]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if rest and rest[0] in ('quick', 'thorough'):
        tier = rest[0]
        rest = rest[1:]
    t0 = time.time()
    B = build.B
    targets = c.get('targets', [])
    built = True
    if targets:
        rc = build.main(list(targets))
        if rc:
            print('run.py: the harness of %s does not build against this tree' % pid)
            if not c.get('py'):
                return 2
            built = False
    else:
        build.mirror()
    env = dict(os.environ)
    env['MC_PROPERTY'] = pid
    env['MC_REPLAY_DIR'] = os.path.join(VERIF, 'replays')
    env['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=0:exitcode=99:'
                           'allocator_may_return_null=1:detect_stack_use_after_return=0:'
                           'handle_segv=1:quarantine_size_mb=16')
    env['TZ'] = 'UTC'
    env['LC_ALL'] = 'C.UTF-8'
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    cmds = [[os.path.join(B, 'bin', t)] for t in targets] if built else []
    if not built:
        env['MC_NOT_BUILT'] = '1'
    cmds += [[PY, os.path.join(VERIF, 'harness', s)] for s in c.get('py', [])]
    if rest and rest[0] == '--replay':
        for cmd in cmds:
            r = subprocess.run(cmd + rest, env=env)
            if r.returncode != 2:
                return r.returncode
        return 2
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmpd = os.path.join(B, 'ev')
    os.makedirs(tmpd, exist_ok=True)
    total = None
    rcs = []
    limit = 840 if tier == 'quick' else 7000
    for cmd in cmds:
        evp = os.path.join(tmpd, '%s_%s.json' % (pid, os.path.basename(cmd[-1])))
        if os.path.exists(evp):
            os.remove(evp)
        full = cmd + ['--evidence', evp] + (['--thorough'] if tier == 'thorough' else [])
        left = limit - (time.time() - t0)
        p = subprocess.Popen(full, env=env, start_new_session=True)
        try:
            rc = p.wait(timeout=max(left, 5))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            print('run.py: %s did not finish within %d s' % (cmd[-1], limit))
            rc = 2
        rcs.append(rc)
        if os.path.exists(evp):
            e = json.load(open(evp))
            if total is None:
                total = e
            else:
                for k in ('evaluations', 'oracle_evaluations', 'states', 'transitions',
                          'distinct_nontrivial', 'traces_validated_against_impl',
                          'distinct_outcomes', 'pruned_at_known_state', 'violations'):
                    total[k] = total.get(k, 0) + e.get(k, 0)
                total['exhaustive'] = total['exhaustive'] and e['exhaustive']
                total['rule'] += ' ' + e['rule']
                total['samples'] += e['samples']
                total['assumptions'] += e['assumptions']
                total['outcomes'].update(e['outcomes'])
                total['scenarios'] += e['scenarios']
        if rc == 1:
            break
    if total is not None:
        cov = dict(samples=total['samples'][:16], exhaustive=total['exhaustive'],
                   scenarios=total['scenarios'], rule=total['rule'],
                   oracle_evaluations=total['oracle_evaluations'],
                   distinct_outcomes=total['distinct_outcomes'], outcomes=total['outcomes'])
        if c['level'] == 'model_checking':
            cov.update(states=total['states'], transitions=total['transitions'],
                       traces_validated_against_impl=total['traces_validated_against_impl'],
                       trace_validation='every explored execution is an execution of the real '
                       'code compiled from /repo, compared with the reference after each step')
        else:
            cov.update(evaluations=total['evaluations'],
                       distinct_nontrivial=total['distinct_nontrivial'],
                       transitions=total['transitions'])
        ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED') or 1),
                  level=c['level'], coverage=cov, wall_s=round(time.time() - t0, 2),
                  violations=total['violations'],
                  assumptions=total['assumptions'] + c.get('assumptions', []))
        path = os.path.join(VERIF, 'evidence', pid + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(path + '.tmp', path)
    for k in known_findings(pid):
        print('KNOWN-FINDING: ' + k)
    if any(rc == 1 for rc in rcs):
        return 1
    if not built:
        return 2
    if any(rc != 0 for rc in rcs) or total is None:
        print('run.py: no answer (exit codes %s)' % rcs)
        return 2
    print('property %s held (%s, %.1f s)' % (pid, tier, time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
