"""Exhaustive exploration of Python scenarios (and of programs they drive).

A scenario is a function of a Ctx.  Every nondeterministic decision goes through
Ctx.choose; the explorer runs the scenario once per choice sequence (prefix
replay), so that all sequences within the bound are covered.  A choice with a
cost counts against the scenario's bound unless alternative 0 is taken.
"""
import argparse
import json
import multiprocessing
import os
import sys
import time
import traceback


class Violation(Exception):
    pass


class Pruned(Exception):
    pass


class Internal(Exception):
    """Something is wrong with the harness, not with the code it runs."""


class Ctx:
    def __init__(self, prefix, bound, thorough, seen=None):
        self.prefix = prefix
        self.bound = bound
        self.thorough = thorough
        self.choices = []   # (taken, arity)
        self.log = []
        self.spent = 0
        self.steps = 0
        self.evals = 0
        self.outcomes = {}
        self.states = seen if seen is not None else set()
        self.pruned = False

    def choose(self, n, what='', cost=0):
        if n <= 0:
            raise Pruned()
        if cost and self.spent + cost > self.bound:
            n = 1
        i = len(self.choices)
        v = self.prefix[i] if i < len(self.prefix) else 0
        if v >= n:
            raise Internal('replay diverged at choice %d (%s): %d of %d' % (i, what, v, n))
        self.choices.append((v, n))
        if v and cost:
            self.spent += cost
        self.log.append('choose %s = %d of %d' % (what, v, n))
        return v

    def flip(self, what='', cost=0):
        return self.choose(2, what, cost) == 1

    def pick(self, seq, what='', cost=0):
        seq = list(seq)
        return seq[self.choose(len(seq), what, cost)]

    def step(self, text=''):
        self.steps += 1
        if text:
            self.log.append(text)

    def note(self, text):
        self.log.append(text)

    def state(self, s):
        s = hash(s)
        new = s not in self.states
        self.states.add(s)
        return new

    def outcome(self, o):
        o = str(o)[:80]
        self.outcomes[o] = self.outcomes.get(o, 0) + 1

    def prune(self):
        raise Pruned()

    def fail(self, message):
        raise Violation(message)

    def check(self, ok, message):
        self.evals += 1
        if not ok:
            raise Violation(message)

    def eq(self, a, b, what):
        self.evals += 1
        if a != b:
            raise Violation('%s: %s, expected %s' % (what, repr(a)[:400], repr(b)[:400]))


SCENARIOS = []
RULES = []
ASSUMPTIONS = []


def scenario(bound=0, bound_thorough=None, parallel=True):
    def deco(f):
        SCENARIOS.append((f.__name__, f, bound, bound if bound_thorough is None else bound_thorough,
                          parallel))
        return f
    return deco


def rule(text):
    RULES.append(text)


def assumption(text):
    ASSUMPTIONS.append(text)


def run_once(f, prefix, bound, thorough, states=None):
    """-> (ctx, message or None)"""
    ctx = Ctx(prefix, bound, thorough, states)
    try:
        f(ctx)
        return ctx, None
    except Pruned:
        ctx.pruned = True
        return ctx, None
    except Violation as e:
        return ctx, str(e)
    except (Internal, MemoryError):
        raise
    except Exception as e:
        return ctx, 'unexpected %r: %s' % (e, ' <- '.join(
            '%s:%d' % (os.path.basename(x.filename), x.lineno)
            for x in reversed(traceback.extract_tb(e.__traceback__)[-6:])))


def explore(name, prefix, bound, thorough):
    """All executions whose choices start with `prefix`."""
    f = [s for s in SCENARIOS if s[0] == name][0][1]
    res = dict(executions=0, transitions=0, evals=0, outcomes={}, states=set(), sample=None,
               pruned=0, max_choices=0, violation=None, error=None)
    cur = list(prefix)
    fixed = len(prefix)
    try:
        while True:
            ctx, msg = run_once(f, cur, bound, thorough, res['states'])
            res['executions'] += 1
            res['transitions'] += ctx.steps
            res['evals'] += ctx.evals
            res['pruned'] += ctx.pruned
            res['max_choices'] = max(res['max_choices'], len(ctx.choices))
            for k, v in ctx.outcomes.items():
                res['outcomes'][k] = res['outcomes'].get(k, 0) + v
            if res['sample'] is None or len(ctx.log) > len(res['sample']):
                res['sample'] = ctx.log
            if msg is not None:
                res['violation'] = ([c for c, _ in ctx.choices], msg)
                return res
            ch = ctx.choices
            i = len(ch) - 1
            while i >= fixed and ch[i][0] + 1 >= ch[i][1]:
                i -= 1
            if i < fixed:
                return res
            cur = [c for c, _ in ch[:i]] + [ch[i][0] + 1]
    except Exception:
        res['error'] = traceback.format_exc()
        return res


def split(f, bound, thorough, want):
    """Prefixes that partition the tree."""
    work = [[]]
    while len(work) < want:
        nxt = []
        grew = False
        for p in work:
            ctx, msg = run_once(f, p, bound, thorough)
            if len(ctx.choices) > len(p) and msg is None:
                n = ctx.choices[len(p)][1]
                nxt += [p + [i] for i in range(n)]
                grew = True
            else:
                nxt.append(p)
        work = nxt
        if not grew:
            break
    return work


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--evidence')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--only')
    a = ap.parse_args()
    prop = os.environ.get('MC_PROPERTY', 'X')
    replay_dir = os.environ.get('MC_REPLAY_DIR', '/tmp')
    if a.replay:
        lines = open(a.replay).read().split('\n')
        d = dict(l.split(' ', 1) for l in lines if l.startswith(('scenario ', 'tier ', 'choices')) and ' ' in l)
        s = [s for s in SCENARIOS if s[0] == d.get('scenario')]
        if not s:
            return 2
        th = d.get('tier') == 'thorough'
        ctx, msg = run_once(s[0][1], [int(x) for x in d.get('choices', '').split()],
                            s[0][3] if th else s[0][2], th)
        print('\n'.join(ctx.log))
        if msg is not None:
            print('message ' + msg)
            print('VIOLATION property=%s replay=%s' % (prop, a.replay))
            return 1
        print('the property holds on this execution')
        return 0
    t0 = time.time()
    ev = dict(evaluations=0, oracle_evaluations=0, distinct_nontrivial=0, states=0, transitions=0,
              traces_validated_against_impl=0, max_choices_in_an_execution=0,
              pruned_at_known_state=0, exhaustive=True, rule=' '.join(RULES), scenarios=[],
              outcomes={}, distinct_outcomes=0, samples=[], assumptions=list(ASSUMPTIONS),
              violations=0)
    rc = 0
    for name, f, b, bt, parallel in SCENARIOS:
        if a.only and a.only != name:
            continue
        bound = bt if a.thorough else b
        t1 = time.time()
        if parallel:
            work = split(f, bound, a.thorough, 64)
            with multiprocessing.get_context('fork').Pool(8) as pool:
                it = [pool.apply_async(explore, (name, p, bound, a.thorough)) for p in work]
                results = [x.get() for x in it]
        else:
            results = [explore(name, [], bound, a.thorough)]
        ex = sum(r['executions'] for r in results)
        states = set().union(*[r['states'] for r in results])
        outs = {}
        for r in results:
            for k, v in r['outcomes'].items():
                outs[k] = outs.get(k, 0) + v
            ev['max_choices_in_an_execution'] = max(ev['max_choices_in_an_execution'], r['max_choices'])
        tr = sum(r['transitions'] for r in results)
        err = [r['error'] for r in results if r['error']]
        viol = [r['violation'] for r in results if r['violation']]
        ev['evaluations'] += ex
        ev['oracle_evaluations'] += sum(r['evals'] for r in results)
        ev['traces_validated_against_impl'] += ex
        ev['transitions'] += tr
        ev['states'] += max(len(states), len(outs))
        ev['distinct_nontrivial'] += max(len(states), len(outs))
        ev['distinct_outcomes'] += len(outs)
        for k in sorted(outs)[:40]:
            ev['outcomes'][name + ': ' + k] = outs[k]
        best = max((r['sample'] for r in results if r['sample'] is not None), key=len, default=[])
        ev['samples'].append(name + ': ' + '; '.join(best)[:1500])
        done = not err and not viol
        ev['scenarios'].append(dict(name=name, executions=ex, transitions=tr, states=len(states),
                                    bound=bound, exhaustive=done, wall_s=round(time.time() - t1, 2)))
        ev['exhaustive'] = ev['exhaustive'] and done
        print('scenario %-32s executions=%d transitions=%d states=%d %s %.1fs'
              % (name, ex, tr, len(states), 'exhaustive' if done else 'stopped', time.time() - t1))
        sys.stdout.flush()
        if viol:
            choices, msg = min(viol, key=lambda v: len(v[0]))
            again = [run_once(f, choices, bound, a.thorough)[1] for _ in range(2)]
            if any(m is None for m in again):
                print('mcpy: scenario %s: %r does not happen again: %r' % (name, msg, again))
                rc = 2
                break
            ctx, msg = run_once(f, choices, bound, a.thorough)
            os.makedirs(replay_dir, exist_ok=True)
            path = os.path.join(replay_dir, '%s_%s.txt' % (prop, name))
            with open(path, 'w') as o:
                o.write('scenario %s\ntier %s\nchoices %s\nmessage %s\n%s\n' % (
                    name, 'thorough' if a.thorough else 'quick', ' '.join(map(str, choices)),
                    msg.replace('\n', ' '), '\n'.join(ctx.log)))
            print('  ' + msg)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            ev['violations'] += 1
            rc = 1
            break
        if err:
            print('mcpy: scenario %s: %s' % (name, err[0]))
            rc = 2
            break
    ev['wall'] = time.time() - t0
    if a.evidence:
        with open(a.evidence, 'w') as o:
            json.dump(ev, o)
    return rc
