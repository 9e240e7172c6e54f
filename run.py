"""Decides one property:  run.py --prop C02 [--tier quick|thorough] [--budget SECONDS] [--job NAME] [--workers N]

Exit 0: held on everything explored; 1: violation (replayed on the untouched code); 2: no verdict.
"""
import argparse
import json
import os
import pickle
import select
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('WHATAMI_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
from sx.sched import STEPPED  # noqa: the properties about threads
QUICK_S = 25.
THOROUGH_S = 420.


def send(fd, obj):
    data = pickle.dumps(obj)
    data = ('%012d' % len(data)).encode('ascii') + data
    while data:
        data = data[os.write(fd, data):]


def recv(fd):
    def exactly(n):
        out = b''
        while len(out) < n:
            chunk = os.read(fd, n - len(out))
            if not chunk:
                raise EOFError()
            out += chunk
        return out
    return pickle.loads(exactly(int(exactly(12))))


class NativeTimeout(BaseException):
    pass


def native(fn, values, seconds):
    """Runs the harness natively (in this process): (outcome, message)."""
    from sx.gen import run_native
    from sx import state

    def alarm(*_):
        raise NativeTimeout()
    old = signal.signal(signal.SIGALRM, alarm)
    state.reset()
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        out, msg, _ = run_native(fn, values)
        return out, msg
    except NativeTimeout:
        return 'violation', 'no answer in %d s' % seconds
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        state.reset()


def explore(job, budget, seed, log_queries):
    from sx import core, gen, instr, solver, state
    instr.SEEN.clear()
    sol = solver.Solver()
    if log_queries:
        sol.log = []

    def confirm(values, msg):
        out, nmsg = native(job.fn, values, job.run_timeout)
        return out == 'violation', nmsg
    try:
        ex = core.Explorer(job.fn, sol, lambda m, e: gen.Ctx(m, e), budget_s=budget, conc_cap=job.conc_cap,
                           run_timeout_s=job.run_timeout, confirm=confirm, reset=state.reset, seed=seed,
                           validate=lambda values: native(job.fn, values, job.run_timeout)[0] != 'violation')
        ex.run()
    finally:
        sol.close()
    cross = solver.cross_check(sol.log, 200, 20) if log_queries and ex.violation is None else (0, 0, 0)
    st = ex.stats
    return {'job': job.name, 'stats': st, 'notes': sorted(ex.notes), 'samples': ex.samples,
            'messages': ex.messages, 'functions': sorted(instr.SEEN), 'violation': ex.violation, 'spurious': ex.spurious,
            'solver': {'queries': sol.queries, 'cached': sol.cached, 'sat': sol.sat, 'unsat': sol.unsat,
                       'unknown': sol.unknown, 'seconds': sol.time}, 'cross': cross,
            'exhausted': not (st['unexplored'] or st['flip_unknown'] or st['truncated'] or st['timeouts'] or
                              st['conc_dropped'] or st['concretised'] or st['spurious'] or st['diverged'])}


def worker(jobs, rfd, wfd, seed):
    while True:
        try:
            i, budget, log = recv(rfd)
        except EOFError:
            os._exit(0)
        try:
            res = explore(jobs[i], budget, seed, log)
        except BaseException as e:
            import traceback
            res = {'job': jobs[i].name, 'crash': traceback.format_exc()[-3000:]}
        try:
            send(wfd, (i, res))
        except Exception:
            os._exit(3)


def replay_cmd(prop, job, path):
    return [sys.executable, os.path.join(HERE, 'replay.py'), path]


def confirmed_outside(prop, job, violation, path):
    """Replays on the untouched code, in another process."""
    with open(path, 'w') as f:
        json.dump({'property': prop, 'job': job, 'values': violation['values'], 'message': violation['message'],
                   'info': violation['info']}, f)
    try:
        p = subprocess.run(replay_cmd(prop, job, path), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    except subprocess.TimeoutExpired:
        return True, 'no answer in 120 s'
    return p.returncode == 1, p.stdout.decode('utf-8', 'replace')[-4000:]


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(HERE, 'known_findings.txt')) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known: property=%s ' % prop):
                    out.append(line.split(' ', 2)[2])
    except OSError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--job', default=None)
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = args.prop
    from sx import instr
    instr.install(['whatami', 'arpeggio', 'toolz', 'sx.props'], steps=['whatami', 'arpeggio'] if prop in STEPPED else [])
    from sx.job import load
    from sx import ops  # noqa
    module = load(prop)
    jobs = module.jobs(args.tier)
    if args.job:
        jobs = [j for j in jobs if args.job in j.name]
    budget = args.budget or (getattr(module, 'QUICK_S', QUICK_S) if args.tier == 'quick' else
                             getattr(module, 'THOROUGH_S', THOROUGH_S))
    from sx import state
    state.remember()
    setup_s = time.time() - t0
    nw = max(1, min(args.workers, len(jobs)))
    workers = []
    for w in range(nw):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            for _, a, b in workers:
                os.close(a)
                os.close(b)
            os.close(w1)
            os.close(r2)
            worker(jobs, r1, w2, seed)
            os._exit(0)
        os.close(r1)
        os.close(w2)
        workers.append((pid, w1, r2))
    start = time.time()
    pending = sorted(range(len(jobs)), key=lambda i: -jobs[i].weight)
    free = list(range(nw))
    busy = {}
    results = []
    violation = None
    rejected = []
    hard = start + budget * 2 + 120
    while pending or busy:
        while pending and free:
            i = pending.pop(0)
            w = free.pop(0)
            now = time.time()
            left = sum(max(0., b - now) for _, b in busy.values())
            cpu = max(0., (start + budget - now) * nw - left)
            rest = jobs[i].weight + sum(jobs[k].weight for k in pending)
            share = max(2., min(cpu * jobs[i].weight / rest, start + budget - now))
            send(workers[w][1], (i, share, True))
            busy[w] = (i, now + share)
        fds = {workers[w][2]: w for w in busy}
        ready = select.select(list(fds), [], [], max(0.1, hard - time.time()))[0]
        if not ready:
            break
        for fd in ready:
            w = fds[fd]
            i, _ = busy.pop(w)
            try:
                _, res = recv(fd)
            except EOFError:
                results.append({'job': jobs[i].name, 'crash': 'worker died'})
                continue
            free.append(w)
            results.append(res)
            if args.v:
                print(json.dumps({k: v for k, v in res.items() if k not in ('samples',)}, indent=None, default=str)[:3000])
            v = res.get('violation')
            if v is not None and violation is None:
                os.makedirs(os.path.join(HERE, 'evidence', 'replays'), exist_ok=True)
                path = os.path.join(HERE, 'evidence', 'replays', '%s-%s.json' % (prop, jobs[i].name.replace('/', '_')))
                ok, out = confirmed_outside(prop, jobs[i].name, v, path)
                if ok:
                    violation = (jobs[i].name, v, path, out)
                else:
                    rejected.append((jobs[i].name, v, out))
        if violation is not None:
            break
    for pid, a, b in workers:
        try:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        except OSError:
            pass
    return finish(prop, module, args, jobs, results, violation, rejected, seed, t0, setup_s, bool(pending or busy))


def finish(prop, module, args, jobs, results, violation, rejected, seed, t0, setup_s, cut):
    from sx import instr
    bounds = {j.name: j.bounds for j in jobs}
    tot = {}
    sol = {}
    notes = set()
    messages = {}
    cross = [0, 0, 0]
    per_job = []
    samples = []
    crashes = [r for r in results if 'crash' in r]
    for r in results:
        if 'crash' in r:
            continue
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
        for k, v in r['solver'].items():
            sol[k] = sol.get(k, 0) + v
        notes |= set(r['notes'])
        for k, v in r['messages'].items():
            messages[k] = messages.get(k, 0) + v
        cross = [a + b for a, b in zip(cross, r['cross'])]
        per_job.append({'job': r['job'], 'bounds': bounds[r['job']], 'exhausted_within_bounds': r['exhausted'],
                        'paths': r['stats']['paths'], 'unexplored_branches': r['stats']['unexplored'],
                        'checks_reached': r['stats']['reached'], 'wall_s': round(r['stats'].get('wall', 0), 2)})
        samples.extend([{'job': r['job'], **s} for s in r['samples'][:1]])
    spurious = [dict(s, job=r['job']) for r in results if 'crash' not in r for s in r['spurious']]
    known = known_findings(prop)
    coverage = {
        'states': tot.get('paths', 0),
        'transitions': tot.get('decisions', 0),
        'traces_validated_against_impl': tot.get('validated', 0),
        'samples': samples[:12],
        'explanation': 'States are explored path classes (each stands for all the inputs meeting its path condition), '
                       'transitions are symbolic branch decisions, validated traces are path classes whose witness was '
                       'also run natively without symbolic values.',
        'exhaustive': bool(per_job) and all(j['exhausted_within_bounds'] for j in per_job),
        'jobs': per_job,
        'encoded_modules': sorted(m for m in instr.INSTRUMENTED if not m.startswith('sx.')),
        'functions_encoded': sorted(set(f for r in results if 'crash' not in r for f in r['functions'])),
        'assertions_reached': tot.get('reached', 0),
        'assertions': messages,
        'assertions_discharged_by_solver': tot.get('discharged', 0),
        'assertions_valid_by_term_rewriting': tot.get('folded', 0),
        'assertions_undecided': tot.get('check_unknown', 0),
        'branch_flips_decided_by_solver': tot.get('flips', 0),
        'infeasible_branches': tot.get('infeasible', 0),
        'undecided_branches': tot.get('flip_unknown', 0),
        'unexplored_branches': tot.get('unexplored', 0),
        'paths_ended_by_assumption': tot.get('ended_by_assumption', 0),
        'concretisations': tot.get('concretised', 0),
        'concretisation_reasons': sorted(notes)[:40],
        'diverged': tot.get('diverged', 0), 'truncated': tot.get('truncated', 0), 'run_timeouts': tot.get('timeouts', 0),
        'unconfirmed_counterexamples': len(spurious) + len(rejected),
        'unconfirmed_samples': spurious[:5],
        'solver': {'name': 'z3', 'queries': sol.get('queries', 0), 'answered_from_cache': sol.get('cached', 0),
                   'sat': sol.get('sat', 0), 'unsat': sol.get('unsat', 0), 'unknown': sol.get('unknown', 0),
                   'seconds': round(sol.get('seconds', 0.), 2),
                   'cross_checked_with_cvc5': {'agreed': cross[0], 'disagreed': cross[1], 'undecided': cross[2]}},
        'crashed_jobs': crashes,
    }
    evidence = {'property': prop, 'tier': args.tier, 'seed': seed, 'level': 'model_checking', 'coverage': coverage,
                'assumptions': list(getattr(module, 'ASSUMPTIONS', ())) + COMMON_ASSUMPTIONS,
                'wall_s': round(time.time() - t0, 2), 'violations': 0 if violation is None else 1}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
    print('%s %s: %d paths, %d decisions, %d assertions reached (%d by solver, %d by rewriting), %d solver queries '
          '(%.1f s), %d/%d jobs exhausted, %d concretised, %d unconfirmed, setup %.1f s, wall %.1f s' %
          (prop, args.tier, tot.get('paths', 0), tot.get('decisions', 0), tot.get('reached', 0),
           tot.get('discharged', 0), tot.get('folded', 0), sol.get('queries', 0), sol.get('seconds', 0),
           sum(j['exhausted_within_bounds'] for j in per_job), len(jobs), tot.get('concretised', 0),
           len(spurious) + len(rejected), setup_s, time.time() - t0))
    for s in spurious[:5]:
        print('  unconfirmed:', s['job'], s['message'], s['values'], (s['traceback'] or '')[-1500:] if args.v else '')
    for r in rejected[:3]:
        print('  rejected by the native replay:', r[0], r[1]['message'], r[2][-500:])
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if violation is not None:
        name, v, path, out = violation
        print('  job %s: %s | %s' % (name, v['message'], v['info']))
        print('  ' + out.strip().replace('\n', '\n  '))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    empty = [r['job'] for r in results if 'crash' not in r and not r['stats']['reached']]
    if crashes or cut or empty or cross[1]:
        for c in crashes:
            print('crashed: %s\n%s' % (c['job'], c['crash']))
        print('no verdict: %d crashed, cut=%s, jobs without assertions: %s, solver disagreements: %d' %
              (len(crashes), cut, empty, cross[1]))
        return 2
    return 0


COMMON_ASSUMPTIONS = [
    'Bounds are those listed per job; nothing is claimed beyond them.',
    'Strings have concrete lengths (all within the bounds are tried) and symbolic unicode characters other than '
    'surrogates; floats are those of the listed decimal shapes.',
    'sha1/md5 are taken as injective on the compared messages.',
    'CPython semantics are those of the PyPy 3.9 interpreter used here; regular expressions are executed symbolically '
    'and each match is compared with the native one.',
]

if __name__ == '__main__':
    sys.exit(main())
