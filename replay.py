"""Replays recorded inputs on the untouched code:  replay.py FILE.json   (exit 1 when the property is broken)"""
import json
import os
import signal
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('WHATAMI_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)


def main():
    with open(sys.argv[1]) as f:
        r = json.load(f)
    from sx import instr, sched
    if r['property'] in sched.STEPPED:      # nothing is changed but for a call of the scheduler at each step
        instr.install(['whatami', 'arpeggio'], steps=['whatami', 'arpeggio'], plain=True)
    from sx.job import load
    from sx.gen import run_native
    for tier in ('quick', 'thorough'):
        jobs = [j for j in load(r['property']).jobs(tier) if j.name == r['job']]
        if jobs:
            break

    def alarm(*_):
        print('replay: no answer in 60 s')
        sys.stdout.flush()
        os._exit(1)
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(60)
    out, msg, ctx = run_native(jobs[0].fn, r['values'])
    for s in ctx.shown:
        print('inputs: %s' % ascii(s)[1:-1])
    print('replay: %s %s' % (out, ascii(msg)))
    return 1 if out == 'violation' else 0


if __name__ == '__main__':
    sys.exit(main())
