"""One long-lived SMT solver process, queried through a pipe with push/pop; answers are cached by query text."""
import os
import re
import select
import subprocess
import time

from .terms import f_smt

Z3 = next((p for p in ('/usr/local/bin/z3-new', '/usr/bin/z3') if os.path.exists(p)), 'z3')
CVC5 = next((p for p in ('/usr/local/bin/cvc5', '/usr/bin/cvc5') if os.path.exists(p)), 'cvc5')


class SolverError(Exception):
    pass


class Solver(object):

    def __init__(self, timeout_ms=5000):
        self.timeout_ms = timeout_ms
        self.proc = None
        self.cache = {}
        self.queries = 0          # decided by the solver process
        self.cached = 0
        self.sat = self.unsat = self.unknown = 0
        self.errors = 0
        self.time = 0.
        self.log = None           # when a list: texts of the queries with a sat/unsat answer (for cross-checking)

    def _start(self):
        self.proc = subprocess.Popen([Z3, '-in', '-t:%d' % self.timeout_ms], stdin=subprocess.PIPE,
                                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        self.buf = b''
        self._send('(set-option :print-success false)\n(set-logic QF_LIA)\n')

    def close(self):
        if self.proc is not None:
            try:
                self.proc.kill()
                self.proc.wait()
            except Exception:
                pass
            self.proc = None

    def _send(self, text):
        self.proc.stdin.write(text.encode('ascii'))
        self.proc.stdin.flush()

    def _line(self, deadline):
        while b'\n' not in self.buf:
            left = deadline - time.time()
            if left <= 0 or not select.select([self.proc.stdout], [], [], left)[0]:
                raise SolverError('timeout')
            chunk = os.read(self.proc.stdout.fileno(), 65536)
            if not chunk:
                raise SolverError('solver died')
            self.buf += chunk
        line, self.buf = self.buf.split(b'\n', 1)
        return line.decode('ascii', 'replace').strip()

    @staticmethod
    def text(decls, formulas):
        """decls: {var: ranges}."""
        out = []
        for v in sorted(decls):
            out.append('(declare-const v%d Int)' % v)
            out.append('(assert %s)' % f_smt(('in', (0, ((v, 1),)), decls[v])))
        for f in formulas:
            out.append('(assert %s)' % f_smt(f))
        return '\n'.join(out)

    def check(self, decls, formulas):
        """Returns ('sat', {var: value}) | ('unsat', None) | ('unknown', None)."""
        text = self.text(decls, formulas)
        hit = self.cache.get(text)
        if hit is not None:
            self.cached += 1
            return hit
        t0 = time.time()
        try:
            res = self._query(text, sorted(decls))
        except (SolverError, OSError, ValueError):
            self.close()
            self.errors += 1
            res = ('unknown', None)
        self.time += time.time() - t0
        self.queries += 1
        if res[0] == 'sat':
            self.sat += 1
        elif res[0] == 'unsat':
            self.unsat += 1
        else:
            self.unknown += 1
            return res
        if self.log is not None and len(self.log) < 4000:
            self.log.append((text, res[0]))
        self.cache[text] = res
        return res

    def _query(self, text, names):
        if self.proc is None:
            self._start()
        deadline = time.time() + self.timeout_ms / 1000. + 5
        self._send('(push 1)\n%s\n(check-sat)\n' % text)
        ans = self._line(deadline)
        if ans not in ('sat', 'unsat', 'unknown'):
            raise SolverError(ans)
        model = None
        if ans == 'sat':
            model = {}
            if names:
                self._send('(get-value (%s))\n' % ' '.join('v%d' % n for n in names))
                got = self._line(deadline)
                while got.count('(') != got.count(')'):
                    got += ' ' + self._line(deadline)
                if 'error' in got:
                    raise SolverError(got)
                for n, val in re.findall(r'\(v(\d+) (\(- \d+\)|-?\d+)\)', got):
                    val = val.replace('(- ', '-').replace(')', '')
                    model[int(n)] = int(val)
                if len(model) != len(names):
                    raise SolverError('model: ' + got)
        self._send('(pop 1)\n')
        return ans, model


def cross_check(log, limit=300, timeout_s=20):
    """Re-decides logged queries with a second solver (cvc5); returns (agreed, disagreed, undecided)."""
    log = log[:: max(1, len(log) // limit)][:limit]
    if not log:
        return 0, 0, 0
    script = ['(set-option :incremental true)', '(set-option :global-declarations false)', '(set-logic QF_LIA)']
    for text, _ in log:
        script.append('(push 1)\n%s\n(check-sat)\n(pop 1)' % text)
    try:
        out = subprocess.run([CVC5, '--lang', 'smt2', '--incremental', '-'], input='\n'.join(script).encode('ascii'),
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout_s).stdout
        answers = [l.strip() for l in out.decode('ascii', 'replace').splitlines() if l.strip()]
    except (subprocess.TimeoutExpired, OSError):
        return 0, 0, len(log)
    agreed = sum(1 for (_, a), b in zip(log, answers) if a == b)
    disagreed = sum(1 for (_, a), b in zip(log, answers) if a != b and b in ('sat', 'unsat'))
    return agreed, disagreed, len(log) - agreed - disagreed
