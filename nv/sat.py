"""CNF construction and the SAT back end.

The back end is kissat (a SAT solver; the queries are propositional encodings of
bounded runs).  `solve` returns 'sat' with a model, 'unsat', or 'unknown'.
"""
import os
import resource
import shutil
import subprocess
import tempfile
import time

KISSAT = shutil.which('kissat') or '/usr/local/bin/kissat'


class Stats:
  """What one check did, for its evidence file."""

  def __init__(self):
    self.queries = 0
    self.sat = 0
    self.unsat = 0
    self.unknown = 0
    self.solver_s = 0.0
    self.max_query_s = 0.0
    self.vars = 0
    self.clauses = 0

  def add(self, verdict, secs, nv=0, nc=0):
    self.queries += 1
    setattr(self, verdict, getattr(self, verdict) + 1)
    self.solver_s += secs
    self.max_query_s = max(self.max_query_s, secs)
    self.vars += nv
    self.clauses += nc

  def merge(self, o):
    for k, v in o.items():
      if k == 'max_query_s':
        self.max_query_s = max(self.max_query_s, v)
      else:
        setattr(self, k, getattr(self, k) + v)

  def dict(self):
    return dict(self.__dict__)


class CNF:
  """A growing list of clauses."""

  def __init__(self):
    self.nv = 0
    self.cl = []
    self._true = None

  def new(self):
    self.nv += 1
    return self.nv

  def true(self):
    if self._true is None:
      self._true = self.new()
      self.add(self._true)
    return self._true

  def add(self, *lits):
    self.cl.append(lits)

  def amo(self, vs):
    vs = list(vs)
    n = len(vs)
    if n <= 5:
      for i in range(n):
        for j in range(i):
          self.cl.append((-vs[i], -vs[j]))
      return
    prev = None
    for i, v in enumerate(vs):
      if i == n - 1:
        if prev:
          self.cl.append((-prev, -v))
        break
      r = self.new()
      self.cl.append((-v, r))
      if prev:
        self.cl.append((-prev, r))
        self.cl.append((-prev, -v))
      prev = r

  def one(self, vs):
    vs = list(vs)
    self.cl.append(tuple(vs))
    self.amo(vs)

  def write(self, f):
    f.write('p cnf %d %d\n' % (self.nv, len(self.cl)))
    out = []
    for c in self.cl:
      out.append(' '.join(map(str, c)))
      if len(out) > 20000:
        f.write(' 0\n'.join(out) + ' 0\n')
        out = []
    if out:
      f.write(' 0\n'.join(out) + ' 0\n')


def _limit():
  resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def solve(cnf, stats, timeout=300):
  """('sat', set of true variables) / ('unsat', None) / ('unknown', None)."""
  fd, path = tempfile.mkstemp(suffix='.cnf')
  t0 = time.time()
  try:
    with os.fdopen(fd, 'w') as f:
      cnf.write(f)
    r = subprocess.run(
        [KISSAT, '-q', '--time=%d' % max(1, int(timeout)), path],
        stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
        stdin=subprocess.DEVNULL, preexec_fn=_limit)
  finally:
    os.unlink(path)
  verdict, model = 'unknown', None
  if r.returncode == 20 and 's UNSATISFIABLE' in r.stdout:
    verdict = 'unsat'
  elif r.returncode == 10 and 's SATISFIABLE' in r.stdout:
    verdict = 'sat'
    model = set()
    for line in r.stdout.splitlines():
      if line.startswith('v'):
        for z in line[1:].split():
          z = int(z)
          if z > 0:
            model.add(z)
  stats.add(verdict, time.time() - t0, cnf.nv, len(cnf.cl))
  return verdict, model
