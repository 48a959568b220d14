"""Runs the queries of one check, replays what they return, writes the evidence.

A query builds a problem for a bound and hands it to the solver twice:

* with the violation asserted: `unsat` means that no input within the bound
  breaks the property; a model is a counterexample, which is replayed on the real
  code and reported only if it reproduces;
* without it (the twin): it must be satisfiable, or the query says nothing.  Its
  model is replayed too: the real code has to do what the encoding says.

The bounds of a query are tried in order.  The first one has to be decided, or
the check ends with an error; later ones deepen, as time allows.
"""
import json
import concurrent.futures as futures
import concurrent.futures.process
import multiprocessing
import os
import resource
import sys
import time
import traceback

from nv import build, fst, sat

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.jsonl')


class Problem:
  """One encoded query at one bound.

  cnf: the constraints; violation: clauses that assert that the property fails.
  words: {name: enc.Word}, decoded from a model; values: {name: fn(model)}.
  """

  def __init__(self, cnf, violation, words=None, values=None, states=0,
               transitions=0, twin=()):
    self.cnf, self.violation = cnf, list(violation)
    self.words, self.values = words or {}, values or {}
    self.states, self.transitions = states, transitions
    self.twin = list(twin)

  def decode(self, model):
    out = {k: list(w.decode(model)) for k, w in self.words.items()}
    for k, f in self.values.items():
      out[k] = f(model)
    return out


class Query:
  """encode(n) -> Problem; n runs over the bounds.

  replay(witness) -> (violated, text): runs the real code on a counterexample.
  confirm(witness) -> bool: the real code does what the twin's model says.
  """

  def __init__(self, name, encode, bounds, replay, confirm=None, timeout=None,
               functions=()):
    self.name, self.encode, self.bounds = name, encode, list(bounds)
    self.replay, self.confirm = replay, confirm
    self.timeout, self.functions = timeout, list(functions)


def _one(q, deadline, hard):
  """Runs one query in a worker; a dict.  The first bound may take longer."""
  if hasattr(q, 'explore'):
    return q.explore(deadline, hard)
  r = {'name': q.name, 'bound': None, 'verdict': None, 'states': 0,
       'transitions': 0, 'attempts': [], 'clauses': 0}
  st = sat.Stats()
  try:
    for i, n in enumerate(q.bounds):
      left = deadline - time.time()
      if i and left < 5:
        break
      t0 = time.time()
      try:
        p = q.encode(n)
      except (fst.Unsupported, MemoryError) as e:
        if not i:
          raise
        r['attempts'].append({'bound': n, 'verdict': 'unknown',
                              'encode': str(e) or 'memory'})
        break
      t1 = time.time()
      k, nc = len(p.cnf.cl), p.cnf.nv
      for cl in p.violation:
        p.cnf.add(*cl)
      left = max(5, (deadline if i else hard) - time.time())
      v, model = sat.solve(p.cnf, st, min(q.timeout * (1 if i else 4), left))
      r['attempts'].append({'bound': n, 'verdict': v,
                            'encode_s': round(t1 - t0, 2),
                            'solve_s': round(time.time() - t1, 2)})
      if v == 'unknown':
        if i == 0:
          r['verdict'] = 'unknown'
        break
      r.update(bound=n, states=p.states, transitions=p.transitions,
               clauses=len(p.cnf.cl), vars=nc)
      r['verdict'] = v
      if v == 'sat':
        r['witness'] = p.decode(model)
        break
      del p.cnf.cl[k:]
      for cl in p.twin:
        p.cnf.add(*cl)
      v, model = sat.solve(p.cnf, st, max(60, q.timeout))
      r['twin'] = v
      r['twin_bound'] = n
      if v == 'sat':
        r['twin_witness'] = p.decode(model)
      else:
        break
  except Exception:
    r['verdict'] = 'error'
    r['error'] = traceback.format_exc()[-1500:]
  r['stats'] = st.dict()
  return r


_queries = []
_deadline = _hard = 0


def _limit():
  """A worker may take 5 GB more than what it was made with."""
  with open('/proc/self/statm') as f:
    now = int(f.read().split()[0]) * resource.getpagesize()
  resource.setrlimit(resource.RLIMIT_AS, (
      now + (5 << 30), resource.getrlimit(resource.RLIMIT_AS)[1]))


def _work(i):
  return i, _one(_queries[i], _deadline, _hard)


def known(prop):
  out = []
  if os.path.exists(KNOWN):
    with open(KNOWN) as f:
      for line in f:
        if line.strip() and not line.startswith('fixed:'):
          d = json.loads(line)
          if d['property'] == prop:
            out.append(d)
  return out


class Check:
  """One check: its queries, their results, its evidence."""

  def __init__(self, prop, tier):
    self.prop, self.tier = prop, tier
    self.seed = int(os.environ.get('VERIF_SEED', '1'))
    self.t0 = time.time()
    self.queries = []
    self.results = []
    self.violations = []
    self.errors = []
    self.assumptions = []
    self.notes = {}
    self.stats = sat.Stats()
    self.traces = 0
    self.samples = []
    self.extra_states = 0
    self.extra_transitions = 0
    self.budget = 420 if tier == 'quick' else 3000
    self.procs = int(os.environ.get('NV_PROCS', '8'))

  @property
  def quick(self):
    return self.tier == 'quick'

  def pick(self, quick, thorough):
    return quick if self.quick else thorough

  def build(self, labels):
    try:
      return build.build(labels)
    except build.BuildError as e:
      self.fatal('build: %s' % e)

  def fatal(self, text):
    print('ERROR property=%s %s' % (self.prop, text), flush=True)
    self.errors.append(text)
    self.finish()

  def query(self, *a, **kw):
    q = Query(*a, **kw)
    if q.timeout is None:
      q.timeout = self.pick(60, 900)
    self.queries.append(q)
    return q

  def explore(self, name, make, bounds, functions=()):
    """Symbolic execution of Python code; see claims in nv/pyx.py."""
    from nv import pyx
    self.queries.append(pyx.Explore(name, make, bounds, functions))

  def run(self):
    """Runs the queries added so far."""
    global _queries, _deadline, _hard
    _queries = self.queries
    self.queries = []
    _deadline = self.t0 + self.budget
    _hard = self.t0 + max(self.budget, 800)
    if not _queries:
      return
    with futures.ProcessPoolExecutor(
        min(self.procs, len(_queries)), multiprocessing.get_context('fork'),
        _limit) as pool:
      todo = [pool.submit(_work, i) for i in range(len(_queries))]
      try:
        for f in futures.as_completed(todo):
          i, r = f.result()
          self._take(_queries[i], r)
      except futures.process.BrokenProcessPool:
        self.errors.append('a worker died')
        print('ERROR a worker died', flush=True)
    _queries = []

  def _take(self, q, r):
    self.stats.merge(r.pop('stats'))
    self.results.append(r)
    r['functions'] = q.functions
    if r['verdict'] == 'error':
      self.errors.append('%s: %s' % (q.name, r['error']))
      print('ERROR %s: %s' % (q.name, r['error']), flush=True)
      return
    if r['verdict'] == 'unknown':
      self.errors.append('%s: undecided at its first bound' % q.name)
      print('UNDECIDED %s' % q.name, flush=True)
      return
    if r['verdict'] == 'sat':
      try:
        bad, text = q.replay(r['witness'])
      except Exception:
        bad, text = None, 'replay failed: ' + traceback.format_exc()[-1500:]
      if bad:
        self.violation(q.name, r['witness'], text)
      else:
        self.errors.append('%s: the counterexample does not reproduce: %s %s' %
                           (q.name, r['witness'], text))
        print('NOT-REPRODUCED %s %s %s' % (q.name, r['witness'], text),
              flush=True)
      return
    if r.get('twin') != 'sat':
      self.errors.append('%s: its twin is %s: the query says nothing' %
                         (q.name, r.get('twin')))
      print('VACUOUS %s' % q.name, flush=True)
      return
    if q.confirm:
      try:
        ok = q.confirm(r['twin_witness'])
      except Exception:
        ok = None
        self.errors.append(traceback.format_exc()[-1500:])
      if ok:
        self.traces += 1
        self.samples.append({'query': q.name, 'bound': r['bound'],
                             'witness': show(r['twin_witness'])})
      else:
        self.errors.append('%s: the real code does not do what the encoding '
                           'says: %s' % (q.name, r['twin_witness']))
        print('MISMATCH %s %s' % (q.name, r['twin_witness']), flush=True)

  def violation(self, name, witness, text):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (self.prop, len(self.violations)))
    with open(path, 'w') as f:
      json.dump({'property': self.prop, 'query': name, 'witness': witness,
                 'shown': show(witness), 'text': text}, f, indent=1,
                ensure_ascii=True, default=str)
    self.violations.append(path)
    print('VIOLATION property=%s replay=%s' % (self.prop, path))
    print('  %s: %s' % (name, text), flush=True)

  def known(self, key):
    return [e for e in known(self.prop) if e.get('key') == key]

  def known_words(self, key):
    """The patterns of the recorded findings: sequences of sets of symbols."""
    return [[set(z) for z in p] for e in self.known(key)
            for p in e['patterns']]

  def known_finding(self, entry, still):
    """The recorded defect was checked on the real code: still there or not."""
    if still:
      print('KNOWN-FINDING: property=%s %s' % (self.prop, entry['what']),
            flush=True)
    else:
      print('note: the recorded finding no longer fails: %s' % entry['what'],
            flush=True)

  def finish(self):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    bounds = {}
    for r in self.results:
      bounds[r['name']] = r['bound']
    cov = {
        'states': sum(r['states'] for r in self.results) + self.extra_states,
        'transitions': sum(r['transitions'] for r in self.results) +
                       self.extra_transitions,
        'traces_validated_against_impl': self.traces,
        'samples': self.samples[:12] or ['none'],
        'queries': self.stats.queries,
        'queries_unsat': self.stats.unsat,
        'queries_sat': self.stats.sat,
        'queries_undecided': self.stats.unknown,
        'solver_s': round(self.stats.solver_s, 2),
        'longest_query_s': round(self.stats.max_query_s, 2),
        'cnf_variables': self.stats.vars,
        'cnf_clauses': self.stats.clauses,
        'properties_decided': sum(r['verdict'] == 'unsat'
                                  for r in self.results),
        'bounds': bounds,
        'functions': sorted({f for r in self.results
                             for f in r.get('functions', ())}),
        'undecided_deepenings': [
            '%s at %s' % (r['name'], a['bound']) for r in self.results
            for a in r['attempts'] if a['verdict'] == 'unknown'],
        'errors': self.errors,
    }
    cov.update(self.notes)
    ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed,
          'level': 'model_checking', 'coverage': cov,
          'wall_s': round(time.time() - self.t0, 2),
          'assumptions': self.assumptions,
          'violations': len(self.violations)}
    with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
      json.dump(ev, f, indent=1, ensure_ascii=True, default=str)
    print('%s %s: %d queries, %d violations, %d errors, solver %.1f s, '
          'wall %.1f s' % (self.prop, self.tier, self.stats.queries,
                           len(self.violations), len(self.errors),
                           self.stats.solver_s, time.time() - self.t0),
          flush=True)
    sys.exit(1 if self.violations else 2 if self.errors else 0)


def text(word):
  """Code points (or bytes) as text."""
  return ''.join(chr(a) for a in word)


def show(w):
  out = {}
  for k, v in w.items():
    if isinstance(v, (list, tuple)) and all(isinstance(a, int) for a in v):
      out[k] = ' '.join('%04X' % a for a in v)
    else:
      out[k] = v
  return out
