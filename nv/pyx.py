"""Queries that execute the repository's Python code symbolically."""
import sys
import time
import traceback
import types

from nv import sat, sym

if '/repo' not in sys.path:
  sys.path.insert(0, '/repo')


def stand_ins():
  """Modules that only Bazel has."""
  run = types.ModuleType('rules_python.python.runfiles')
  run.runfiles = types.SimpleNamespace(Create=lambda: types.SimpleNamespace(
      Rlocation=str))
  pb = types.ModuleType('nisaba.scripts.utils.unicode_strings_pb2')

  class UnicodeStrings:
    Item = types.SimpleNamespace

  pb.UnicodeStrings = UnicodeStrings
  for m in (run, pb, types.ModuleType('rules_python'),
            types.ModuleType('rules_python.python')):
    sys.modules.setdefault(m.__name__, m)


class Explore:
  """make(n) is a harness at the bound n: a function of a sym.Path."""

  def __init__(self, name, make, bounds, functions):
    self.name, self.make, self.bounds = name, make, list(bounds)
    self.functions = list(functions)

  def explore(self, deadline, hard):
    r = {'name': self.name, 'bound': None, 'verdict': None, 'states': 0,
         'transitions': 0, 'attempts': [], 'clauses': 0}
    st = sat.Stats()
    try:
      for i, n in enumerate(self.bounds):
        left = deadline - time.time()
        if i and left < 5:
          break
        e = sym.Engine(limit=400000, seconds=max(left if i else hard - time.time(), 60))
        t0 = time.time()
        try:
          bad = e.run(self.make(n))
        except sym.Undecided as u:
          r['attempts'].append({'bound': str(n), 'verdict': 'unknown',
                                'why': str(u)})
          if i == 0:
            r['verdict'] = 'unknown'
          break
        finally:
          st.queries += e.queries
          st.solver_s += e.seconds
        r['attempts'].append({'bound': str(n), 'paths': e.paths,
                              'verdict': 'sat' if bad else 'unsat',
                              'solve_s': round(time.time() - t0, 2)})
        r['bound'] = r['twin_bound'] = n
        r['states'] += e.paths
        r['transitions'] += e.queries
        if bad:
          st.sat += 1
          r['verdict'] = 'sat'
          r['witness'] = dict(bad[1], fails=bad[0], bound=n)
          break
        st.unsat += e.checks
        r['verdict'] = 'unsat'
        r['twin'] = 'sat' if e.samples and e.checks else 'unsat'
        r['twin_witness'] = dict(e.samples[-1] if e.samples else {}, bound=n)
        if r['twin'] != 'sat':
          break
    except Exception:
      r['verdict'] = 'error'
      r['error'] = traceback.format_exc()[-1500:]
    r['stats'] = st.dict()
    return r

  def replay(self, w):
    """The same harness, on plain values, against the real code."""
    bad, text = sym.replay(self.make(w['bound']), {
        k: v for k, v in w.items() if k not in ('fails', 'bound')})
    return bad, '%s: %s' % (text, {k: str(v) for k, v in w.items()})

  def confirm(self, w):
    return not self.replay(w)[0]
