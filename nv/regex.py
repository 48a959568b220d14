"""Regular expressions over symbols, for reference acceptors."""
from nv import machines


class Re:
  """Thompson automaton: start, end, arcs {state: [(symbol or None, state)]}."""
  count = 0

  def __init__(self):
    self.arcs = {}
    self.start, self.end = self._new(), self._new()

  @classmethod
  def _new(cls):
    Re.count += 1
    return Re.count

  def _arc(self, p, a, q):
    self.arcs.setdefault(p, []).append((a, q))

  def _take(self, o):
    for p, l in o.arcs.items():
      self.arcs.setdefault(p, []).extend(l)

  def copy(self):
    r = Re()
    m = {self.start: r.start, self.end: r.end}
    for p, l in self.arcs.items():
      for a, q in l:
        for z in (p, q):
          if z not in m:
            m[z] = self._new()
        r._arc(m[p], a, m[q])
    return r


def words(ws):
  r = Re()
  for w in ws:
    p = r.start
    for a in w:
      q = r._new()
      r._arc(p, a, q)
      p = q
    r._arc(p, None, r.end)
  return r


def cat(*rs):
  r = Re()
  p = r.start
  for o in rs:
    o = o.copy()
    r._take(o)
    r._arc(p, None, o.start)
    p = o.end
  r._arc(p, None, r.end)
  return r


def alt(*rs):
  r = Re()
  for o in rs:
    o = o.copy()
    r._take(o)
    r._arc(r.start, None, o.start)
    r._arc(o.end, None, r.end)
  return r


def star(o):
  r, o = Re(), o.copy()
  r._take(o)
  r._arc(r.start, None, r.end)
  r._arc(r.start, None, o.start)
  r._arc(o.end, None, o.start)
  r._arc(o.end, None, r.end)
  return r


def ques(o):
  return alt(words([()]), o)


def rejects(re, alphabet, name='not in the reference language'):
  """Automaton whose bad words are not in the language."""
  def close(states):
    todo, seen = list(states), set(states)
    while todo:
      for a, q in re.arcs.get(todo.pop(), ()):
        if a is None and q not in seen:
          seen.add(q)
          todo.append(q)
    return seen
  idx = {}
  memo = {}

  def core(states):
    """Only states that matter: with a symbol arc, or the end."""
    return frozenset(q for q in states if q == re.end or any(
        a is not None for a, _ in re.arcs.get(q, ())))

  def step(s, a):
    key = (s, a)
    if key not in memo:
      out = set()
      for p in s:
        if p not in idx:
          d = idx[p] = {}
          for b, q in re.arcs.get(p, ()):
            if b is not None:
              d.setdefault(b, []).append(q)
        out.update(idx[p].get(a, ()))
      memo[key] = core(close(out))
    return memo[key]
  return machines.automaton(name, core(close([re.start])), step,
                            lambda s: re.end not in s, alphabet)
