"""Transducer tables read from FARs, and their one-symbol-per-step form.

A `Mealy` machine is the compiled grammar with its input-epsilon chains folded
into steps: every step consumes exactly one input symbol and emits a string.
"""
import pynini

INF = float('inf')


class Unsupported(Exception):
  """The machine is outside what the encoding supports."""


class Table:
  """The arcs of one compiled grammar."""

  def __init__(self, fst, name=''):
    self.name = name
    self.start = fst.start()
    self.arcs = {}
    self.final = {}
    for s in fst.states():
      self.arcs[s] = [(a.ilabel, a.olabel, a.nextstate, float(a.weight))
                      for a in fst.arcs(s)]
      w = float(fst.final(s))
      if w != INF:
        self.final[s] = w
    self.num_arcs = sum(map(len, self.arcs.values()))


def _weight(w):
  if w != int(w) or w < 0:
    raise Unsupported('weight %r' % w)
  return int(w)


def _closure(t, state, limit=4000):
  """[(state, output, weight)] reachable from state by input-epsilon arcs."""
  out, todo, seen = [], [(state, (), 0)], set()
  while todo:
    q, o, w = todo.pop()
    if (q, o, w) in seen:
      continue
    seen.add((q, o, w))
    if len(seen) > limit or len(o) > 64:
      raise Unsupported('%s: input-epsilon cycle or too many epsilon paths' %
                        t.name)
    stop = q in t.final
    for i, ol, q2, wa in t.arcs[q]:
      if i:
        stop = True
      else:
        todo.append((q2, o + ((ol,) if ol else ()), w + _weight(wa)))
    if stop:
      out.append((q, o, w))
  return out


class Mealy:
  """start: [(state, out, w)]; step: {p: {(q, outpattern, w): {symbols}}}; final.

  An outpattern is a tuple of symbols, where None stands for the symbol read.
  """

  def __init__(self, table):
    self.name = table.name
    memo = {}

    def clo(q):
      if q not in memo:
        memo[q] = _closure(table, q)
      return memo[q]

    self.start = clo(table.start)
    self.final = {q: _weight(w) for q, w in table.final.items()}
    self.step = {}
    self.isyms, self.osyms = set(), set()
    self.max_out = 0
    todo = [q for q, _, _ in self.start]
    seen = set(todo)
    self.n_steps = 0
    while todo:
      p = todo.pop()
      best = {}
      for i, ol, q1, wa in table.arcs[p]:
        if not i:
          continue
        self.isyms.add(i)
        for q, o, w in clo(q1):
          out = ((ol,) if ol else ()) + o
          k = (q, i, out)
          w += _weight(wa)
          if k not in best or best[k] > w:
            best[k] = w
          if q not in seen:
            seen.add(q)
            todo.append(q)
      groups = {}
      for (q, i, out), w in best.items():
        self.osyms.update(out)
        self.max_out = max(self.max_out, len(out))
        pat = (None,) if out == (i,) else out
        groups.setdefault((q, pat, w), set()).add(i)
      self.step[p] = groups
      self.n_steps += len(best)
    self.n_states = len(seen)
    for _, o, _ in self.start:
      self.osyms.update(o)
      self.max_out = max(self.max_out, len(o))
    self.weighted = (any(self.final.values()) or
                     any(w for g in self.step.values() for _, _, w in g) or
                     any(w for _, _, w in self.start))

  def run(self, word, cap=200000):
    """All (output, weight) of the word, by direct simulation."""
    cur = {(q, o): w for q, o, w in self.start}
    for a in word:
      nxt = {}
      for (p, o), w in cur.items():
        for (q, pat, wa), syms in self.step[p].items():
          if a in syms:
            k = (q, o + tuple(a if x is None else x for x in pat))
            if nxt.get(k, INF) > w + wa:
              nxt[k] = w + wa
      cur = nxt
      if len(cur) > cap:
        raise Unsupported('too many paths')
    res = {}
    for (q, o), w in cur.items():
      if q in self.final:
        v = w + self.final[q]
        if res.get(o, INF) > v:
          res[o] = v
    return res


def load_far(path):
  """{key: Table}"""
  out = {}
  far = pynini.Far(path, 'r')
  while not far.done():
    out[far.get_key()] = Table(far.get_fst(), far.get_key())
    far.next()
  return out


def symmetry_classes(machines, symbols):
  """Partition of the symbols into classes of interchangeable ones.

  Two symbols are put together only if exchanging them leaves the step tables of
  every machine exactly as they are, so that a word has the property under test
  if and only if the word with the two exchanged has it.
  """
  fixed = set()   # occurs as an output of another symbol, or at start
  sig = {a: [] for a in symbols}
  for mi, m in enumerate(machines):
    for _, o, _ in m.start:
      fixed.update(o)
    for p, groups in m.step.items():
      for (q, pat, w), syms in groups.items():
        for b in pat:
          if b is not None:
            if syms != {b}:
              fixed.add(b)
        for a in syms:
          if a in sig:
            sig[a].append((mi, p, q, w,
                           tuple(None if b == a else b for b in pat)))
  classes = {}
  for a in symbols:
    k = ('fixed', a) if a in fixed else frozenset(sig[a])
    classes.setdefault(k, []).append(a)
  return sorted(sorted(c) for c in classes.values())


def complement(m, alphabet):
  """Acceptor of the words over the alphabet that the acceptor m rejects.

  m is determinised by subsets.
  """
  alphabet = set(alphabet)
  r = Mealy.__new__(Mealy)
  r.name, r.weighted, r.max_out = 'not ' + m.name, False, 1
  s0 = frozenset(q for q, _, _ in m.start)
  r.start = [(s0, (), 0)]
  r.step, r.final = {}, {}
  todo, seen = [s0], {s0}
  while todo:
    s = todo.pop()
    if not any(q in m.final for q in s):
      r.final[s] = 0
    to = {a: set() for a in alphabet}
    for p in s:
      for (q, _, _), syms in m.step[p].items():
        for a in syms:
          if a in to:
            to[a].add(q)
    groups = {}
    for a, t in to.items():
      groups.setdefault((frozenset(t), (None,), 0), set()).add(a)
    r.step[s] = groups
    for t, _, _ in groups:
      if t not in seen:
        seen.add(t)
        todo.append(t)
  r.isyms = r.osyms = alphabet
  r.n_states = len(seen)
  r.n_steps = len(seen) * len(alphabet)
  return r


def best(m, limit=300000):
  """The machine whose runs are the least-weight runs of m, with no weights.

  Its states pair a state of m with the vector of the least weights (relative to
  the least of them) of all the states that m can be in after the same input.
  """
  # States of m that can still accept.
  back = {}
  for p, g in m.step.items():
    for q, _, _ in g:
      back.setdefault(q, set()).add(p)
  live, todo = set(m.final), list(m.final)
  while todo:
    for p in back.get(todo.pop(), ()):
      if p not in live:
        live.add(p)
        todo.append(p)
  idx = {}
  for p in live:
    d = idx[p] = {}
    for (q, pat, w), syms in m.step[p].items():
      if q in live:
        for a in syms:
          d.setdefault(a, []).append((q, pat, w))
  r = Mealy.__new__(Mealy)
  r.name, r.weighted = 'best ' + m.name, False
  r.isyms, r.osyms, r.max_out = m.isyms, m.osyms, m.max_out
  r.step, r.final, r.start = {}, {}, []
  v0 = {}
  for q, _, w in m.start:
    if q in live:
      v0[q] = min(w, v0.get(q, INF))
  low = min(v0.values())
  V0 = frozenset((q, w - low) for q, w in v0.items())
  for q, o, w in m.start:
    if q in live and w == v0[q]:
      r.start.append(((V0, q), o, 0))
  todo, seen = [V0], {V0}
  n = 0
  while todo:
    V = todo.pop()
    vd = dict(V)
    fin = [vd[q] + m.final[q] for q in vd if q in m.final]
    for q in vd:
      if q in m.final and vd[q] + m.final[q] == min(fin):
        r.final[(V, q)] = 0
    by = {}
    for p, e in vd.items():
      for a, l in idx[p].items():
        by.setdefault(a, []).append((p, e, l))
    groups = {p: {} for p in vd}
    for a, ps in by.items():
      nv = {}
      for p, e, l in ps:
        for q, _, w in l:
          if e + w < nv.get(q, INF):
            nv[q] = e + w
      low = min(nv.values())
      V2 = frozenset((q, w - low) for q, w in nv.items())
      for p, e, l in ps:
        for q, pat, w in l:
          if e + w == nv[q]:
            groups[p].setdefault(((V2, q), pat, 0), set()).add(a)
            n += 1
      if V2 not in seen:
        seen.add(V2)
        todo.append(V2)
    if n > limit:
      raise Unsupported('%s: too many weight vectors' % m.name)
    for p in vd:
      r.step[(V, p)] = groups[p]
  # Number the states.
  num = {}
  for k in r.step:
    num[k] = len(num)
  r.step = {num[k]: {(num[q], o, w): s for (q, o, w), s in g.items()}
            for k, g in r.step.items()}
  r.start = [(num[q], o, w) for q, o, w in r.start]
  r.final = {num[k]: 0 for k in r.final}
  r.n_states, r.n_steps = len(r.step), n
  return r


class Split:
  """As Mealy, with a step kept in two halves: the symbol is read, then a chain
  of input-epsilon arcs is taken.  Far smaller than Mealy where many chains meet.

  read: {p: {(m, outpattern, w): {symbols}}}; close: {m: [(q, out, w)]}.
  """

  def __init__(self, table):
    self.name = table.name
    back = {}
    for p, l in table.arcs.items():
      for _, _, q, _ in l:
        back.setdefault(q, set()).add(p)
    live, todo = set(table.final), list(table.final)
    while todo:
      for p in back.get(todo.pop(), ()):
        if p not in live:
          live.add(p)
          todo.append(p)

    def clo(q):
      best = {}
      for r, o, w in _closure(table, q):
        if r in live and w < best.get((r, o), INF):
          best[(r, o)] = w
      return [(r, o, w) for (r, o), w in best.items()]

    self.start = clo(table.start)
    self.final = {q: _weight(w) for q, w in table.final.items()}
    self.read, self.close = {}, {}
    self.isyms, self.osyms = set(), set()
    self.out1, self.out2 = 0, 0
    todo = [q for q, _, _ in self.start]
    seen = set(todo)
    while todo:
      p = todo.pop()
      groups = self.read[p] = {}
      for i, ol, m, w in table.arcs[p]:
        if not i or m not in live:
          continue
        self.isyms.add(i)
        if ol:
          self.osyms.add(ol)
        pat = (None,) if ol == i else ((ol,) if ol else ())
        groups.setdefault((m, pat, _weight(w)), set()).add(i)
        if m not in self.close:
          self.close[m] = clo(m)
          for q, o, _ in self.close[m]:
            self.osyms.update(o)
            self.out2 = max(self.out2, len(o))
            if q not in seen:
              seen.add(q)
              todo.append(q)
    for _, o, _ in self.start:
      self.osyms.update(o)
    self.n_states = len(self.read)
    self.n_steps = (sum(map(len, self.read.values())) +
                    sum(map(len, self.close.values())))
