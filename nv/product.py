"""Several machines over one symbolic word, as one step table with many tapes.

The tapes are named; tape 0 is the word read.  A component reads the word itself
(`sync`) or what another component writes (`chain`).  States are tuples of
component states; the table is explored from the start, and states from which no
accepting state can be reached are dropped.  Nothing is decided here: the table
is what the SAT encoding unrolls.
"""
from nv import fst


class Table:
  """start: [(state, outs, w)]; step: {p: {(q, outs, w): symbols}}; final {q: w}.

  outs: one pattern per tape; None in a pattern stands for the symbol read.
  w: one weight per component, in the order in which they were added.
  """

  def __init__(self, tapes, start, step, final, isyms):
    self.tapes = tapes
    self.start, self.step, self.final = start, step, final
    self.isyms = isyms

  def size(self):
    return len(self.step), sum(len(g) for g in self.step.values())


def single(m, tape='y', alphabet=None):
  al = m.isyms if alphabet is None else (set(alphabet) & m.isyms)
  step = {}
  for p, groups in m.step.items():
    g = {}
    for (q, pat, w), syms in groups.items():
      s = syms & al
      if s:
        g[(q, (pat,), (w,))] = s
    step[p] = g
  return trim(Table([tape], [(q, (o,), (w,)) for q, o, w in m.start], step,
                    {q: (w,) for q, w in m.final.items()}, al))


def acceptor(m, alphabet=None):
  """As single, with no tape (for a constraint on the word)."""
  t = single(m, 'none', alphabet)
  return Table([], [(q, (), w) for q, _, w in t.start],
               {p: _merge((((q, (), w), s) for (q, _, w), s in g.items()))
                for p, g in t.step.items()}, t.final, t.isyms)


def _merge(items):
  out = {}
  for k, s in items:
    if k in out:
      out[k] = out[k] | s
    else:
      out[k] = set(s)
  return out


def _by_symbol(m):
  """{p: {a: [(q, out, w)]}} with the patterns spelt out."""
  idx = {}
  for p, groups in m.step.items():
    d = idx[p] = {}
    for (q, pat, w), syms in groups.items():
      for a in syms:
        d.setdefault(a, []).append(
            (q, tuple(a if b is None else b for b in pat), w))
  return idx


def _feed(idx, q, word, memo):
  """[(state, out, w)] of a component that reads a word of plain symbols."""
  k = (q, word)
  r = memo.get(k)
  if r is not None:
    return r
  cur = {(q, ()): 0}
  for a in word:
    nxt = {}
    for (p, o), w in cur.items():
      for q2, o2, w2 in idx[p].get(a, ()):
        k2 = (q2, o + o2)
        if k2 not in nxt or nxt[k2] > w + w2:
          nxt[k2] = w + w2
    cur = nxt
  r = memo[k] = [(q2, o, w) for (q2, o), w in cur.items()]
  return r


def _abstract(a, outs):
  return tuple(tuple(None if b == a else b for b in o) if a in o else o
               for o in outs)


def chain(t, src, m, tape, keep_src=True, limit=3000000, depth=None):
  """Adds m reading tape `src` of t, writing `tape` (None: an acceptor).

  depth: only the states that words of that many symbols reach are explored.
  """
  i = t.tapes.index(src)
  idx, memo = _by_symbol(m), {}
  tapes = list(t.tapes)
  if not keep_src:
    tapes.pop(i)
  if tape is not None:
    tapes.append(tape)

  def outs_of(outs, o):
    outs = list(outs)
    if not keep_src:
      outs.pop(i)
    if tape is not None:
      outs.append(o)
    return tuple(outs)

  start = []
  for q, outs, w in t.start:
    for q2, o2, w2 in m.start:
      for q3, o3, w3 in _feed(idx, q2, outs[i], memo):
        start.append(((q, q3), outs_of(outs, o2 + o3), w + (w2 + w3,)))
  step, final, level = {}, {}, list(dict.fromkeys(s[0] for s in start))
  seen = set(level)
  n = d = 0
  nxt = []
  while level or nxt:
    if not level:
      level, nxt, d = nxt, [], d + 1
    pq = level.pop()
    p, q = pq
    if d == depth:
      step[pq] = {}
      continue
    items = {}
    for (p2, outs, w), syms in t.step[p].items():
      pat = outs[i]
      if None in pat:
        for a in syms:
          word = tuple(a if b is None else b for b in pat)
          for q2, o, w2 in _feed(idx, q, word, memo):
            k = ((p2, q2), outs_of(outs, tuple(None if b == a else b
                                               for b in o)), w + (w2,))
            items.setdefault(k, set()).add(a)
      else:
        for q2, o, w2 in _feed(idx, q, pat, memo):
          if any(b in syms for b in o):
            for a in syms:
              k = ((p2, q2), outs_of(outs, tuple(None if b == a else b
                                                 for b in o)), w + (w2,))
              items.setdefault(k, set()).add(a)
          else:
            k = ((p2, q2), outs_of(outs, o), w + (w2,))
            items.setdefault(k, set()).update(syms)
    n += len(items)
    if n > limit:
      raise fst.Unsupported('product too large')
    step[pq] = items
    for k in items:
      if k[0] not in seen:
        seen.add(k[0])
        nxt.append(k[0])
  for p, q in seen:
    if p in t.final and q in m.final:
      final[(p, q)] = t.final[p] + (m.final[q],)
  return trim(Table(tapes, start, step, final, t.isyms))


def sync(t, m, tape, limit=3000000, depth=None):
  """Adds m reading the word itself; tape None: m only has to accept."""
  u = Table(t.tapes + ['$x'], [(q, o + ((),), w) for q, o, w in t.start],
            {p: {(q, o + ((None,),), w): s for (q, o, w), s in g.items()}
             for p, g in t.step.items()}, t.final, t.isyms)
  return chain(u, '$x', m, tape, keep_src=False, limit=limit,
               depth=depth)


def trim(t):
  """Drops states that are unreachable or dead, and numbers the rest."""
  back = {}
  for p, g in t.step.items():
    for k in g:
      back.setdefault(k[0], set()).add(p)
  good, todo = set(t.final), list(t.final)
  while todo:
    q = todo.pop()
    for p in back.get(q, ()):
      if p not in good:
        good.add(p)
        todo.append(p)
  seen, todo = set(), []
  for s in t.start:
    if s[0] in good and s[0] not in seen:
      seen.add(s[0])
      todo.append(s[0])
  while todo:
    p = todo.pop()
    for k in t.step[p]:
      if k[0] in good and k[0] not in seen:
        seen.add(k[0])
        todo.append(k[0])
  num = {q: i for i, q in enumerate(sorted(seen, key=repr) if len(seen) < 2000
                                    else seen)}
  step = {}
  for p in seen:
    step[num[p]] = {(num[q], o, w): s for (q, o, w), s in t.step[p].items()
                    if q in num}
  return Table(t.tapes, [(num[q], o, w) for q, o, w in t.start if q in num],
               step, {num[q]: w for q, w in t.final.items() if q in num},
               t.isyms)


def symmetry(t):
  """Classes of interchangeable symbols of the table (as in fst)."""
  class M:
    pass
  ms = []
  m = M()
  m.start = []
  for _, outs, _ in t.start:
    for o in outs:
      m.start.append((0, o, 0))
  m.step = {}
  sig = {a: [] for a in t.isyms}
  fixed = set()
  for _, o, _ in m.start:
    fixed.update(o)
  for p, g in t.step.items():
    for (q, outs, w), syms in g.items():
      for o in outs:
        for b in o:
          if b is not None and syms != {b}:
            fixed.add(b)
      for a in syms:
        sig[a].append((p, q, w, _abstract(a, outs)))
  classes = {}
  for a in t.isyms:
    k = ('fixed', a) if a in fixed else frozenset(sig[a])
    classes.setdefault(k, []).append(a)
  return sorted(sorted(c) for c in classes.values())
