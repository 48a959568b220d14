"""Symbolic words and symbolic runs of Mealy machines over them."""
from nv import sat

PAD = 0


class Word:
  """A symbolic word of at most n symbols over an alphabet."""

  def __init__(self, c, alphabet, n):
    self.c, self.n = c, n
    self.alphabet = sorted(alphabet)
    self.x = [{a: c.new() for a in self.alphabet} for _ in range(n)]
    # more[i]: the word has more than i symbols.
    self.more = [c.new() for _ in range(n)]
    for i in range(n):
      c.amo(self.x[i].values())
      c.add(-self.more[i], *self.x[i].values())
      for v in self.x[i].values():
        c.add(-v, self.more[i])
      if i:
        c.add(-self.more[i], self.more[i - 1])

  def longer(self, i):
    """Literal: the length exceeds i. None if impossible."""
    return self.more[i] if i < self.n else None

  def decode(self, model):
    out = []
    for i in range(self.n):
      for a, v in self.x[i].items():
        if v in model:
          out.append(a)
    return tuple(out)

  def break_symmetry(self, classes):
    """Interchangeable symbols occur in their order for the first time."""
    c = self.c
    for cl in classes:
      cl = [a for a in cl if a in self.x[0]]
      if len(cl) < 2:
        continue
      for a, b in zip(cl, cl[1:]):
        seen = None   # a occurred before position i
        for i in range(self.n):
          if seen is None:
            c.add(-self.x[i][b])
          else:
            c.add(-self.x[i][b], seen)
          s = c.new()
          c.add(-s, self.x[i][a], *([seen] if seen else []))
          seen = s

  def fix_min_len(self, n):
    if n:
      self.c.add(self.more[n - 1])


def end_at(c, w, i, cond):
  """cond => the length of w is exactly i (cond: list of negated guards)."""
  if i > w.n:
    c.add(*cond)
    return
  if i > 0:
    c.add(*cond, w.more[i - 1])
  if i < w.n:
    c.add(*cond, -w.more[i])


class Output:
  """Where a run writes: a symbolic word, at a moving offset."""

  def __init__(self, c, word):
    self.c, self.w = c, word
    self.off = None

  def begin(self, outs):
    """outs: {literal: string}: exactly one literal holds."""
    c, w = self.c, self.w
    self.off = {}
    for lit, s in outs.items():
      if len(s) > w.n:
        c.add(-lit)
        continue
      o = self.off.get(len(s))
      if o is None:
        o = self.off[len(s)] = c.new()
      c.add(-lit, o)
      for k, b in enumerate(s):
        if b in w.x[k]:
          c.add(-lit, w.x[k][b])
        else:
          c.add(-lit)
    c.one(self.off.values())

  def step(self, slots, length):
    """slots[k][b]: literal, the k-th emitted symbol is b; length[l]: literal."""
    c, w = self.c, self.w
    new = {}
    for o in self.off:
      for l in length:
        if o + l <= w.n and o + l not in new:
          new[o + l] = c.new()
    for o, ov in self.off.items():
      for l, lv in length.items():
        if o + l <= w.n:
          c.add(-ov, -lv, new[o + l])
        else:
          c.add(-ov, -lv)
      for k, sl in enumerate(slots):
        if o + k >= w.n:
          continue
        x = w.x[o + k]
        for b, bv in sl.items():
          if b in x:
            c.add(-ov, -bv, x[b])
          else:
            c.add(-ov, -bv)
    c.amo(new.values())
    # Backward support, redundant but it helps.
    for o2, v in new.items():
      c.add(-v, *[ov for o, ov in self.off.items() if o2 - o in length])
    self.off = new

  def finish(self):
    for o, v in self.off.items():
      end_at(self.c, self.w, o, [-v])


def reach(m, n, alphabets):
  """States that can be reached after i symbols, i = 0..n, pruned from the end."""
  fwd = [set(q for q, _, _ in m.start)]
  for i in range(n):
    nxt = set()
    for p in fwd[-1]:
      for (q, _, _), syms in m.step[p].items():
        if not syms.isdisjoint(alphabets[i]):
          nxt.add(q)
    fwd.append(nxt)
  # A word may stop early: state frozen; so backward pruning is by co-reach in
  # at most n - i further steps.
  ok = [None] * (n + 1)
  ok[n] = fwd[n] & set(m.final)
  for i in range(n - 1, -1, -1):
    good = set()
    for p in fwd[i]:
      if p in m.final:
        good.add(p)
        continue
      for (q, _, _), syms in m.step[p].items():
        if q in ok[i + 1] and not syms.isdisjoint(alphabets[i]):
          good.add(p)
          break
    ok[i] = good
  return ok


class Run:
  """A symbolic accepting run of a step table (nv.product) on the word x.

  words: {tape: Word}: where the tapes are written.
  cost: the weight of the run is available by total().
  """

  def __init__(self, c, t, x, words):
    self.c, self.t, self.x = c, t, x
    n = x.n
    live = reach(t, n, [set(x.alphabet)] * n)
    outs = [(i, Output(c, words[name])) for i, name in enumerate(t.tapes)
            if name in words]
    S = {q: c.new() for q in live[0]}
    by_state, begin, ws = {}, {}, {}
    for q, o, w in t.start:
      if q not in S:
        continue
      lit = c.new()
      c.add(-lit, S[q])
      by_state.setdefault(q, []).append(lit)
      begin[lit] = o
      ws.setdefault(w, []).append(lit)
    self.begin, self.edges = begin, []
    self.cost_terms = []
    c.one(begin.keys())
    for q, v in S.items():
      c.add(-v, *by_state.get(q, []))
    for i, out in outs:
      out.begin({l: o[i] for l, o in begin.items()})
    self._cost(ws)
    self.states = [S]
    for i in range(n):
      S = self._step(i, S, live[i + 1], outs)
      self.states.append(S)
    ws = {}
    for q, v in S.items():
      if q in t.final:
        ws.setdefault(t.final[q], []).append(v)
      else:
        c.add(-v)
    self._cost(ws)
    for _, out in outs:
      out.finish()

  def _step(self, i, S, live, outs):
    c, t, x = self.c, self.t, self.x
    N = {q: c.new() for q in live}
    more = x.more[i]
    dst, edges, ws, taken = {}, [], {}, []
    tapes = [({}, {}) for _ in outs]   # (slots {(k, b): lit}, length {l: lit})
    symset = {}
    for p, pv in S.items():
      for (q, pats, w), syms in t.step[p].items():
        if q not in N:
          continue
        sy = [a for a in syms if a in x.x[i]]
        if not sy:
          continue
        e = c.new()
        edges.append(e)
        taken.append((e, pats, sy))
        c.add(-e, pv)
        c.add(-e, N[q])
        if len(sy) > 6:
          k = frozenset(sy)
          g = symset.get(k)
          if g is None:
            g = symset[k] = c.new()
            c.add(-g, *[x.x[i][a] for a in sy])
          c.add(-e, g)
        else:
          c.add(-e, *[x.x[i][a] for a in sy])
        dst.setdefault(q, []).append(e)
        ws.setdefault(w, []).append(e)
        for (ti, _), (slots, length) in zip(outs, tapes):
          pat = pats[ti]
          lv = length.get(len(pat))
          if lv is None:
            lv = length[len(pat)] = c.new()
          c.add(-e, lv)
          for k, b in enumerate(pat):
            v = slots.get((k, b))
            if v is None:
              v = slots[k, b] = c.new()
            c.add(-e, v)
    c.amo(edges)
    self.edges.append(taken)
    for e in edges:
      c.add(-e, more)
    c.add(-more, *edges)
    for p, pv in S.items():
      if p in t.final:
        if p not in N:
          N[p] = c.new()
        c.add(more, -pv, N[p])
      else:
        c.add(more, -pv)
    for q, qv in N.items():
      l = dst.get(q, [])
      if q in t.final and q in S:
        c.add(-qv, -more, *l)
        c.add(-qv, more, S[q])
      else:
        c.add(-qv, *l)
    c.amo(N.values())
    c.add(*N.values())
    for (_, out), (slots, length) in zip(outs, tapes):
      # (k, None): the k-th symbol written is the symbol read.
      flat = {}
      for (k, b), v in slots.items():
        if b is not None:
          flat.setdefault(k, {}).setdefault(b, []).append((v,))
      for (k, b), v in slots.items():
        if b is None:
          for a in x.x[i]:
            flat.setdefault(k, {}).setdefault(a, []).append((v, x.x[i][a]))
      sl = []
      for k in range(max(flat, default=-1) + 1):
        d = {}
        for b, conds in flat.get(k, {}).items():
          d[b] = c.new()
          for cond in conds:
            c.add(*[-z for z in cond], d[b])
        c.amo(d.values())
        sl.append(d)
      lv = length.get(0)
      if lv is None:
        lv = length[0] = c.new()
      c.add(more, lv)
      c.amo(length.values())
      out.step(sl, length)
    self._cost(ws)
    return N

  def _cost(self, ws):
    self.cost_terms.append(ws)

  def total(self, comp, cap):
    """Thermometer t: the weight of the run in the component being at least k
    implies t[k-1]; runs that weigh more than the cap are excluded."""
    c = self.c
    t = []
    for ws in self.cost_terms:
      by = {}
      for w, lits in ws.items():
        if w[comp]:
          by.setdefault(w[comp], []).extend(lits)
      if not by:
        continue
      d = {}
      for w, lits in by.items():
        v = d[w] = c.new()
        for l in lits:
          c.add(-l, v)
      mx = min(cap, len(t) + max(d))
      nt = [c.new() for _ in range(mx)]
      for k in range(len(t)):
        if k < mx:
          c.add(-t[k], nt[k])
      for w, v in d.items():
        for k in range(len(t) + 1):
          tgt = k + w
          guard = [-v] + ([-t[k - 1]] if k else [])
          if tgt <= mx:
            c.add(*guard, nt[tgt - 1])
          else:
            c.add(*guard)    # heavier than the cap: excluded
      t = nt
    return t


class Potential:
  """Lower bounds on the weight of every run of m on x.

  D[i][q] (thermometer, capped) never exceeds the least weight of a run from the
  start to q over the first i symbols; so a run whose weight is at most the
  least of D[n][q] + final(q) is a best one.
  """

  def __init__(self, c, m, x, cap):
    self.c, self.m, self.x, self.cap = c, m, x, cap
    n = x.n
    al = [set(x.alphabet)] * n
    live = reach(m, n, al)
    # States that occur by freezing as well.
    for i in range(n):
      live[i + 1] = live[i + 1] | (live[i] & set(m.final))
    D = [{q: [c.new() for _ in range(cap)] for q in live[i]}
         for i in range(n + 1)]
    for row in D:
      for th in row.values():
        for k in range(1, cap):
          c.add(-th[k], th[k - 1])
    for q, _, w in m.start:
      if q in D[0]:
        for k in range(w, cap):
          c.add(-D[0][q][k])
    for i in range(n):
      for p in D[i]:
        best = {}
        for (q, _, w), syms in m.step[p].items():
          if q in D[i + 1]:
            for a in syms:
              if a in x.x[i]:
                best[(q, a)] = min(w, best.get((q, a), w))
        by = {}
        for (q, a), w in best.items():
          by.setdefault((q, w), []).append(a)
        for (q, w), sy in by.items():
          if len(sy) > 2:
            g = c.new()
            for a in sy:
              c.add(-x.x[i][a], g)
            gs = [g]
          else:
            gs = [x.x[i][a] for a in sy]
          for g in gs:
            self._le(D[i + 1][q], D[i][p], w, [-g])
        if p in m.final:
          self._le(D[i + 1][p], D[i][p], 0, [x.more[i]])
    self.D = D
    # best[k-1]: some lower bound says >= k:  needs all final states >= k - f.
    self.best = [c.new() for _ in range(cap)]
    for q, th in D[n].items():
      if q in m.final:
        f = m.final[q]
        for k in range(1, cap + 1):
          need = k - f
          if need >= 1:
            c.add(-self.best[k - 1], th[need - 1])

  def _le(self, a, b, w, cond):
    """cond or a <= b + w."""
    c, cap = self.c, self.cap
    for k in range(1, cap + 1):
      # a >= k => b >= k - w
      if k - w >= 1:
        c.add(*cond, -a[k - 1], b[k - w - 1])

  def at_most(self, run, comp):
    """The run's weight is at most the lower bound (so it is a best run)."""
    t = run.total(comp, self.cap)
    for k, v in enumerate(t):
      self.c.add(-v, self.best[k])


class Lag:
  """What one tape of a run has written and the other has not yet, step by step.

  The lag is (0 or 1, word): the tape that is ahead, and by what.  Once the tapes
  disagree it is BAD, and remains so.
  """
  BAD = 'BAD'

  def __init__(self, run, tapes, limit=60000):
    self.c, self.run, self.tapes = run.c, run, tapes
    c = self.c
    lags = self._lags(limit)
    by = {}
    for lit, outs in run.begin.items():
      by.setdefault(self._after((0, ()), *self._pair(outs)), []).append(lit)
    D = {}
    for d, lits in by.items():
      D[d] = c.new()
      for l in lits:
        c.add(-l, D[d])
    c.one(D.values())
    for i, taken in enumerate(run.edges):
      more = run.x.more[i]
      pairs = {}
      for e, outs, syms in taken:
        pairs.setdefault(self._pair(outs), []).append((e, syms))
      P = {}
      for k, es in pairs.items():
        v = c.new()
        for e, _ in es:
          c.add(-e, v)
        c.add(-v, *[e for e, _ in es])
        if None not in k[0] and None not in k[1]:
          P.setdefault(k, []).append((v,))
          continue
        for a in sorted({a for _, sy in es for a in sy}):
          P.setdefault(tuple(tuple(a if b is None else b for b in o)
                             for o in k), []).append((v, run.x.x[i][a]))
      N = {self.BAD: c.new()}
      for d, dv in D.items():
        if d == self.BAD:
          c.add(-dv, N[d])
          continue
        if d not in N:
          N[d] = c.new()
        c.add(-dv, more, N[d])
        for (y, z), conds in P.items():
          t = self._after(d, y, z)
          if t not in lags:
            t = self.BAD
          if t not in N:
            N[t] = c.new()
          for cond in conds:
            c.add(-dv, *[-l for l in cond], N[t])
      c.one(N.values())
      D = N
    self.last = D

  def _pair(self, outs):
    return outs[self.tapes[0]], outs[self.tapes[1]]

  @staticmethod
  def _after(d, y, z):
    w = [tuple(y), tuple(z)]
    w[d[0]] = d[1] + w[d[0]]
    n = min(len(w[0]), len(w[1]))
    if w[0][:n] != w[1][:n]:
      return Lag.BAD
    s = 0 if len(w[0]) > n else 1
    return (s, w[s][n:]) if len(w[s]) > n else (0, ())

  def _lags(self, limit):
    """The lags that some run has (those of other runs would be BAD too, which a
    replay would show)."""
    t, al = self.run.t, set(self.run.x.alphabet)
    now = {(q, self._after((0, ()), *self._pair(o))) for q, o, _ in t.start}
    seen = set(now)
    for _ in range(self.run.x.n):
      nxt = set()
      for q, d in now:
        if d == self.BAD:
          continue
        for (r, outs, _), syms in t.step[q].items():
          y, z = self._pair(outs)
          if None in y or None in z:
            ds = {self._after(d, *(tuple(a if b is None else b for b in o)
                                   for o in (y, z))) for a in syms & al}
          else:
            ds = {self._after(d, y, z)}
          nxt.update((r, d2) for d2 in ds)
      now = nxt - seen
      seen |= now
      if len(seen) > limit:
        raise OverflowError
    return {d for _, d in seen}

  def violation(self):
    return tuple(v for d, v in self.last.items() if d != (0, ()))


def tape(run, i, model):
  """The word that the run of a model writes on a tape."""
  out = []
  for lit, outs in run.begin.items():
    if lit in model:
      out += outs[i]
  for k, taken in enumerate(run.edges):
    for e, outs, syms in taken:
      if e in model:
        a = [x for x, v in run.x.x[k].items() if v in model]
        out += [a[0] if b is None else b for b in outs[i]]
  return out


def differ(c, y, z):
  """Literals' disjunction is asserted: y and z differ."""
  ds = []
  n = max(y.n, z.n)
  for i in range(n):
    a, b = y.longer(i), z.longer(i)
    if a and b:
      d = c.new()
      c.add(-d, a, b)
      c.add(-d, -a, -b)
      ds.append(d)
      d = c.new()
      c.add(-d, a)
      c.add(-d, b)
      for s, v in y.x[i].items():
        if s in z.x[i]:
          c.add(-d, -v, -z.x[i][s])
      ds.append(d)
    else:
      ds.append(a or b)
  c.add(*ds)


def same(c, y, z):
  """y and z are equal."""
  n = max(y.n, z.n)
  for i in range(n):
    a, b = y.longer(i), z.longer(i)
    if not (a and b):
      c.add(-(a or b))
      continue
    c.add(-a, b)
    c.add(a, -b)
    for s in set(y.x[i]) | set(z.x[i]):
      u, v = y.x[i].get(s), z.x[i].get(s)
      if u and v:
        c.add(-u, v)
        c.add(u, -v)
      else:
        c.add(-(u or v))


def reach_split(m, x):
  """Stop states and mid states that can occur, per position."""
  n = x.n
  fwd, mid = [set(q for q, _, _ in m.start)], []
  for i in range(n):
    al = set(x.x[i])
    ms = set()
    for p in fwd[-1]:
      for (k, _, _), syms in m.read[p].items():
        if not syms.isdisjoint(al):
          ms.add(k)
    mid.append(ms)
    # Final states stay where they are at the end of a short word.
    fwd.append({q for k in ms for q, _, _ in m.close[k]} |
               (fwd[-1] & set(m.final)))
  return fwd, mid


class SplitRun:
  """A symbolic accepting run of a fst.Split on word x, writing word y."""

  def __init__(self, c, m, x, y=None):
    self.c, self.m, self.x = c, m, x
    n = x.n
    fwd, mids = reach_split(m, x)
    out = Output(c, y) if y is not None else None
    self.cost_terms = []
    S = {q: c.new() for q in fwd[0]}
    begin, by, ws = {}, {}, {}
    for q, o, w in m.start:
      l = c.new()
      c.add(-l, S[q])
      begin[l] = o
      by.setdefault(q, []).append(l)
      ws.setdefault((w,), []).append(l)
    c.one(begin)
    for q, v in S.items():
      c.add(-v, *by.get(q, []))
    if out:
      out.begin(begin)
    self.cost_terms.append(ws)
    self.states = [S]
    for i in range(n):
      more = x.more[i]
      M = {k: c.new() for k in mids[i]}
      N = {q: c.new() for q in fwd[i + 1]}
      edges, dst, ws = [], {}, {}
      slots, length = [{}], {0: c.new(), 1: c.new()}
      for p, pv in S.items():
        for (k, pat, w), syms in m.read[p].items():
          sy = [a for a in syms if a in x.x[i]]
          if not sy or k not in M:
            continue
          e = c.new()
          edges.append(e)
          c.add(-e, pv)
          c.add(-e, M[k])
          c.add(-e, *[x.x[i][a] for a in sy])
          dst.setdefault(k, []).append(e)
          ws.setdefault((w,), []).append(e)
          c.add(-e, length[len(pat)])
          for b in pat:
            for a in (sy if b is None else [b]):
              v = slots[0].get(a)
              if v is None:
                v = slots[0][a] = c.new()
              if b is None:
                c.add(-e, -x.x[i][a], v)
              else:
                c.add(-e, v)
      c.amo(edges)
      for e in edges:
        c.add(-e, more)
      c.add(-more, *edges)
      for k, v in M.items():
        c.add(-v, *dst.get(k, []))
      c.amo(M.values())
      c.add(more, length[0])
      c.amo(length.values())
      c.amo(slots[0].values())
      if out:
        out.step(slots, length)
      self.cost_terms.append(ws)
      edges, dst, ws = [], {}, {}
      slots, length = [{} for _ in range(m.out2)], {0: c.new()}
      for k, kv in M.items():
        own = []
        for q, o, w in m.close[k]:
          e = c.new()
          own.append(e)
          c.add(-e, kv)
          c.add(-e, N[q])
          dst.setdefault(q, []).append(e)
          ws.setdefault((w,), []).append(e)
          if len(o) not in length:
            length[len(o)] = c.new()
          c.add(-e, length[len(o)])
          for j, b in enumerate(o):
            if b not in slots[j]:
              slots[j][b] = c.new()
            c.add(-e, slots[j][b])
        c.add(-kv, *own)
        edges += own
      c.amo(edges)
      c.add(more, length[0])
      c.amo(length.values())
      for sl in slots:
        c.amo(sl.values())
      for e in edges:
        c.add(-e, more)
      for p, pv in S.items():
        if p in m.final:
          c.add(more, -pv, N[p])
        else:
          c.add(more, -pv)
      for q, qv in N.items():
        l = dst.get(q, [])
        if q in m.final and q in S:
          c.add(-qv, -more, *l)
          c.add(-qv, more, S[q])
        else:
          c.add(-qv, *l)
      c.amo(N.values())
      c.add(*N.values())
      if out:
        out.step(slots, length)
      self.cost_terms.append(ws)
      S = N
      self.states.append(S)
    ws = {}
    for q, v in S.items():
      if q in m.final:
        ws.setdefault((m.final[q],), []).append(v)
      else:
        c.add(-v)
    self.cost_terms.append(ws)
    if out:
      out.finish()

  total = Run.total


class SplitPotential:
  """As Potential, for a fst.Split."""

  at_most = Potential.at_most
  _le = Potential._le

  def __init__(self, c, m, x, cap):
    self.c, self.m, self.x, self.cap = c, m, x, cap
    n = x.n
    fwd, mids = reach_split(m, x)

    def level(states):
      d = {}
      for q in states:
        th = d[q] = [c.new() for _ in range(cap)]
        for k in range(1, cap):
          c.add(-th[k], th[k - 1])
      return d
    D = level(fwd[0])
    for q, _, w in m.start:
      for k in range(w, cap):
        c.add(-D[q][k])
    for i in range(n):
      E, N = level(mids[i]), level(fwd[i + 1])
      for p in D:
        best = {}
        for (k, _, w), syms in m.read[p].items():
          for a in syms:
            if a in x.x[i]:
              best[(k, a)] = min(w, best.get((k, a), w))
        by = {}
        for (k, a), w in best.items():
          by.setdefault((k, w), []).append(a)
        for (k, w), sy in by.items():
          if len(sy) > 2:
            g = c.new()
            for a in sy:
              c.add(-x.x[i][a], g)
            gs = [g]
          else:
            gs = [x.x[i][a] for a in sy]
          for g in gs:
            self._le(E[k], D[p], w, [-g])
        if p in m.final:
          self._le(N[p], D[p], 0, [x.more[i]])
      for k in E:
        best = {}
        for q, _, w in m.close[k]:
          best[q] = min(w, best.get(q, w))
        for q, w in best.items():
          self._le(N[q], E[k], w, [-x.more[i]])
      D = N
    self.best = [c.new() for _ in range(cap)]
    for q, th in D.items():
      if q in m.final:
        for k in range(1, cap + 1):
          if k - m.final[q] >= 1:
            c.add(-self.best[k - 1], th[k - m.final[q] - 1])
