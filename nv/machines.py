"""Compiled grammars as objects, and the problems that are built from them."""
import functools

import pynini

from nv import enc, fst, harness, product, sat

REAL_LIMIT = 400


class Grammar:
  """One rule of a FAR."""

  def __init__(self, f, name):
    self.fst = self.small = f
    self.name = name
    self.table = fst.Table(f, name)
    self._mealy = self._split = None

  @property
  def mealy(self):
    if self._mealy is None:
      self._mealy = fst.Mealy(self.table)
    return self._mealy

  @property
  def split(self):
    if self._split is None:
      self._split = fst.Split(self.table)
    return self._split

  @functools.cached_property
  def domain(self):
    """The acceptor of the inputs (projected and minimised by OpenFst)."""
    f = pynini.project(self.small, 'input').rmepsilon()
    f = pynini.arcmap(f, map_type='rmweight')
    f = pynini.determinize(f).minimize()
    return fst.Mealy(fst.Table(f, 'domain of ' + self.name))

  def outputs(self, word, limit=REAL_LIMIT):
    """{output: weight}, the lightest first, by OpenFst's own composition."""
    a = pynini.Fst()
    s = a.add_state()
    a.set_start(s)
    for x in word:
      t = a.add_state()
      a.add_arc(s, pynini.Arc(x, x, pynini.Weight.one('tropical'), t))
      s = t
    a.set_final(s)
    lat = pynini.compose(a, self.fst)
    if lat.num_states() == 0:
      return {}
    lat = pynini.project(lat, 'output').rmepsilon()
    lat = pynini.shortestpath(lat, nshortest=limit, unique=True)
    out = {}
    for q, ol in _paths(lat):
      k = tuple(ol)
      if k not in out or out[k] > q:
        out[k] = q
    return dict(sorted(out.items(), key=lambda z: (z[1], z[0])))

  def best(self, word):
    """The outputs of the least weight."""
    o = self.outputs(word)
    if not o:
      return []
    low = min(o.values())
    return [k for k, w in o.items() if w == low]

  def accepts(self, word):
    return bool(self.outputs(word, 1))


def small(g):
  """The same grammar with fewer states: OpenFst moves the outputs as far forward
  as they can be, and minimises.  Replays use the grammar itself."""
  r = Grammar(pynini.push(g.fst, push_labels=True).optimize(), g.name)
  r.fst = g.fst
  return r


def _paths(f):
  if f.start() < 0:
    return
  todo = [(f.start(), 0.0, [])]
  while todo:
    s, w, o = todo.pop()
    fw = float(f.final(s))
    if fw != fst.INF:
      yield w + fw, o
    for a in f.arcs(s):
      todo.append((a.nextstate, w + float(a.weight),
                   o + ([a.olabel] if a.olabel else [])))


def load(path):
  """{key: Grammar}"""
  out = {}
  far = pynini.Far(path, 'r')
  while not far.done():
    k = far.get_key()
    out[k] = Grammar(far.get_fst(), k)
    far.next()
  return out


# Automata made by hand.

def automaton(name, start, step, bad, alphabet):
  """A complete deterministic acceptor; ending in a bad state weighs 1.

  step(state, symbol) -> state; bad(state) -> bool.
  """
  r = fst.Mealy.__new__(fst.Mealy)
  r.name, r.weighted, r.max_out = name, True, 1
  alphabet = set(alphabet)
  r.start, r.step, r.final = [(start, (), 0)], {}, {}
  todo, seen = [start], {start}
  while todo:
    s = todo.pop()
    r.final[s] = 1 if bad(s) else 0
    g = {}
    for a in alphabet:
      t = step(s, a)
      g.setdefault((t, (None,), 0), set()).add(a)
      if t not in seen:
        seen.add(t)
        todo.append(t)
    r.step[s] = g
  r.isyms = r.osyms = alphabet
  r.n_states, r.n_steps = len(seen), sum(map(len, r.step.values()))
  return r


def rejects(m, alphabet):
  """Automaton whose bad words are those that the acceptor m rejects."""
  idx = product._by_symbol(m)

  def step(s, a):
    return frozenset(q for p in s for q, _, _ in idx[p].get(a, ()))
  return automaton('rejected by ' + m.name, frozenset(q for q, _, _ in m.start),
                   step, lambda s: not any(q in m.final for q in s), alphabet)


def occurs(patterns, alphabet, name='occurs', anchored=False):
  """Automaton whose bad words have one of the patterns as a factor.

  A pattern is a sequence of sets of symbols.  anchored: only as a prefix.
  """
  pats = [tuple(frozenset(s) for s in p) for p in patterns]

  def step(s, a):
    if s == 'BAD':
      return s
    out = set()
    for i, k in s if anchored else (set(s) | {(i, 0) for i in range(len(pats))}):
      if a in pats[i][k]:
        if k + 1 == len(pats[i]):
          return 'BAD'
        out.add((i, k + 1))
    return frozenset(out)
  s0 = frozenset((i, 0) for i in range(len(pats))) if anchored else frozenset()
  return automaton(name, s0, step, lambda s: s == 'BAD', alphabet)


def mapping(name, d):
  """One-state machine that writes d[a] for each a."""
  r = fst.Mealy.__new__(fst.Mealy)
  r.name, r.weighted = name, False
  r.start, r.final = [(0, (), 0)], {0: 0}
  r.step = {0: {}}
  for a, o in d.items():
    o = tuple(o)
    r.step[0].setdefault((0, (None,) if o == (a,) else o, 0), set()).add(a)
  r.isyms = set(d)
  r.osyms = {b for o in d.values() for b in o}
  r.max_out = max(map(len, d.values()))
  r.n_states, r.n_steps = 1, len(d)
  return r


def utf8_map(alphabet):
  return mapping('utf8', {a: chr(a).encode() for a in alphabet})


# Encoding a product table.

class Encoded:
  """A symbolic run of a product table: words of all its tapes."""

  def __init__(self, t, n, grow=2, symmetric=True, cap=None, write=True):
    self.t = t
    self.c = c = sat.CNF()
    if symmetric:
      cl = product.symmetry(t)
      al = [a for k in cl for a in k[:max(n, 1)]]
    else:
      cl, al = [], t.isyms
    self.x = enc.Word(c, al, n)
    self.x.break_symmetry(cl)
    al = set(al)
    self.words = {'x': self.x}
    ws = {}
    for i, name in enumerate(t.tapes if write else ()):
      syms, longest, first = set(), 0, 0
      for g in t.step.values():
        for (_, outs, _), s in g.items():
          longest = max(longest, len(outs[i]))
          for b in outs[i]:
            if b is None:
              syms |= s & al
            else:
              syms.add(b)
      for _, outs, _ in t.start:
        syms.update(outs[i])
        first = max(first, len(outs[i]))
      m = min(first + n * longest, cap or 10**9)
      if grow is not None and cap is None:
        m = min(m, first + n * grow + 2)
      ws[name] = enc.Word(c, syms, m)
    self.words.update(ws)
    self.run = enc.Run(c, t, self.x, ws)

  def word(self, name):
    return self.words[name]

  def end(self, comp, other=None):
    """Literals, one of which holds iff the component ends in a bad state (iff
    one of the two components does and the other does not)."""
    last = self.run.states[-1]
    fin = self.t.final
    return [v for q, v in last.items() if q in fin and
            fin[q][comp] != (0 if other is None else fin[q][other])]

  def problem(self, violation, twin=None):
    s, e = self.t.size()
    return harness.Problem(
        self.c, violation, words=self.words, states=s, transitions=e,
        values={name: lambda m, i=i: enc.tape(self.run, i, m)
                for i, name in enumerate(self.t.tapes)
                if name not in self.words},
        twin=[(self.x.more[self.x.n - 1],)] if twin is None else twin)


def differ_clauses(c, y, z):
  """The constraints of enc.differ, with the last clause set apart."""
  enc.differ(c, y, z)
  return [c.cl.pop()]


class Utf8Text:
  """The acceptor of the bytes of any text over an alphabet."""

  def __init__(self, alphabet):
    self.alphabet = set(alphabet)
    self.name = 'utf8 text'
    seqs = [chr(a).encode() for a in sorted(self.alphabet)]
    step = {b'': {}}
    for s in seqs:
      for i in range(len(s)):
        nxt = s[:i + 1] if i + 1 < len(s) else b''
        step.setdefault(s[:i], {}).setdefault((nxt, (None,), 0),
                                              set()).add(s[i])
    r = fst.Mealy.__new__(fst.Mealy)
    r.name, r.weighted, r.max_out = self.name, False, 1
    r.start, r.final, r.step = [(b'', (), 0)], {b'': 0}, step
    r.isyms = r.osyms = {b for s in seqs for b in s}
    r.n_states, r.n_steps = len(step), sum(map(len, step.values()))
    self.mealy = r

  def accepts(self, word):
    try:
      return set(map(ord, bytes(word).decode())) <= self.alphabet
    except ValueError:
      return False


def in_bytes(m):
  """The acceptor of the UTF-8 of the words that the acceptor m accepts."""
  r = fst.Mealy.__new__(fst.Mealy)
  r.name, r.weighted, r.max_out = m.name + ' (bytes)', False, 1
  r.start = [((q, b''), o, w) for q, o, w in m.start]
  r.final = {(q, b''): 0 for q in m.final}
  r.step = {}
  for p, g in m.step.items():
    own = r.step.setdefault((p, b''), {})
    for (q, _, _), syms in g.items():
      for a in syms:
        s = chr(a).encode()
        for i in range(len(s)):
          here = own if not i else r.step.setdefault((p, s[:i]), {})
          t = (q, b'') if i + 1 == len(s) else (p, s[:i + 1])
          here.setdefault((t, (None,), 0), set()).add(s[i])
  r.isyms = r.osyms = {b for g in r.step.values() for s in g.values() for b in s}
  r.n_states, r.n_steps = len(r.step), sum(map(len, r.step.values()))
  return r


def avoiding(auto):
  """The acceptor of the words that do not end badly, of an automaton whose bad
  states are never left."""
  r = fst.Mealy.__new__(fst.Mealy)
  r.name, r.weighted, r.max_out = 'not ' + auto.name, False, 1
  ok = {s for s, w in auto.final.items() if not w}
  r.start = auto.start
  r.step = {p: {k: s for k, s in auto.step[p].items() if k[0] in ok} for p in ok}
  r.final = {p: 0 for p in ok}
  r.isyms = r.osyms = auto.isyms
  r.n_states, r.n_steps = len(ok), sum(map(len, r.step.values()))
  return r


class Identity:
  """The grammar that changes nothing."""

  def __init__(self, alphabet):
    self.mealy = mapping('identity', {a: (a,) for a in alphabet})
    t = fst.Table.__new__(fst.Table)
    t.name, t.start, t.final = 'identity', 0, {0: 0}
    t.arcs = {0: [(a, a, 0, 0) for a in alphabet]}
    self.split = fst.Split(t)

  def best(self, word):
    return [tuple(word)]
