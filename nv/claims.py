"""Claims about grammars that read one word, as queries.

A Pipe is the word x and what grammars make of it, tape by tape.  `real` says how
to obtain each tape from the real grammars, for replays.
"""
import functools

from nv import enc, fst, machines, product


class Pipe:
  """Grammars that run together on one symbolic word."""

  def __init__(self, alphabet):
    self.alphabet = set(alphabet)
    self.ops = []
    self.t = None
    self.watched = {}
    self.assumed = []
    self.real = {'x': lambda x, env: [tuple(x)]}
    self.order = ['x']

  def _add(self, m, src, tape):
    self.ops.append((m, src, tape))
    return len(self.ops) - 1

  def table(self, n, limit=1500000):
    """The product; of symbols that are interchangeable in every grammar, n are
    kept (a word of n symbols needs no more)."""
    if self.t is None or self.n < n:
      al = set()
      for cl in fst.symmetry_classes([m for m, _, _ in self.ops],
                                     sorted(self.alphabet)):
        al.update(cl[:n])
      t = product.Table([], [(0, (), ())], {0: {(0, (), ()): al}}, {0: ()}, al)
      for m, src, tape in self.ops:
        if src == 'x':
          t = product.sync(t, m, tape, depth=n, limit=limit)
        else:
          t = product.chain(t, src, m, tape, depth=n, limit=limit)
      self.t, self.n = t, n
    return self.t

  def apply(self, g, tape, src='x'):
    """tape = an output of the grammar on src."""
    if g.mealy.weighted:
      raise fst.Unsupported(g.name + ' is weighted')
    self._add(g.mealy, src, tape)
    self.real[tape] = lambda x, env: [y for s in env[src] for y in g.outputs(s)]
    self.order.append(tape)
    return self

  def map(self, m, f, tape, src='x'):
    """tape = m(src); f is the function itself, for replays."""
    self._add(m, src, tape)
    self.real[tape] = lambda x, env: [tuple(f(s)) for s in env[src]]
    self.order.append(tape)
    return self

  def where(self, g, src='x'):
    """Assumption: the grammar accepts src."""
    self._add(g.mealy, src, None)
    self.assumed.append((src, g))
    return self

  def watch(self, name, auto, src='x'):
    """A deterministic acceptor (machines.automaton) that reads src."""
    self.watched[name] = (self._add(auto, src, None), src, auto)
    return self

  def tapes(self, x):
    env = {}
    for t in self.order:
      env[t] = list(dict.fromkeys(self.real[t](x, env)))[:50]
    return env


def run_auto(a, word):
  """Whether the word ends in a bad state."""
  s = a.start[0][0]
  for x in word:
    for (t, _, _), syms in a.step[s].items():
      if x in syms:
        s = t
        break
    else:
      return None
  return bool(a.final[s])


def claim(c, name, pipe, bounds, differ=None, bad=(), good=(),
          disagree=None, functions=(),
          show=None, grow=2, slack=0, **kw):
  """Adds the query: no word within the bound on which the two tapes of `differ`
  differ, or on which one of the `bad` watches ends badly, among the words on
  which no watch of `good` does; or on which the two watches of `disagree` end
  differently.

  pipe: a function that makes the Pipe.
  """
  pipe = functools.cache(pipe)
  show = show or show_word

  def encode(n):
    p = pipe()
    try:
      t = p.table(max(bounds), 300000)
    except fst.Unsupported:
      t = p.table(n)
    lag = None
    if differ and 'x' not in differ:
      e = machines.Encoded(t, n, write=False)
      try:
        lag = enc.Lag(e.run, [t.tapes.index(y) for y in differ])
      except OverflowError:
        pass
    if not lag:
      e = machines.Encoded(t, n, grow=grow)
    for w in good:
      for l in e.end(p.watched[w][0]):
        e.c.add(-l)
    v = []
    if differ:
      if lag:
        v = [lag.violation()]
      else:
        v = machines.differ_clauses(e.c, e.word(differ[0]), e.word(differ[1]))
      if bad:
        raise ValueError
    elif disagree:
      v = [tuple(e.end(*[p.watched[w][0] for w in disagree]))]
    else:
      v = [tuple(l for w in bad for l in e.end(p.watched[w][0]))]
    return e.problem(v, [(e.x.more[max(0, n - 1 - slack)],)])

  def holds(p, env, names):
    """Whether none of the watches is bad, on some choice of tapes."""
    for w in names:
      _, src, auto = p.watched[w]
      if not any(run_auto(auto, s) is False for s in env[src]):
        return False
    return True

  def replay(w):
    p = pipe()
    env = p.tapes(w['x'])
    for src, g in p.assumed:
      if not any(g.accepts(s) for s in env[src]):
        return False, 'the assumption does not hold'
    if not holds(p, env, good):
      return False, 'the assumption does not hold'
    said = ', '.join('%s = %s' % (t, ' | '.join(show(s) for s in env[t][:3]) or
                                  'nothing') for t in p.order)
    if differ:
      a, b = (env[t] for t in differ)
      return any(s != t for s in a for t in b), said
    if disagree:
      ends = [run_auto(p.watched[w2][2], s) for w2 in disagree
              for s in env[p.watched[w2][1]][:1]]
      return ends[0] != ends[1], '%s: %s, of which %s' % (
          '/'.join(disagree), ends, said)
    for w2 in bad:
      _, src, auto = p.watched[w2]
      for s in env[src]:
        if run_auto(auto, s) is True:
          return True, '%s: %s' % (w2, said)
    return False, said

  def confirm(w):
    env = pipe().tapes(w['x'])
    return all(tuple(w[t]) in env[t] for t in pipe().order if t in w)
  return c.query(name, encode, bounds, replay, confirm, functions=functions,
                 **kw)


def utf8(w):
  return tuple(z for a in w for z in chr(a).encode())


def same_bytes(c, u, y, al, lab, bounds, **kw):
  """Adds: the byte grammar y does to UTF-8 what u does to code points."""
  def pipe():
    return Pipe(al).apply(u, 'y').map(
        machines.utf8_map(al), utf8, 'xb').apply(y, 'z', 'xb').map(
            machines.utf8_map(al | u.mealy.osyms), utf8, 'yb', 'y')
  claim(c, lab, pipe, bounds, differ=('yb', 'z'),
               functions=[lab + ' (utf8)', lab + ' (byte)'], grow=None, **kw)

  def both():
    a2 = al | u.domain.isyms
    a3 = {z for a in a2 for z in chr(a).encode()}
    return Pipe(a2).map(machines.utf8_map(a2), utf8, 'bytes').watch(
        'rejected', machines.rejects(u.domain, a2)).watch(
            'rejected as bytes', machines.rejects(y.domain, a3), 'bytes')
  claim(c, 'accepted ' + lab, both, bounds,
               disagree=('rejected', 'rejected as bytes'), grow=None,
               functions=[lab + ' (utf8)', lab + ' (byte)'], **kw)


def show_word(word):
  return '%s %r' % (' '.join('%04X' % a for a in word),
                    ''.join(chr(a) if a < 0x110000 else '?' for a in word))


def show_bytes(word):
  try:
    s = bytes(word).decode('utf8', 'backslashreplace')
  except ValueError:
    s = '?'
  return '%s %r' % (' '.join('%02X' % a for a in word), s)
