"""Reference for a set of rewrite rules: obligatory, leftmost, left to right.

Written from the documentation of cdrewrite and of nisaba.scripts.utils.rule,
independently of OpenFst: a `Stage` is both a plain Python function on words and
a machine that is built by hand.
"""
import pynini

from nv import fst, machines, product

ANY, EOS = 'any', 'eos'


def layers(rules):
  """The rules in layers: a rule comes after those whose left side contains its
  own (see utils/rule.py)."""
  rules = list(dict.fromkeys(rules))
  out = []
  while rules:
    top = [r for r in rules
           if not any(o != r and _within(r[0], o[0]) for o in rules)]
    if not top:
      raise ValueError('rules with the same left side')
    out.append(top)
    rules = [r for r in rules if r not in top]
  return out


def _within(a, b):
  return any(b[i:i + len(a)] == a for i in range(len(b) - len(a) + 1))


class Stage:
  """rules: [(lhs, rhs)], tuples of symbols.

  left: None, ANY (something is before, in what is written) or 'bos', or a set of
  words one of which what is written ends with; right: None, ANY, EOS, or a set of
  words one of which comes next in what is read.
  """

  def __init__(self, rules, left=None, right=None):
    self.rules = [(tuple(l), tuple(r)) for l, r in rules if l]
    self.left, self.right = left, right
    self.lwords = left if isinstance(left, (set, frozenset)) else None
    if isinstance(right, (set, frozenset)):
      self.rights = [tuple(w) for w in right]
    else:
      self.rights = [{None: (), ANY: (ANY,), EOS: (EOS,)}[right]]

  def left_ok(self, tail):
    """tail: what is written, of which only the end is known."""
    if self.left is None:
      return True
    if self.left == ANY:
      return bool(tail)
    if self.left == 'bos':
      return not tail
    return any(tail[len(tail) - len(w):] == w for w in self.lwords
               if len(w) <= len(tail))

  # The function.

  def __call__(self, word):
    word = tuple(word)
    out, i = (), 0
    while i < len(word):
      for l, r in self.rules:
        if (word[i:i + len(l)] == l and self.left_ok(out) and
            any(_ahead(word, i + len(l), w) for w in self.rights)):
          out += r
          i += len(l)
          break
      else:
        out += word[i:i + 1]
        i += 1
    return out

  # The machine.

  def machine(self, alphabet):
    """Mealy.  It guesses where the matches are; a state is

    (what is known of the end of what is written, the rest of the match being read, the words one
    of which must come next or None, the words that must not come next).
    """
    alphabet = set(alphabet)
    own = {a for l, r in self.rules for a in l + r}
    for w in self.rights + list(self.lwords or ()):
      own.update(w)
    rest = alphabet - own
    letters = (alphabet & own) | (set(sorted(rest)[:1]))
    other = sorted(rest)[0] if rest else None

    # What is known of the end of what is written: what has yet to be written for
    # it to end with a left context.
    def tail(t, o):
      for b in o:
        if self.left == 'bos':
          t = frozenset()
        elif self.left == ANY:
          t = frozenset([()])
        elif self.left is not None:
          t = frozenset([w[1:] for w in t if w and w[0] == b] +
                        [w[1:] for w in self.lwords if w[0] == b])
      return t
    t0 = frozenset([()] if self.left in (None, 'bos') else [])

    def forward(s, a):
      """[(state, output)]"""
      t, todo, must, ban = s
      if must is not None:
        must = frozenset(w[1:] for w in must if w[0] in (a, ANY))
        if not must:
          return []
        if () in must:
          must = None
      ban2 = set()
      for w in ban:
        if w[0] in (a, ANY):
          if len(w) == 1:
            return []
          ban2.add(w[1:])
      if todo:
        if todo[0] != a:
          return []
        if len(todo) > 1:
          return [((t, todo[1:], must, frozenset(ban2)), ())]
        return after(t, must, ban2, ())
      out = []
      ok = () in t
      if ok:
        for l, r in self.rules:
          if l[0] == a:
            if len(l) > 1:
              out.append(((tail(t, r), l[1:], must, frozenset(ban2)), r))
            else:
              out += after(tail(t, r), must, ban2, r)
      ban3 = set(ban2)
      dead = False
      if ok:
        for l, _ in self.rules:
          if l[0] == a:
            for w in self.rights:
              p = l[1:] + w
              if not p:
                dead = True
              ban3.add(p)
      if not dead:
        out.append(((tail(t, (a,)), (), must, frozenset(ban3)), (a,)))
      return out

    def after(t, must, ban, o):
      if () in self.rights:
        return [((t, (), must, frozenset(ban)), o)]
      new = frozenset(self.rights)
      if must is not None:
        # Both hold: a word of one that extends a word of the other.
        new = frozenset(x if len(x) >= len(y) else y for x in must for y in new
                        if x[:len(y)] == y or y[:len(x)] == x)
        if not new:
          return []
      return [((t, (), new, frozenset(ban)), o)]

    def final(s):
      t, todo, must, ban = s
      if todo or any(w == (EOS,) for w in ban):
        return False
      return must is None or (EOS,) in must

    m = fst.Mealy.__new__(fst.Mealy)
    m.name, m.weighted = 'rules', False
    s0 = (t0, (), None, frozenset())
    m.start, m.step, m.final = [(s0, (), 0)], {}, {}
    m.max_out = max([1] + [len(r) for _, r in self.rules])
    todo, seen = [s0], {s0}
    while todo:
      s = todo.pop()
      if final(s):
        m.final[s] = 0
      g = m.step[s] = {}
      for a in letters:
        for q, o in forward(s, a):
          pat = (None,) if o == (a,) else o
          g.setdefault((q, pat, 0), set()).update(
              rest if a == other else {a})
          if q not in seen:
            seen.add(q)
            todo.append(q)
    m.isyms = alphabet
    m.osyms = alphabet | {b for _, r in self.rules for b in r}
    m.n_states, m.n_steps = len(seen), sum(map(len, m.step.values()))
    return m


def _ahead(word, i, w):
  for k, x in enumerate(w):
    if x == EOS:
      if i + k != len(word):
        return False
    elif i + k >= len(word) or (x != ANY and word[i + k] != x):
      return False
  return True


def to_fst(m):
  """A Mealy machine as an OpenFst transducer."""
  f = pynini.Fst()
  one = pynini.Weight.one('tropical')
  num = {}

  def state(q):
    if q not in num:
      num[q] = f.add_state()
    return num[q]

  def path(src, a, o, dst):
    o = list(o) or [0]
    ins = [a] + [0] * (len(o) - 1)
    for k, (x, y) in enumerate(zip(ins, o)):
      nxt = dst if k == len(o) - 1 else f.add_state()
      f.add_arc(src, pynini.Arc(x, y, one, nxt))
      src = nxt
  for q, _, _ in m.start:
    f.set_start(state(q))
  for p, g in m.step.items():
    for (q, pat, _), syms in g.items():
      for a in syms:
        path(state(p), a, tuple(a if b is None else b for b in pat), state(q))
  for q in m.final:
    f.set_final(state(q))
  return f


class Cascade:
  """Stages in order, as one function and one grammar."""

  def __init__(self, stages, alphabet, name='reference'):
    self.stages, self.name = list(stages), name
    alphabet = set(alphabet)
    whole = None
    for s in self.stages or [Stage([])]:
      f = to_fst(s.machine(alphabet))
      alphabet |= {b for _, r in s.rules for b in r}
      if whole is None:
        whole = f
      else:
        whole.arcsort('olabel')
        whole = pynini.compose(whole, f.arcsort('ilabel'))
      whole.optimize()
    self.grammar = machines.Grammar(whole, name)

  def __call__(self, word):
    for s in self.stages:
      word = s(word)
    return word


def table(rows):
  """Stages of a rule table."""
  rules = [(tuple(map(ord, l)), tuple(map(ord, r))) for l, r in rows if l]
  return [Stage(l) for l in layers(rules)]
