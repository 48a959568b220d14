"""What the checks of the Brahmic visual norm share."""
import unicodedata as ud

from nv import brahmic as b, machines

GRAMMARS = [(s, '') for s in b.SCRIPTS] + [('Beng', 'as'), ('Beng', 'bn')]


def name(script, lang):
  return (lang or script).upper()


class Data:
  """Grammars and tables, by script."""

  def __init__(self, c, token='utf8'):
    want = [b.visual_norm(s, l, token) for s, l in GRAMMARS]
    want += [b.far('nfc', token), b.far('wellformed', token)]
    tsvs = {(s, n): b.tsv(s, n) for s in b.SCRIPTS for n in b.TABLES}
    built = c.build(want + list(tsvs.values()))
    self.built = built
    self.nfc = machines.load(built[b.far('nfc', token)])
    self.wf = machines.load(built[b.far('wellformed', token)])
    self.vn = {}
    for s, l in GRAMMARS:
      g = machines.load(built[b.visual_norm(s, l, token)])
      if name(s, l) not in g:
        c.fatal('no visual norm rule ' + name(s, l))
      self.vn[s, l] = machines.small(g[name(s, l)])
    for s in b.SCRIPTS:
      if s.upper() not in self.nfc or s.upper() not in self.wf:
        c.fatal('no NFC or well-formedness rule for ' + s)
    self.rows = {k: b.rows(built[l]) for k, l in tsvs.items()}

  def alphabet(self, s):
    """The symbols of the script's tables, and the joiners."""
    out = set(b.JOINERS)
    for n in b.TABLES:
      for l, r in self.rows[s, n]:
        out.update(b.codes(l))
        if n in ('nfc', 'visual_rewrite'):
          out.update(b.codes(r))
    return {a for a in out if a >= 0x300}

  def marks(self, s):
    return {a for a in self.alphabet(s)
            if ud.category(chr(a)) == 'Mn' or a in b.JOINERS}

  def column(self, s, n):
    return [b.codes(l) for l, _ in self.rows[s, n]]


def stray_joiner(preserve, consonants, alphabet):
  """Bad: a joiner that is not part of a preserved sequence that stands between
  two consonants."""
  last = {x[-1] for x in consonants}
  first = {x[0] for x in consonants}

  def neutral(a):
    return 'c' if a in last else 'o'

  def step(states, a):
    out = set()
    for s in states:
      if s in ('o', 'c') and a not in b.JOINERS:
        out.add(neutral(a))
      if s == 'c':
        out |= {(p, 1) for p in preserve if p[0] == a}
      if isinstance(s, tuple) and s[1] < len(s[0]) and s[0][s[1]] == a:
        out.add((s[0], s[1] + 1))
      if isinstance(s, tuple) and s[1] == len(s[0]) and a in first:
        out.add(neutral(a))
    return frozenset(out)
  return machines.automaton('stray joiner', frozenset(['o']), step,
                            lambda s: not (s & {'o', 'c'}), alphabet)


def foreign(allowed, alphabet):
  """Bad: a symbol that is not allowed."""
  return machines.automaton('foreign symbol', 0,
                            lambda s, a: s or int(a not in allowed),
                            lambda s: s == 1, alphabet)
