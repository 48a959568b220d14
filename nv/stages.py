"""Reference of the Brahmic visual norm: its documented stages, from the tables."""
import unicodedata as ud

from nv import brahmic as b, fst, rewriter


class Dedup:
  """Of a mark that repeats, one is kept."""

  def __init__(self, marks):
    self.marks, self.rules = set(marks), []

  def __call__(self, word):
    out = []
    for a in word:
      if not (a in self.marks and out and out[-1] == a):
        out.append(a)
    return tuple(out)

  def machine(self, alphabet):
    al = set(alphabet)
    m = fst.Mealy.__new__(fst.Mealy)
    m.name, m.weighted, m.max_out = 'dedup', False, 1
    m.start, m.step, m.final = [(0, (), 0)], {}, {}
    marks = al & self.marks
    for s in [0] + sorted(marks):
      m.final[s] = 0
      g = m.step[s] = {}
      for a in al:
        if a == s:
          g.setdefault((s, (), 0), set()).add(a)
        else:
          g.setdefault((a if a in marks else 0, (None,), 0), set()).add(a)
    m.isyms = m.osyms = al
    m.n_states, m.n_steps = len(m.step), sum(map(len, m.step.values()))
    return m


def visual_norm(rows, before=(), after=()):
  """rows: {table name: rows}; before, after: the rows of the language."""
  c = lambda l: tuple(map(ord, l))
  chars = set()
  for n in ('accept', 'coda', 'consonant', 'dead_consonant', 'standalone',
            'subjoined_consonant', 'virama', 'vowel', 'vowel_length_sign',
            'vowel_sign'):
    chars |= {a for l, _ in rows[n] for a in c(l)}
  for n in ('nfc', 'reading_norm', 'visual_rewrite'):
    chars |= {a for l, r in rows[n] for a in c(l) + c(r)}
  marks = b.JOINERS | {a for a in chars if ud.category(chr(a)) == 'Mn'}
  cons = {c(l) for l, _ in rows['consonant'] if l}
  # A preserved sequence is put away as a symbol of its own.
  kept = [c(l) for l, _ in rows['preserve'] if l]
  away = {l: (0xF0000 + i,) for i, l in enumerate(dict.fromkeys(kept))}
  st = rewriter.table(rows['nfc']) + [Dedup(marks)]
  st += rewriter.table(rows['visual_rewrite'])
  if away:
    st.append(rewriter.Stage(list(away.items()), cons, cons))
  st.append(rewriter.Stage([((j,), ()) for j in sorted(b.JOINERS)]))
  if away:
    st.append(rewriter.Stage([(r, l) for l, r in away.items()]))
  f = lambda l: [(c(x), c(y)) for x, y in l]
  if before:
    st.append(rewriter.Stage(f(before), None, cons))
  if after:
    st.append(rewriter.Stage(f(after), cons, None))
  return st
