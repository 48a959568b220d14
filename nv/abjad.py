"""What the abjad/alphabet checks share."""
import random

import pynini

from nv import brahmic as b, machines

P = '//nisaba/scripts/abjad_alphabet'
D = P + '/data/Arab'
LANGS = ['ar', 'azb', 'bal', 'ckb', 'fa', 'ks', 'ms', 'pa', 'prs', 'ps', 'sd',
         'ug', 'ur', 'uz']
VN_TABLES = ['visual_norm', 'visual_norm_nonfinal',
             'visual_norm_final_isolated', 'visual_norm_isolated']


def far(name, token='utf8'):
  return '%s:%s%s.far' % (P, name, b.SUFFIX[token])


def norm(kind, lang, token='utf8'):
  return '%s:%s%s.Arab.%s.far' % (P, kind, b.SUFFIX[token], lang)


def tsv(name, lang=''):
  return '%s%s:%s.tsv' % (D, '/' + lang if lang else '', name)


def texts(alphabet, token='utf8'):
  """OpenFst's acceptor of the texts over an alphabet."""
  a = pynini.Fst()
  s = a.add_state()
  a.set_start(s)
  a.set_final(s)
  one = pynini.Weight.one('tropical')
  for x in sorted(alphabet):
    seq = [x] if token == 'utf8' else list(chr(x).encode())
    p = s
    for k, z in enumerate(seq):
      q = s if k == len(seq) - 1 else a.add_state()
      a.add_arc(p, pynini.Arc(z, z, one, q))
      p = q
  a.optimize()
  return a.arcsort('olabel')


def restrict(path, key, alphabet, token='utf8'):
  """The rule of a FAR on the texts over an alphabet, as a Grammar.

  OpenFst composes it with the acceptor of those texts, and makes the result
  smaller; replays use the rule itself.
  """
  f = pynini.Far(path, 'r')[key]
  r = pynini.compose(texts(alphabet, token), f)
  g = machines.small(machines.Grammar(r.optimize(), key))
  g.fst = f
  return g


def chars(rows):
  return [(tuple(map(ord, l)), tuple(map(ord, r))) for l, r in rows]


class Data:
  """The tables."""

  def __init__(self, c, want=()):
    names = [tsv(n) for n in ('nfc', 'presentation_forms', 'visual_norm',
                              'reversible_roman')]
    names += [tsv(n, l) for l in LANGS for n in VN_TABLES + ['reading_norm']]
    self.built = c.build(list(want) + names)
    self.rows = {n: b.rows(self.built[n]) for n in names}

  def __getitem__(self, k):
    return self.rows[tsv(*k) if isinstance(k, tuple) else tsv(k)]

  def vn_symbols(self, lang, seed=1, k=6):
    """The symbols of the language's visual norm, those of the common tables that
    they can interact with, and some others."""
    al = set()
    for n in VN_TABLES:
      al |= symbols(self[n, lang])
    al |= symbols(self['visual_norm'])
    # What NFC can make of them or make them from.
    for l, r in self['nfc']:
      if set(map(ord, l)) <= al or set(map(ord, r)) <= al:
        al |= set(map(ord, l + r))
    rnd = random.Random(seed)
    for n in ('nfc', 'presentation_forms', 'reversible_roman'):
      for l, r in rnd.sample(self[n], k):
        al |= {ord(x) for x in (l + r if n == 'nfc' else l)}
    return al | {0x20, 0x41, 0x200C}


def symbols(rows):
  return {ord(x) for l, r in rows for x in l + r}


def presentation(a):
  return 0xFB50 <= a <= 0xFDFF or 0xFE70 <= a <= 0xFEFE


def grammar(c, path, key, alphabet, token='utf8'):
  far = pynini.Far(path, 'r')
  if not far.find(key):
    c.fatal('no rule ' + key)
  return restrict(path, key, alphabet, token)
