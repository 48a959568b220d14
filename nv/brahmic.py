"""What the Brahmic checks share."""
import os
import random

from nv import claims, machines

SCRIPTS = ['Beng', 'Bugi', 'Deva', 'Gujr', 'Guru', 'Knda', 'Lepc', 'Limb',
           'Mlym', 'Mtei', 'Newa', 'Orya', 'Sinh', 'Sylo', 'Takr', 'Taml',
           'Telu', 'Tglg', 'Thaa', 'Tirh']
ISO_SCRIPTS = SCRIPTS
P = '//nisaba/scripts/brahmic'
TABLES = ['accept', 'coda', 'consonant', 'dead_consonant', 'inherent_vowel',
          'nfc', 'preserve', 'standalone', 'subjoined_consonant', 'virama',
          'visual_rewrite', 'vowel', 'vowel_length_sign', 'vowel_sign']
SUFFIX = {'utf8': '_utf8', 'byte': ''}
JOINERS = {0x200B, 0x200C, 0x200D}


def far(name, token='utf8'):
  return '%s:%s%s.far' % (P, name, SUFFIX[token])


def visual_norm(script, lang='', token='utf8'):
  return '%s:visual_norm%s.%s.%s.far' % (P, SUFFIX[token], script, lang)


def reading_norm(script, lang='', token='utf8'):
  return '%s:reading_norm%s.%s.%s.far' % (P, SUFFIX[token], script, lang)


def tsv(script, name):
  return '%s/data/%s:%s.tsv' % (P, script, name)


def rows(path):
  """[(left, right)] of a table file; an absent right side is ''."""
  out = []
  if os.path.exists(path):
    with open(path, encoding='utf8') as f:
      for line in f:
        line = line.rstrip('\n')
        if line and not line.startswith('#'):
          f2 = line.split('\t')
          out.append((f2[0], f2[1] if len(f2) > 1 else ''))
  return out


def codes(s):
  return tuple(map(ord, s))


def show(word, byte=False):
  if byte:
    s = bytes(word).decode('utf8', 'backslashreplace')
    return '%s %r' % (' '.join('%02X' % a for a in word), s)
  return '%s %r' % (' '.join('%04X' % a for a in word),
                    ''.join(chr(a) if a < 0x110000 else '?' for a in word))


def single_valued(c, g, label, bounds, byte=False, **kw):
  """Adds: every input has at most one output."""
  claims.claim(c, 'single-valued ' + label,
               lambda: claims.Pipe(g.mealy.isyms).apply(g, 'y').apply(g, 'z'),
               bounds, differ=('y', 'z'), functions=[label],
               show=claims.show_bytes if byte else None, **kw)


def total(c, g, alphabet, label, bounds, byte=False, **kw):
  """Adds: every word over the alphabet has an output."""
  def pipe():
    al = set(alphabet) | g.domain.isyms
    return claims.Pipe(al).watch('no output', machines.rejects(g.domain, al))
  claims.claim(c, 'total ' + label, pipe, bounds, bad=['no output'],
               functions=[label], show=claims.show_bytes if byte else None,
               **kw)


def idempotent(c, g, label, bounds, byte=False, **kw):
  """Adds: applying the grammar to its output changes nothing."""
  claims.claim(c, 'idempotent ' + label,
               lambda: claims.Pipe(g.mealy.isyms).apply(g, 'y').apply(
                   g, 'z', 'y'),
               bounds, differ=('y', 'z'), functions=[label],
               show=claims.show_bytes if byte else None, **kw)


def alphabet(paths):
  """The native symbols in the table files."""
  out = set()
  for name, path in paths.items():
    both = name in ('nfc', 'visual_rewrite')
    for l, r in rows(path):
      out.update(codes(l))
      if both:
        out.update(codes(r))
  return {a for a in out if a >= 0x300}


def sample_alphabet(rows_of, k, seed):
  """Some symbols of every table: rows_of(name) -> rows."""
  r = random.Random(seed)
  out = set()
  for n in TABLES:
    if n in ('preserve', 'inherent_vowel', 'visual_rewrite'):
      continue
    ws = [codes(l) for l, _ in rows_of(n)]
    one = sorted(w for w in ws if len(w) == 1)
    more = sorted(w for w in ws if len(w) > 1)
    for w in (r.sample(one, min(k, len(one))) +
              r.sample(more, min(1, len(more)))):
      out.update(w)
  return {a for a in out if a >= 0x300} | {r.choice(sorted(JOINERS))}
