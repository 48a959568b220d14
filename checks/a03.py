"""A03: reversible romanization of Perso-Arabic text."""
import random

from nv import abjad as ab, brahmic as b, iso, machines


def run(c):
  far = ab.far('reversible_roman')
  built = c.build([ab.far('nfc'), far, ab.tsv('reversible_roman')])
  nfc = machines.load(built[ab.far('nfc')])['ARAB']
  g = machines.load(built[far])
  if 'FROM_ARAB' not in g or 'TO_ARAB' not in g:
    c.fatal('no romanization rule')
  f, t = g['FROM_ARAB'], g['TO_ARAB']
  rows = b.rows(built[ab.tsv('reversible_roman')])
  al = {ord(x) for l, _ in rows for x in l}
  for m in (f, t, nfc):
    m.split
  rnd = random.Random(c.seed)
  fn = ['reversible_roman_utf8 FROM_ARAB', 'reversible_roman_utf8 TO_ARAB',
        'nfc_utf8 ARAB']
  iso.round_trip(c, 'there and back', f, t, nfc, al, c.pick([1, 2], [1, 2, 3]),
                 grow=4, weight=0, functions=fn)
  for i in range(c.pick(3, 8)):
    some = set(rnd.sample(sorted(al), 45))
    iso.round_trip(c, 'there and back, some letters %d' % i, f, t, nfc, some,
                   c.pick([3, 4], [3, 4, 5, 6]), grow=4, weight=0, functions=fn)
  iso.single_best(c, 'FROM_ARAB is a function', f, al, c.pick([2, 3], [2, 3, 5]),
                  weight=0, grow=4, functions=fn[:1])
  iso.single_best(c, 'TO_ARAB is a function', t, t.split.isyms,
                  c.pick([3, 7], [3, 7, 10]), weight=0, functions=fn[1:2])
  b.total(c, f, al, 'FROM_ARAB', c.pick([2, 4], [2, 4, 8]))
  c.run()
