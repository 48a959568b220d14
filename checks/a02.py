"""A02: the Perso-Arabic NFC grammar agrees with Unicode's."""
import unicodedata as ud

from checks.b02 import d, decompose, not_nfc, out_of_order
from nv import abjad as ab, claims, machines


def run(c):
  built = c.build([ab.far('nfc')])
  g = machines.load(built[ab.far('nfc')])
  if 'ARAB' not in g:
    c.fatal('no NFC rule for Arab')
  g = g['ARAB']
  bounds = c.pick([3, 6], [3, 6, 9])
  lab = 'nfc_utf8 ARAB'

  # The Arabic part of the alphabet: Latin letters have compositions of their own.
  base = {a for a in g.mealy.isyms if 0x600 <= a < 0x900 or a < 0x80 or
          0x2000 <= a < 0x2100}
  al = {a for a in g.mealy.isyms | g.mealy.osyms if a < 0x110000}
  al |= {y for x in al for y in d(x)}
  al |= {y for x in al for y in map(ord, ud.normalize('NFC', chr(x)))}

  # Two sequences are canonically equivalent if and only if their decompositions
  # have the same starters with the same marks of each class, in the same order.
  def only(k):
    return lambda w: tuple(y for y in decompose(w) if ud.combining(chr(y)) in (
        0, k))

  def equiv(k):
    f = only(k)
    m = machines.mapping('class %d' % k, {a: f((a,)) for a in al})
    return claims.Pipe(base).watch('order', out_of_order(base)).apply(
        g, 'y').map(m, f, 'dx').map(m, f, 'dy', 'y')

  def composed():
    return claims.Pipe(base).watch('order', out_of_order(base)).apply(
        g, 'y').watch('not NFC', not_nfc(al), 'y')
  for k in sorted({ud.combining(chr(y)) for a in al for y in d(a)}):
    claims.claim(c, 'canonically equivalent, class %d' % k,
                 lambda k=k: equiv(k), bounds, differ=('dx', 'dy'),
                 good=['order'], functions=[lab])
  claims.claim(c, 'composed', composed, bounds, bad=['not NFC'], good=['order'],
               functions=[lab])
  c.run()
