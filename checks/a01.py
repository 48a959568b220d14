"""A01: the Perso-Arabic NFC grammar is a function, stable on ordered text."""
from checks.b02 import out_of_order
from nv import abjad as ab, brahmic as b, claims, machines


def run(c):
  built = c.build([ab.far('nfc'), ab.far('nfc', 'byte')])
  n = c.pick([3, 6], [3, 6, 9])
  u = machines.load(built[ab.far('nfc')])
  y = machines.load(built[ab.far('nfc', 'byte')])
  if 'ARAB' not in u or 'ARAB' not in y:
    c.fatal('no NFC rule for Arab')
  u, y = u['ARAB'], y['ARAB']
  al = u.mealy.isyms
  b.single_valued(c, u, 'nfc_utf8', n)
  b.total(c, u, al, 'nfc_utf8', n)
  b.single_valued(c, y, 'nfc', c.pick([4, 10], [4, 10, 16]), byte=True)

  def stable():
    return claims.Pipe(al).watch('order', out_of_order(al)).apply(
        u, 'y').apply(u, 'z', 'y')
  claims.claim(c, 'stable nfc_utf8', stable, n, differ=('y', 'z'),
               good=['order'], functions=['nfc_utf8 ARAB'])
  c.run()
