"""A05: visual norm is a function, and does not distinguish a text from its NFC."""
from checks.b02 import out_of_order
from nv import abjad as ab, brahmic as b, claims, machines


def run(c):
  d = ab.Data(c, [ab.norm('visual_norm', l) for l in ab.LANGS] + [ab.far('nfc')])
  nfc = machines.load(d.built[ab.far('nfc')])['ARAB']
  n = c.pick([3, 4], [3, 5, 7])
  for l in ab.LANGS:
    k = l.upper()
    al = d.vn_symbols(l, c.seed)
    fn = 'visual_norm_utf8 ' + k
    g = ab.grammar(c, d.built[ab.norm('visual_norm', l)], k, al)
    b.single_valued(c, g, fn, n)
    b.total(c, g, al, fn, c.pick([3, 5], [3, 5, 7]))

    def same(g=g, al=al):
      return claims.Pipe(al).watch('order', out_of_order(al)).apply(
          g, 'y').apply(nfc, 'n').apply(g, 'z', 'n')

    def resolved(g=g, al=al):
      out = al | g.mealy.osyms
      return claims.Pipe(al).apply(g, 'y').watch(
          'presentation form or invisible', machines.automaton(
              'f', 0, lambda s, a: s or int(ab.presentation(a) or
                                            a in (0x200B, 0x200D)),
              lambda s: s == 1, out), 'y')
    claims.claim(c, 'of NFC ' + k, same, n, differ=('y', 'z'), good=['order'],
                 functions=[fn])
    claims.claim(c, 'resolved ' + k, resolved, n,
                 bad=['presentation form or invisible'], functions=[fn])
  c.run()
