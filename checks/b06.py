"""B06: visual norm does not distinguish a text from its NFC."""
from nv import brahmic as b, claims, vn


def run(c):
  d = vn.Data(c)
  for s, l in vn.GRAMMARS:
    g, nfc = d.vn[s, l], d.nfc[s.upper()]
    k = vn.name(s, l)
    n = c.pick([2, 3], [2, 3, 4, 5]) if s == 'Deva' else c.pick([2, 5],
                                                            [2, 5, 7, 9])

    def pipe(g=g, nfc=nfc):
      return claims.Pipe(g.mealy.isyms).apply(g, 'y').apply(nfc, 'n').apply(
          g, 'z', 'n')
    claims.claim(c, 'visual norm of NFC ' + k, pipe, n, differ=('y', 'z'),
                 functions=['visual_norm_utf8 ' + k, 'nfc_utf8 ' + s.upper()])
  c.run()
