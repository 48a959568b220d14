"""B04: visual norm is a total function."""
from nv import brahmic as b, vn


def run(c):
  d = vn.Data(c)
  for s, l in vn.GRAMMARS:
    g = d.vn[s, l]
    lab = 'visual_norm_utf8 ' + vn.name(s, l)
    big = s == 'Deva'
    n = c.pick([2, 3], [2, 3, 4, 5]) if big else c.pick([2, 5], [2, 5, 7, 9])
    b.single_valued(c, g, lab, n, grow=3)
    b.total(c, g, d.alphabet(s), lab, c.pick([3, 8], [3, 8, 16]))
  c.run()
