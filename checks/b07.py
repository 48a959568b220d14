"""B07: what visual norm leaves: no stray joiner, no internal symbol."""
from nv import brahmic as b, claims, vn


def run(c):
  d = vn.Data(c)
  for s, l in vn.GRAMMARS:
    g = d.vn[s, l]
    k = vn.name(s, l)
    n = c.pick([2, 4], [2, 4, 6]) if s == 'Deva' else c.pick([2, 5],
                                                            [2, 5, 7, 9])
    f = ['visual_norm_utf8 ' + k]
    pres, cons = d.column(s, 'preserve'), d.column(s, 'consonant')

    def pipe(g=g, s=s, pres=pres, cons=cons):
      al = g.mealy.osyms | g.mealy.isyms
      return claims.Pipe(g.mealy.isyms).apply(g, 'y').watch(
          'stray joiner', vn.stray_joiner(pres, cons, al), 'y').watch(
              'foreign symbol', vn.foreign(d.alphabet(s), al), 'y')
    claims.claim(c, 'no stray joiner or foreign symbol ' + k, pipe, n,
                 bad=['stray joiner', 'foreign symbol'], functions=f)
  c.run()
