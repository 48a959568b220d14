"""N05: deromanization follows the rules of its language."""
from nv import brahmic as b, claims, derom, natural as nt

LETTERS = set(map(ord, derom.LATIN))


def run(c):
  far = {(l, t): '%s/deromanization:%s_iso%s.far' % (nt.P, l, b.SUFFIX[t])
         for l in ('hi', 'ta') for t in ('utf8', 'byte')}
  built = c.build(far.values())
  for l in ('hi', 'ta'):
    fn = 'deromanization of ' + l
    g, y = (nt.rule_of(c, built[far[l, t]], 'ISO') for t in ('utf8', 'byte'))
    ref = derom.grammar(l)

    def pipe(g=g, ref=ref):
      return claims.Pipe(LETTERS).apply(g, 'y').apply(ref, 'rules')
    claims.claim(c, fn, pipe, c.pick([2, 5, 8], [2, 5, 8, 11]),
                 differ=('y', 'rules'), functions=[fn])
    b.total(c, g, LETTERS, fn, [3, 12])
    claims.same_bytes(c, g, y, LETTERS, fn, c.pick([2, 4], [2, 4, 6]))
  c.run()
