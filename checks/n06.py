"""N06: deromanization to a script is that to ISO, in the script."""
from nv import brahmic as b, claims, derom, iso, machines, natural as nt

LETTERS = set(map(ord, derom.LATIN))


def run(c):
  pairs = [('hi', 'DEVA'), ('ta', 'TAML')]
  far = {(l, x, t): '%s/deromanization:%s_%s%s.far' % (nt.P, l, x.lower(),
                                                      b.SUFFIX[t])
         for l, s in pairs for x in ('ISO', s) for t in ('utf8', 'byte')}
  built = c.build(list(far.values()) + [b.far('iso')])
  to = machines.load(built[b.far('iso')])
  for l, s in pairs:
    fn = 'deromanization %s_%s' % (l, s.lower())
    g = nt.rule_of(c, built[far[l, s, 'utf8']], s)
    y = nt.rule_of(c, built[far[l, s, 'byte']], s)
    h = nt.rule_of(c, built[far[l, 'ISO', 'utf8']], 'ISO')
    iso.round_trip(c, fn, h, to['TO_' + s], g, LETTERS,
                   c.pick([2, 3], [2, 3, 4, 5]), grow=2, out=3,
                   functions=[fn, 'deromanization %s_iso' % l,
                              'iso_utf8 TO_' + s])
    ref = derom.grammar(l, s)

    def pipe(g=g, ref=ref):
      return claims.Pipe(LETTERS).apply(g, 'y').apply(ref, 'rules')
    claims.claim(c, 'rules ' + fn, pipe, c.pick([2, 5, 8], [2, 5, 8, 11]),
                 differ=('y', 'rules'), functions=[fn])
    b.total(c, g, LETTERS, fn, [3, 12])
    b.single_valued(c, g, fn, c.pick([3, 8], [3, 8, 12]))
    claims.same_bytes(c, g, y, LETTERS, fn, c.pick([2, 4], [2, 4, 6]))
  c.run()
