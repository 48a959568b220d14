"""N04: the end-to-end archives hold the same four rules per language."""
from nv import brahmic as b, claims, machines, natural as nt


def run(c):
  labels = {(l, t): '%s/languages:%s_e2e%s.far' % (nt.P, l, b.SUFFIX[t])
            for l in nt.E2E for t in ('utf8', 'byte')}
  built = c.build(labels.values())
  for l in nt.E2E:
    for k in nt.KINDS[:3] if l in ('kn', 'te') else nt.KINDS:
      fn = '%s of %s_e2e' % (nt.key(k), l)
      g, y = (nt.rule_of(c, built[labels[l, t]], nt.key(k))
              for t in ('utf8', 'byte'))
      ref = nt.grammar(l, k)

      def pipe(g=g, ref=ref):
        return claims.Pipe(nt.alphabet()).apply(g, 'y').apply(ref, 'rules')
      claims.claim(c, fn, pipe, c.pick([2, 4], [2, 5, 7]),
                   differ=('y', 'rules'), functions=[fn])
      b.total(c, g, nt.alphabet(), fn, [3, 8])
      claims.same_bytes(c, g, y, nt.alphabet(), fn, c.pick([2, 3], [2, 4, 5]))
  c.run()
