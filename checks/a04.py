"""A04: reading norm is the obligatory application of the language's table."""
from nv import abjad as ab, brahmic as b, claims, machines, rewriter


def run(c):
  labels = [ab.norm('reading_norm', l, t) for l in ab.LANGS
            for t in ('utf8', 'byte')]
  d = ab.Data(c, labels)
  n = c.pick([3, 6], [3, 6, 9])
  for l in ab.LANGS:
    k = l.upper()
    u = machines.load(d.built[ab.norm('reading_norm', l)])
    y = machines.load(d.built[ab.norm('reading_norm', l, 'byte')])
    if k not in u or k not in y:
      c.fatal('no reading norm rule ' + k)
    u, y = u[k], y[k]
    fn = 'reading_norm_utf8 ' + k
    ref = rewriter.Cascade(rewriter.table(d['reading_norm', l]), u.mealy.isyms)

    def pipe(u=u, ref=ref):
      return claims.Pipe(u.mealy.isyms).apply(u, 'y').map(
          ref.grammar.mealy, ref, 'table')
    claims.claim(c, 'table ' + k, pipe, n, differ=('y', 'table'), functions=[fn])
    b.single_valued(c, u, fn, n)
    b.total(c, u, u.mealy.isyms, fn, n)
    b.idempotent(c, u, fn, n)
    b.single_valued(c, y, 'reading_norm ' + k, c.pick([4, 9], [4, 9, 14]),
                    byte=True)
  c.run()
