"""B13: reading norm is a total function, idempotent but for doubled vowel signs."""
from nv import brahmic as b, claims, machines, vn

GRAMMARS = [('Deva', 'hi'), ('Beng', ''), ('Lepc', ''), ('Mlym', '')]


def run(c):
  want = [b.reading_norm(s, l) for s, l in GRAMMARS]
  tsvs = {(s, n): b.tsv(s, n) for s, _ in GRAMMARS for n in b.TABLES}
  built = c.build(want + [b.far('nfc'), b.far('wellformed')] +
                  list(tsvs.values()))
  nfc = machines.load(built[b.far('nfc')])
  for s, l in GRAMMARS:
    k = vn.name(s, l)
    g = machines.load(built[b.reading_norm(s, l)])[k]
    lab = 'reading_norm_utf8 ' + k
    n = c.pick([3, 6], [3, 6, 9])
    al = b.alphabet({x: built[tsvs[s, x]] for x in b.TABLES}) | b.JOINERS
    b.single_valued(c, g, lab, n)
    b.total(c, g, al | nfc[s.upper()].domain.isyms, lab, n)
    vs = {b.codes(a)[0] for a, _ in b.rows(built[tsvs[s, 'vowel_sign']])}
    al2 = g.mealy.isyms

    def pipe(g=g, vs=vs, al2=al2):
      return claims.Pipe(al2).watch('doubled vowel sign', machines.occurs(
          [[{a}, {a}] for a in vs & al2], al2)).apply(g, 'y').apply(
              g, 'z', 'y')
    claims.claim(c, 'idempotent ' + lab, pipe, n, differ=('y', 'z'),
                 good=['doubled vowel sign'], functions=[lab])
  c.run()
