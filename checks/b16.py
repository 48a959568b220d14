"""B16: Mozhi romanization is its table, in order, and then ISO 15919 to script."""
from nv import brahmic as b, claims, iso, machines, rewriter

ASCII = {a for a in b"0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUV"
         b"WXYZ!\"#$%&'()*+,-./:;<=>?@\\^_`{|}~ \t\n\r\x0b\x0c"}


def run(c):
  tsv = b.tsv('Mlym', 'fixed')
  built = c.build([b.far('iso'), b.far('fixed'), tsv])
  g = machines.load(built[b.far('fixed')]).get('MLYM')
  to = machines.load(built[b.far('iso')]).get('TO_MLYM')
  if not (g and to):
    c.fatal('no rule')
  rows = [(tuple(map(ord, l)), tuple(map(ord, r)))
          for l, r in b.rows(built[tsv])]
  ref = rewriter.Cascade([rewriter.Stage([r]) for r in rows], ASCII)
  letters = ASCII & (to.mealy.isyms | {a for l, _ in rows for a in l})
  fn = ['fixed_utf8 MLYM', 'iso_utf8 TO_MLYM']
  iso.round_trip(c, 'table', ref.grammar, to, g, letters,
                 c.pick([2, 3], [2, 3, 4, 5]), grow=2, out=4, best=True,
                 timeout=c.pick(150, 1500), functions=fn)
  few = letters & set(b'ahntdmrlkTNL' if c.quick else b'aehntdmrlkgjTNLR')
  iso.round_trip(c, 'table, fewer letters', ref.grammar, to, g, few,
                 c.pick([3, 4], [3, 4, 5, 6]), grow=2, out=4, best=True,
                 timeout=c.pick(200, 1500), functions=fn)

  def domain():
    return claims.Pipe(ASCII).map(ref.grammar.mealy, ref, 'iso').watch(
        'rejected', machines.rejects(g.domain, ASCII)).watch(
            'rejected ISO', machines.rejects(
                to.domain, ref.grammar.mealy.osyms), 'iso')
  claims.claim(c, 'domain', domain, c.pick([2, 4], [2, 4, 7]),
               disagree=('rejected', 'rejected ISO'), functions=fn)
  c.run()
