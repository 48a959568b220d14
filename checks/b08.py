"""B08: well-formed text is exactly what the syllable structure allows."""
from nv import brahmic as b, claims, machines, regex as r

PARTS = ['consonant', 'dead_consonant', 'subjoined_consonant', 'vowel_sign',
         'vowel', 'vowel_length_sign', 'coda', 'standalone', 'virama', 'accept',
         'preserve']


def reference(t, inherent):
  """The structure, from the tables of the script."""
  p = {n: r.words([b.codes(l) for l, _ in t[n]]) for n in PARTS}
  cons = r.cat(p['consonant'], r.ques(p['subjoined_consonant']))
  link = r.alt(p['virama'], p['preserve'])
  cluster = r.cat(r.star(r.cat(cons, link)), cons)
  dead = r.ques(p['dead_consonant'])
  vowelled = r.cat(cluster, r.ques(p['vowel_sign']) if inherent
                   else p['vowel_sign'])
  tail = r.cat(r.ques(p['vowel_length_sign']), r.ques(p['coda']), dead)
  akshara = r.alt(r.cat(r.alt(p['vowel'], vowelled), tail),
                  r.cat(cluster, p['virama'], dead))
  return r.star(r.alt(akshara, p['standalone'], p['accept']))


def run(c):
  tsvs = {(s, n): b.tsv(s, n) for s in b.SCRIPTS for n in b.TABLES}
  labels = [b.far('wellformed'), b.far('wellformed', 'byte')]
  built = c.build(labels + list(tsvs.values()))
  u = machines.load(built[labels[0]])
  y = machines.load(built[labels[1]])
  n = c.pick([4, 9], [4, 9, 14])
  nb = c.pick([6, 15], [6, 15, 21])
  for s in b.SCRIPTS:
    k = s.upper()
    if k not in u or k not in y:
      c.fatal('no well-formedness rule for ' + k)
    t = {p: b.rows(built[tsvs[s, p]]) for p in b.TABLES}
    re = reference(t, s != 'Thaa')
    al = {a for p in b.TABLES for l, _ in t[p] for a in b.codes(l)
          if a >= 0x300} | b.JOINERS

    def pipe(g=u[k], re=re, al=al):
      a2 = al | g.domain.isyms
      return claims.Pipe(a2).watch(
          'rejected by the grammar', machines.rejects(g.domain, a2)).watch(
              'not in the structure', r.rejects(re, a2))
    both = ('rejected by the grammar', 'not in the structure')
    claims.claim(c, 'utf8 ' + k, pipe, n, disagree=both,
                 functions=['wellformed_utf8 ' + k])

    def bytes_(g=y[k], v=u[k], al=al):
      # The bytes of any text over the alphabet: the same verdict.
      a2 = al | v.domain.isyms
      e = machines.utf8_map(a2)
      a3 = {z for a in a2 for z in chr(a).encode()}
      return claims.Pipe(a2).map(e, lambda w: tuple(
          z for a in w for z in chr(a).encode()), 'bytes').watch(
              'rejected by the grammar', machines.rejects(v.domain, a2)).watch(
                  'rejected by the byte grammar',
                  machines.rejects(g.domain, a3), 'bytes')
    claims.claim(c, 'byte ' + k, bytes_, n,
                 disagree=('rejected by the grammar',
                           'rejected by the byte grammar'), grow=None,
                 functions=['wellformed ' + k])
  c.assumptions = ['words over the symbols of the script\'s tables and joiners']
  c.run()
