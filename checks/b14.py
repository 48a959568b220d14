"""B14: visual norm is its documented stages, in order."""
from nv import brahmic as b, claims, rewriter, stages, vn


def run(c):
  labels = {s: b.tsv(s, 'reading_norm') for s in b.SCRIPTS
            if s in ('Beng', 'Lepc', 'Mlym', 'Sylo')}
  lang = {(s, l, n): b.tsv(s + '/' + l, n) for s, l in vn.GRAMMARS if l
          for n in ('before_consonant', 'after_consonant')}
  built = c.build(list(labels.values()) + list(lang.values()))
  d = vn.Data(c)
  for s, l in vn.GRAMMARS:
    k = vn.name(s, l)
    g = d.vn[s, l]
    t = {n: d.rows[s, n] for n in b.TABLES}
    t['reading_norm'] = b.rows(built[labels[s]]) if s in labels else []
    own = [b.rows(built[lang[s, l, n]]) if l else ()
           for n in ('before_consonant', 'after_consonant')]
    ref = rewriter.Cascade(stages.visual_norm(t, *own), g.mealy.isyms)

    def pipe(g=g, ref=ref):
      return claims.Pipe(g.mealy.isyms).apply(g, 'y').map(
          ref.grammar.mealy, ref, 'stages')
    claims.claim(c, 'stages ' + k, pipe,
                 c.pick([2, 3], [2, 3, 4, 5]) if s == 'Deva' else
                 c.pick([2, 5], [2, 5, 7, 9]), differ=('y', 'stages'),
                 functions=['visual_norm_utf8 ' + k])
  c.run()
