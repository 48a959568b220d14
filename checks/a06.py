"""A06: visual norm is the documented stages, in order and by position."""
from nv import abjad as ab, claims, machines, rewriter


def reference(d, lang, alphabet):
  r = lambda n: ab.chars(d[n, lang])
  st = [s for t in ('presentation_forms', 'nfc', 'visual_norm')
        for s in rewriter.table(d[t])] + rewriter.table(d['visual_norm', lang])
  st += [rewriter.Stage(r('visual_norm_nonfinal'), None, rewriter.ANY),
         rewriter.Stage(r('visual_norm_final_isolated'), rewriter.ANY,
                        rewriter.EOS),
         rewriter.Stage(r('visual_norm_final_isolated') +
                        r('visual_norm_isolated'), 'bos', rewriter.EOS)]
  return rewriter.Cascade(st, alphabet)


def run(c):
  d = ab.Data(c, [ab.norm('visual_norm', l) for l in ab.LANGS])
  for l in ab.LANGS:
    k = l.upper()
    al = d.vn_symbols(l, c.seed)
    g = ab.grammar(c, d.built[ab.norm('visual_norm', l)], k, al)
    ref = reference(d, l, al)

    def pipe(g=g, ref=ref, al=al):
      return claims.Pipe(al).apply(g, 'y').map(ref.grammar.mealy, ref, 'stages')
    claims.claim(c, 'stages ' + k, pipe, c.pick([3, 4], [3, 5, 6]),
                 differ=('y', 'stages'), functions=['visual_norm_utf8 ' + k])
  c.run()
