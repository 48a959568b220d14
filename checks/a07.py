"""A07: visual norm reads presentation forms as what Unicode says they stand for."""
import random
import unicodedata as ud

from checks.b02 import out_of_order
from nv import abjad as ab, claims, machines


def compat(a):
  p = ud.decomposition(chr(a)).split() if ab.presentation(a) else ()
  return tuple(int(x, 16) for x in p[1:]) or (a,)


def run(c):
  d = ab.Data(c, [ab.norm('visual_norm', l) for l in ab.LANGS])
  forms = sorted({ord(l) for l, _ in d['presentation_forms'] if len(l) == 1})
  rnd = random.Random(c.seed)
  rnd.shuffle(forms)
  each = -(-len(forms) // len(ab.LANGS))
  for i, l in enumerate(ab.LANGS):
    k = l.upper()
    # Every form is tried with some language.
    some = forms[i * each:(i + 1) * each]
    al = set(some) | d.vn_symbols(l, c.seed, 2)
    al |= {y for a in al for y in compat(a)}
    g = ab.grammar(c, d.built[ab.norm('visual_norm', l)], k, al)

    def pipe(g=g, al=al):
      m = machines.mapping('compatibility', {a: compat(a) for a in al})
      return claims.Pipe(al).apply(g, 'y').map(
          m, lambda w: tuple(y for a in w for y in compat(a)), 'k').watch(
                  'order', out_of_order(al), 'k').apply(g, 'z', 'k')
    claims.claim(c, 'presentation forms ' + k, pipe, c.pick([2, 3], [2, 3, 4]),
                 differ=('y', 'z'), good=['order'],
                 functions=['visual_norm_utf8 ' + k], grow=None)
  c.run()
