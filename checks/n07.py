"""N07: English spellout spells a word letter by letter."""
import unicodedata

from nv import brahmic as b, claims, machines, natural as nt

LETTERS = set(map(ord, nt.string.ascii_letters))
LANGS = {'BN_BENG': 'BENGALI', 'GU_GUJR': 'GUJARATI', 'HI_DEVA': 'DEVANAGARI',
         'KN_KNDA': 'KANNADA', 'ML_MLYM': 'MALAYALAM', 'MR_DEVA': 'DEVANAGARI',
         'OR_ORYA': 'ORIYA', 'PA_GURU': 'GURMUKHI', 'SD_ARAB': 'ARABIC',
         'SI_SINH': 'SINHALA', 'TA_TAML': 'TAMIL', 'TE_TELU': 'TELUGU',
         'UR_ARAB': 'ARABIC'}
BETWEEN = {'ARAB': 0x20, 'KNDA': 0x200C, 'MLYM': 0x200C, 'TELU': 0x200C}


def run(c):
  far = {t: '%s/deromanization:en_spellout%s.far' % (nt.P, b.SUFFIX[t])
         for t in ('utf8', 'byte')}
  built = c.build(far.values())
  for k, name in LANGS.items():
    fn = 'en_spellout ' + k
    g, y = (nt.rule_of(c, built[far[t]], k) for t in ('utf8', 'byte'))
    sep = BETWEEN.get(k[3:])
    # The spelling of a letter that is not the last, from the real rule.
    a = g.outputs((ord('a'),))
    table = {}
    for x in sorted(LETTERS):
      o = g.outputs((x, ord('a')))
      if len(a) != 1 or len(o) != 1:
        continue
      o, last = next(iter(o)), next(iter(a))
      if o[len(o) - len(last):] == last:
        table[x] = o[:len(o) - len(last)]

    def reference(w, table=table, sep=sep):
      out = []
      for x in w:
        out += table.get(x, (0x3F,))
      return tuple(out[:-1] if out and out[-1] == sep else out)

    def pipe(g=g, table=table, sep=sep):
      p = claims.Pipe(LETTERS).apply(g, 'y').map(
          machines.mapping('letters', {x: table.get(x, (0x3F,))
                                       for x in LETTERS}),
          lambda w: [z for x in w for z in table.get(x, (0x3F,))], 'letters')
      return p.map(machines.mapping('case', {
          x: table.get(ord(chr(x).lower()), (0x3F,)) for x in LETTERS}),
          lambda w: [z for x in w
                     for z in table.get(ord(chr(x).lower()), (0x3F,))], 'lower')
    # Without the separator that the rule drops at the end of the word.
    bounds = c.pick([2, 6], [2, 6, 10])
    if sep is None:
      claims.claim(c, 'letter by letter ' + fn, pipe, bounds,
                   differ=('y', 'letters'), functions=[fn])
    else:
      def cut(g=g, table=table, sep=sep, pipe=pipe):
        return pipe().map(nt.drop_last(sep, {z for o in table.values()
                                             for z in o}),
                          lambda w: w[:-1] if w and w[-1] == sep else w,
                          'cut', 'letters')
      claims.claim(c, 'letter by letter ' + fn, cut, bounds,
                   differ=('y', 'cut'), functions=[fn])
    claims.claim(c, 'case of ' + fn, pipe, bounds, differ=('letters', 'lower'),
                 functions=[fn])

    def letters(g=g, name=name):
      alien = {z for z in g.mealy.osyms if not (
          z in (0x20, 0x200C) or unicodedata.name(chr(z), '').startswith(name))}
      return claims.Pipe(LETTERS).apply(g, 'y').watch(
          'of another script', machines.occurs([[alien]], g.mealy.osyms), 'y')
    claims.claim(c, 'script of ' + fn, letters, bounds,
                 bad=['of another script'], grow=7, functions=[fn])
    b.total(c, g, LETTERS, fn, c.pick([3, 8], [3, 12]))
    claims.same_bytes(c, g, y, LETTERS, fn, c.pick([2, 4], [2, 4, 6]))
  c.run()
