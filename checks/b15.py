"""B15: NFC and reading norm are the obligatory application of their tables."""
from nv import brahmic as b, claims, machines, rewriter

RN = [('Deva', 'hi'), ('Beng', ''), ('Lepc', ''), ('Mlym', '')]


def run(c):
  nfc = {s: b.tsv(s, 'nfc') for s in b.SCRIPTS}
  rn = {(s, l): b.tsv(s + '/' + l if l else s, 'reading_norm') for s, l in RN}
  built = c.build([b.far('nfc')] + list(nfc.values()) + list(rn.values()) +
                  [b.reading_norm(s, l) for s, l in RN])
  f = machines.load(built[b.far('nfc')])
  todo = []
  every = []
  for s in b.SCRIPTS:
    rows = b.rows(built[nfc[s]])
    every += rows
    todo.append(('nfc_utf8 ' + s.upper(), f.get(s.upper()), [rows]))
  todo.append(('nfc_utf8 BRAHMIC', f.get('BRAHMIC'), [every]))
  for s, l in RN:
    k = (l or s).upper()
    todo.append(('reading_norm_utf8 ' + k,
                 machines.load(built[b.reading_norm(s, l)]).get(k),
                 [b.rows(built[rn[s, l]])]))
  for lab, g, tables in todo:
    if g is None:
      c.fatal('no rule: ' + lab)
    ref = rewriter.Cascade([x for t in tables for x in rewriter.table(t)],
                           g.mealy.isyms)

    def pipe(g=g, ref=ref):
      return claims.Pipe(g.mealy.isyms).apply(g, 'y').map(
          ref.grammar.mealy, ref, 'table')
    claims.claim(c, lab, pipe, c.pick([2, 4], [2, 4, 5]) if 'BRAHMIC' in lab else
                 c.pick([3, 7], [3, 8, 12]), differ=('y', 'table'),
                 functions=[lab])
  c.run()
