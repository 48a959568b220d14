"""B12: from a script to ISO 15919 and back gives the NFC of the text."""
from nv import brahmic as b, iso, machines


def run(c):
  tsvs = {(s, n): b.tsv(s, n) for s in b.SCRIPTS for n in b.TABLES}
  built = c.build([b.far('iso'), b.far('nfc')] + list(tsvs.values()))
  g = machines.load(built[b.far('iso')])
  nfc = machines.load(built[b.far('nfc')])
  c.budget = c.pick(300, 3000)
  for s in b.SCRIPTS:
    k = s.upper()
    if 'FROM_' + k not in g or 'TO_' + k not in g:
      c.fatal('no ISO rule for ' + k)
    f, t = g['FROM_' + k], g['TO_' + k]
    tm = c.pick(80, 1500)
    fn = ['iso_utf8 FROM_' + k, 'iso_utf8 TO_' + k, 'nfc_utf8 ' + k]

    def al(s=s):
      return b.sample_alphabet(lambda n: b.rows(built[tsvs[s, n]]), 2, c.seed)
    iso.round_trip(c, k, f, t, nfc[k], lambda f=f: f.split.isyms,
                   c.pick([2] if s in ('Deva', 'Beng') else [2, 3], [2, 3, 4]),
                   timeout=tm, functions=fn)
    iso.round_trip(c, k + ', fewer letters', f, t, nfc[k], al,
                   c.pick([2, 3], [2, 3, 4, 5]), timeout=tm, functions=fn)
  c.run()
