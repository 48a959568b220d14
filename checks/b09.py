"""B09: the conversions to and from ISO 15919 have one best output."""
from nv import brahmic as b, iso, machines


def run(c):
  tsvs = {(s, n): b.tsv(s, n) for s in b.SCRIPTS for n in b.TABLES}
  built = c.build([b.far('iso'), b.far('fixed')] + list(tsvs.values()))
  g = machines.load(built[b.far('iso')])
  fx = machines.load(built[b.far('fixed')])
  c.budget = c.pick(300, 3000)
  for s in b.SCRIPTS:
    k = s.upper()
    if 'FROM_' + k not in g or 'TO_' + k not in g:
      c.fatal('no ISO rule for ' + k)
    f, t = g['FROM_' + k], g['TO_' + k]
    n = c.pick([2] if s in ('Deva', 'Beng') else [2, 3], [2, 3, 4])
    tm = c.pick(80, 1500)

    def al(s=s):
      return b.sample_alphabet(lambda n: b.rows(built[tsvs[s, n]]), 2, c.seed)
    iso.single_best(c, 'FROM ' + k, f, lambda f=f: f.split.isyms, n, timeout=tm,
                    functions=['iso_utf8 FROM_' + k])
    iso.single_best(c, 'FROM %s, fewer letters' % k, f, al,
                    c.pick([2, 3], [2, 3, 4, 5]), timeout=tm,
                    functions=['iso_utf8 FROM_' + k])
    iso.single_best(c, 'TO ' + k, t, lambda t=t: t.split.isyms, n, timeout=tm,
                    functions=['iso_utf8 TO_' + k])
  m = fx['MLYM']
  iso.single_best(c, 'fixed MLYM', m, lambda: m.split.isyms,
                  c.pick([2, 3], [2, 3, 4]), timeout=c.pick(80, 1500),
                  functions=['fixed_utf8 MLYM'])
  c.run()
