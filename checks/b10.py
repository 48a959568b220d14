"""B10: the pan-Brahmic romanization does what the script's own does."""
from nv import brahmic as b, claims, iso, machines


def run(c):
  built = c.build([b.far('iso'), b.far('iso', 'byte')])
  u = machines.load(built[b.far('iso')])
  y = machines.load(built[b.far('iso', 'byte')])
  if 'FROM_BRAHMIC' not in y:
    c.fatal('no FROM_BRAHMIC')
  g = y['FROM_BRAHMIC']
  g.split   # before the workers are made
  b.total(c, g, range(1, 256), 'iso FROM_BRAHMIC', c.pick([3, 8], [3, 8, 16]),
          byte=True, slack=0)
  c.budget = c.pick(300, 3000)
  for s in b.SCRIPTS:
    k = s.upper()
    if 'FROM_' + k not in u or 'FROM_' + k not in y:
      c.fatal('no ISO rule for ' + k)
    al = {a for a in u['FROM_' + k].split.isyms
          if a >= 0x300 and a not in b.JOINERS}
    w = max(len(chr(a).encode()) for a in al)
    leave = [bytes(p) for e in c.known(k) for p in e['leftover']]
    big = s in ('Deva', 'Beng', 'Mlym', 'Sinh', 'Gujr', 'Orya', 'Knda', 'Telu',
                'Guru', 'Tirh')
    iso.agree(c, k, y['FROM_' + k], g, machines.Utf8Text(al),
              c.pick([w, 2 * w] if big else [w, 2 * w, 3 * w],
                     [w, 2 * w, 3 * w, 4 * w]), timeout=c.pick(100, 1500),
              show=claims.show_bytes, slack=w - 1, leave=leave,
              functions=['iso FROM_' + k, 'iso FROM_BRAHMIC'])
    for e in c.known(k):
      x = tuple(e['input'])
      c.known_finding(e, set(y['FROM_' + k].best(x)) != set(g.best(x)))
  # What is not Brahmic is passed through.
  latin = machines.Utf8Text(set(range(1, 128)) | {0xE9, 0x0101, 0x0915})
  ident = machines.Identity({z for a in latin.alphabet for z in chr(a).encode()})
  iso.agree(c, 'other text', ident, g,
            machines.Utf8Text(latin.alphabet - {0x0915}),
            c.pick([2, 4], [2, 4, 6]), show=claims.show_bytes, slack=1,
            functions=['iso FROM_BRAHMIC'])
  for e in c.known('utf8'):
    x = tuple(e['input'])
    c.known_finding(e, u['FROM_BRAHMIC'].best(x) != u['FROM_' + e['script']]
                    .best(x))
  c.run()
