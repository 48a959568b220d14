"""B05: what visual norm makes of well-formed text is in normal form."""
from nv import brahmic as b, claims, machines, vn


def run(c):
  d = vn.Data(c)
  n = c.pick([3, 6], [3, 6, 9, 12])
  for s, l in vn.GRAMMARS:
    g, w, nfc = d.vn[s, l], d.wf[s.upper()], d.nfc[s.upper()]
    k = vn.name(s, l)
    f = ['visual_norm_utf8 ' + k, 'wellformed_utf8 ' + s.upper()]
    known = c.known_words(k)

    def start(g=g, w=w):
      return claims.Pipe(g.mealy.isyms).where(w).apply(g, 'y')

    def idem(g=g, start=start):
      return start().apply(g, 'z', 'y')

    def isnfc(nfc=nfc, start=start):
      return start().apply(nfc, 'z', 'y')

    def closed(g=g, w=w, start=start, known=known):
      al = g.mealy.osyms | g.mealy.isyms
      p = start().watch('ill-formed', machines.rejects(w.mealy, al), 'y')
      if known:
        p.watch('known', machines.occurs(known, g.mealy.isyms))
      return p
    claims.claim(c, 'idempotent ' + k, idem, n, differ=('y', 'z'), functions=f)
    claims.claim(c, 'NFC ' + k, isnfc, n, differ=('y', 'z'),
                 functions=f + ['nfc_utf8 ' + s.upper()])
    claims.claim(c, 'well-formed ' + k, closed, n, bad=['ill-formed'],
                 good=['known'] if known else [], functions=f)
    for e in c.known(k):
      x = tuple(e['input'])
      c.known_finding(e, w.accepts(x) and any(
          not w.accepts(y) for y in g.outputs(x)))
  c.run()
