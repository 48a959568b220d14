"""B03: the pan-Brahmic NFC does to a script's text what the script's does."""
from nv import brahmic as b, claims, machines


def run(c):
  labels = [b.far('nfc', 'utf8'), b.far('nfc', 'byte')]
  built = c.build(labels)
  u = machines.load(built[labels[0]])
  for l, bounds in zip(labels, (c.pick([3, 7], [3, 8, 12]),
                                c.pick([4, 9], [4, 12, 15]))):
    g = u if l == labels[0] else machines.load(built[l])
    tok = 'utf8' if l == labels[0] else 'byte'
    for s in b.SCRIPTS:
      k = s.upper()
      if k not in g or 'BRAHMIC' not in g:
        c.fatal('no NFC rule for ' + k)

      def pipe(k=k, g=g, u=u):
        p = claims.Pipe(g[k].mealy.isyms)
        if g is not u:
          p.where(machines.Utf8Text(u[k].mealy.isyms))
        return p.apply(g[k], 'y').apply(g['BRAHMIC'], 'z')
      claims.claim(c, '%s %s' % (tok, k), pipe, bounds, differ=('y', 'z'),
                   functions=['nfc_%s %s' % (tok, k), 'nfc_%s BRAHMIC' % tok],
                   slack=0 if tok == 'utf8' else 3,
                   show=claims.show_bytes if tok == 'byte' else None)
  c.run()
