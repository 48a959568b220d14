"""B11: the byte grammars do what the code point grammars do."""
from nv import brahmic as b, claims, machines, vn


def utf8(w):
  return tuple(z for a in w for z in chr(a).encode())


def add(c, u, y, lab, bounds, **kw):
  def pipe():
    al = u.mealy.isyms
    return claims.Pipe(al).apply(u, 'y').map(
        machines.utf8_map(al), utf8, 'xb').apply(y, 'z', 'xb').map(
            machines.utf8_map(al | u.mealy.osyms), utf8, 'yb', 'y')
  claims.claim(c, lab, pipe, bounds, differ=('yb', 'z'),
               functions=[lab + ' (utf8)', lab + ' (byte)'], grow=None, **kw)


def run(c):
  want = [b.far('nfc'), b.far('nfc', 'byte')]
  rn = [('Deva', 'hi'), ('Beng', ''), ('Lepc', ''), ('Mlym', '')]
  for t in ('utf8', 'byte'):
    want += [b.visual_norm(s, l, t) for s, l in vn.GRAMMARS]
    want += [b.reading_norm(s, l, t) for s, l in rn]
  built = c.build(want)
  f = {l: machines.load(p) for l, p in built.items()}
  for k in sorted(f[want[0]]):
    add(c, f[want[0]][k], f[want[1]][k], 'nfc ' + k,
        c.pick([2], [2, 3, 4]) if k == 'BRAHMIC' else
        c.pick([2, 4], [2, 5, 8]))
  for s, l in rn:
    k = vn.name(s, l)
    add(c, f[b.reading_norm(s, l)][k], f[b.reading_norm(s, l, 'byte')][k],
        'reading_norm ' + k, c.pick([2, 4], [2, 5, 8]))
  for s, l in vn.GRAMMARS:
    k = vn.name(s, l)
    add(c, f[b.visual_norm(s, l)][k], f[b.visual_norm(s, l, 'byte')][k],
        'visual_norm ' + k, c.pick([2], [2, 3, 4]) if s == 'Deva' else
        c.pick([2, 3], [2, 4, 6]))
  for t in (b.visual_norm, b.reading_norm):
    for s, l in (vn.GRAMMARS if t is b.visual_norm else rn):
      g = f[t(s, l, 'byte')][vn.name(s, l)]
      b.total(c, g, range(1, 256), '%s (byte) %s' % (
          t.__name__, vn.name(s, l)), c.pick([3, 9], [3, 9, 18]), byte=True)
  c.run()
