"""B17: the byte archives of ISO 15919 do what the code point archives do."""
from nv import brahmic as b, claims, iso, machines


def domain(c, k, u, g):
  """The byte rule accepts the UTF-8 of what the code point rule accepts."""
  def pipe():
    al = set(range(1, 256))
    return claims.Pipe(al).watch(
        'bytes', machines.rejects(g.domain, al)).watch(
            'code points', machines.rejects(machines.in_bytes(u.domain), al))
  claims.claim(c, 'accepts ' + k, pipe, c.pick([3, 9], [3, 9, 18]),
               disagree=('bytes', 'code points'), show=claims.show_bytes,
               functions=['iso_utf8 ' + k, 'iso ' + k])


def run(c):
  tsvs = {(s, n): b.tsv(s, n) for s in b.SCRIPTS for n in b.TABLES}
  far = {k: b.far(*k) for k in [('iso', 'utf8'), ('iso', 'byte'),
                                ('fixed', 'utf8'), ('fixed', 'byte')]}
  built = c.build(list(far.values()) + list(tsvs.values()))
  f = {k: machines.load(built[l]) for k, l in far.items()}
  c.budget = c.pick(300, 3000)
  u, y = f['iso', 'utf8'], f['iso', 'byte']

  def letters(s, k):
    native = b.sample_alphabet(lambda n: b.rows(built[tsvs[s, n]]), 2, c.seed)
    if k.startswith('FROM'):
      return native
    out = {a for z in native for o in u['FROM_' + s.upper()].best((z,)) for a in o}
    return out | set(map(ord, 'aih'))

  for s in b.SCRIPTS:
    for k in ('FROM_' + s.upper(), 'TO_' + s.upper()):
      if k not in u or k not in y:
        c.fatal('no ISO rule ' + k)
      fn = ['iso_utf8 ' + k, 'iso ' + k]
      tm = c.pick(80, 1500)
      iso.bytes_agree(c, k, u[k], y[k], lambda k=k: u[k].split.isyms,
                      c.pick([1, 2], [2, 3, 4]), timeout=tm, functions=fn)
      iso.bytes_agree(c, k + ', fewer letters', u[k], y[k],
                      lambda s=s, k=k: letters(s, k), c.pick([3], [3, 4, 5]),
                      timeout=tm, functions=fn)
      domain(c, k, u[k], y[k])
  iso.bytes_agree(c, 'fixed MLYM', f['fixed', 'utf8']['MLYM'],
                  f['fixed', 'byte']['MLYM'],
                  lambda: f['fixed', 'utf8']['MLYM'].split.isyms,
                  c.pick([2], [2, 3]), timeout=c.pick(80, 1500),
                  functions=['fixed_utf8 MLYM', 'fixed MLYM'])
  c.run()
