"""B01: NFC is a total function and idempotent."""
from nv import brahmic as b, machines


def run(c):
  tsvs = {s: {n: b.tsv(s, n) for n in b.TABLES} for s in b.SCRIPTS}
  built = c.build([b.far('nfc', 'utf8'), b.far('nfc', 'byte')] +
                  [l for d in tsvs.values() for l in d.values()])
  u = machines.load(built[b.far('nfc', 'utf8')])
  y = machines.load(built[b.far('nfc', 'byte')])
  missing = [s.upper() for s in b.SCRIPTS if s.upper() not in u or
             s.upper() not in y]
  if missing:
    c.fatal('no NFC rule for ' + ' '.join(missing))
  nu = c.pick([3, 6], [3, 8, 11, 14])
  nb = c.pick([4, 9], [4, 12, 18, 24])
  al = {}
  for s in b.SCRIPTS:
    al[s.upper()] = b.alphabet({n: built[l] for n, l in tsvs[s].items()}) | b.JOINERS
  al['BRAHMIC'] = set().union(*al.values())
  for k in u:
    g = u[k]
    lab = 'nfc_utf8 ' + k
    b.single_valued(c, g, lab, nu)
    b.total(c, g, al[k], lab, nu)
    b.idempotent(c, g, lab, nu)
  for k in y:
    g = y[k]
    lab = 'nfc_byte ' + k
    b.single_valued(c, g, lab, nb, byte=True)
    b.total(c, g, range(1, 256), lab, nb, byte=True)
    b.idempotent(c, g, lab, nb, byte=True)
  c.assumptions = [
      'words of at most the bound in symbols (code points of the script, or '
      'bytes 1-255 in the byte grammars)',
      'OpenFst arcs of the compiled FAR are the code under test: the FAR is '
      'rebuilt from the working tree by the repository\'s own rules']
  c.run()
