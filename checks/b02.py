"""B02: NFC agrees with Unicode's."""
import unicodedata as ud

from nv import brahmic as b, claims, machines


def d(a):
  return tuple(map(ord, ud.normalize('NFD', chr(a))))


def decompose(word):
  return tuple(y for a in word for y in d(a))


def out_of_order(alphabet):
  """Bad: the full decomposition is not in canonical order."""
  def step(s, a):
    if s == 'BAD':
      return s
    for y in d(a):
      k = ud.combining(chr(y))
      if k and s > k:
        return 'BAD'
      s = k
    return s
  return machines.automaton('out of canonical order', 0, step,
                            lambda s: s == 'BAD', alphabet)


def not_nfc(alphabet):
  """Bad: some symbol, or pair of neighbours, changes under Unicode's NFC."""
  def bad1(a):
    return ud.normalize('NFC', chr(a)) != chr(a)

  def step(s, a):
    if s == 'BAD' or bad1(a):
      return 'BAD'
    # The last symbol matters only if it composes with something.
    if s and ud.normalize('NFC', chr(s) + chr(a)) != chr(s) + chr(a):
      return 'BAD'
    return a if a in firsts else 0
  firsts = {p for p in alphabet for q in alphabet
            if not bad1(p) and not bad1(q) and
            ud.normalize('NFC', chr(p) + chr(q)) != chr(p) + chr(q)}
  return machines.automaton('not in NFC', 0, step, lambda s: s == 'BAD',
                            alphabet)


def run(c):
  label = b.far('nfc')
  tsvs = {s: {n: b.tsv(s, n) for n in b.TABLES} for s in b.SCRIPTS}
  built = c.build([label] + [l for t in tsvs.values() for l in t.values()])
  u = machines.load(built[label])
  bounds = c.pick([3, 7], [3, 8, 12])
  for s in b.SCRIPTS:
    k = s.upper()
    if k not in u:
      c.fatal('no NFC rule for ' + k)
    g = u[k]
    lab = 'nfc_utf8 ' + k

    def al(g=g, s=s):
      a = {x for x in g.mealy.isyms | g.mealy.osyms |
           b.alphabet({n: built[l] for n, l in tsvs[s].items()})
           if x < 0x110000}
      return a | {y for x in a for y in d(x)} | {
          y for x in a for y in map(ord, ud.normalize('NFC', chr(x)))}

    def equiv(g=g, al=al):
      m = machines.mapping('NFD', {a: d(a) for a in al()})
      return claims.Pipe(g.mealy.isyms).watch(
          'order', out_of_order(g.mealy.isyms)).apply(g, 'y').map(
              m, decompose, 'dx').map(m, decompose, 'dy', 'y')

    def composed(g=g, al=al):
      return claims.Pipe(g.mealy.isyms).watch(
          'order', out_of_order(g.mealy.isyms)).apply(g, 'y').watch(
              'not NFC', not_nfc(al()), 'y')
    claims.claim(c, 'canonically equivalent ' + k, equiv, bounds,
                 differ=('dx', 'dy'), good=['order'], functions=[lab])
    claims.claim(c, 'composed ' + k, composed, bounds, bad=['not NFC'],
                 good=['order'], functions=[lab])
  c.run()
