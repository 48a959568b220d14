"""A08: the byte grammars of Perso-Arabic do what the code point grammars do."""
import random

from nv import abjad as ab, claims, machines


def run(c):
  rn = ['ur', 'ks', 'ckb', 'fa', 'sd', 'ug']
  langs = c.pick(['ar', 'ckb', 'ks', 'ms', 'sd', 'ur'], ab.LANGS)
  want = [ab.far(n, t) for n in ('nfc', 'reversible_roman')
          for t in ('utf8', 'byte')]
  want += [ab.norm(k, l, t) for k, ls in (('visual_norm', langs),
                                          ('reading_norm', rn))
           for l in ls for t in ('utf8', 'byte')]
  d = ab.Data(c, want)
  rnd = random.Random(c.seed)
  f = {x: machines.load(d.built[ab.far(*x)]) for x in
       [(n, t) for n in ('nfc', 'reversible_roman') for t in ('utf8', 'byte')]}
  u, y = f['nfc', 'utf8']['ARAB'], f['nfc', 'byte']['ARAB']
  claims.same_bytes(c, u, y, u.mealy.isyms, 'nfc', c.pick([2, 4], [2, 5, 7]))
  letters = {ord(x) for l, _ in d['reversible_roman'] for x in l}
  roman = {ord(x) for _, r in d['reversible_roman'] for x in r}
  for k, al in (('FROM_ARAB', letters), ('TO_ARAB', roman)):
    some = set(rnd.sample(sorted(al), min(len(al), 40)))
    p = [ab.grammar(c, d.built[ab.far('reversible_roman', t)], k, some, t)
         for t in ('utf8', 'byte')]
    claims.same_bytes(c, *p, some, 'reversible_roman ' + k, c.pick([2, 3], [2, 4, 5]))
  for kind, ls in (('reading_norm', rn), ('visual_norm', langs)):
    for l in ls:
      al = d.vn_symbols(l, c.seed, 3) | ab.symbols(d['reading_norm', l])
      p = [ab.grammar(c, d.built[ab.norm(kind, l, t)], l.upper(), al, t)
           for t in ('utf8', 'byte')]
      claims.same_bytes(c, *p, al, '%s %s' % (kind, l.upper()), c.pick([2, 3], [2, 4, 6]))
  c.run()
