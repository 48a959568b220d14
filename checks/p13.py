"""P13: inventories of phonemes: indices, languages, atomics that follow."""
from nv import pyx

FN = ['phonological_symbol.%s' % f for f in (
    'PhonologicalSymbol.update_descriptives',
    'PhonologicalSymbol.update_descriptives_from_symbol',
    'PhonologicalSymbol.has_feature',
    'PhonologicalSymbol.Inventory._add_symbol_and_atomic',
    'PhonologicalSymbol.Inventory.or_from_suppl',
    'PhonologicalSymbol.Inventory.sync_atomics', 'Phon.__init__', 'Phon.copy',
    'Phon.Inventory._add_phoneme', 'Phon.Inventory.add_phonemes')] + [
        'symbol.Symbol.add_features', 'expression.Atomic.get_instance',
        'expression.Or.add', 'feature.Feature.Profile.update']
LANGS = ['x_uni', 'en', 'hi']


def module():
  pyx.stand_ins()
  from nisaba.scripts.natural_translit.phonology import phonological_symbol
  return phonological_symbol


def options(po):
  f = po.Phon.DESCRIPTIVE_FEATURES
  return [f.height.open, f.height.close, f.backness.front, f.voicing.any,
          f.duration.long]


def shown(symbol):
  """The features of a symbol, by aspect."""
  return {(profile.inventory.alias, aspect.alias): frozenset(
      map(id, profile.get(aspect))) for profile in symbol.features
          for aspect in profile.inventory}


def follow(n):
  def harness(p):
    po = module()
    every = options(po)
    lang = LANGS[int(p.int('language', 0, len(LANGS) - 1))]
    language = getattr(po.Phon.LANGUAGE, lang)
    inv = po.Phon.Inventory(language)
    made = [po.Phon(alias=a, ipa=a, features=po.Phon.DESCRIPTIVE_FEATURES.vowel)
            for a in ('a', 'b')]
    made.append(po.Phon(alias='a', ipa='c'))
    held, ors, start = [], {}, {}
    supplements = {}
    for i in range(n):
      op = int(p.int('op%d' % i, 0, 4))
      if op in (0, 1):
        x = made[int(p.int('phoneme%d' % i, 0, 2))]
        new = x not in held and x.alias not in [h.alias for h in held]
        name = 'list%d' % i if op else ''
        was = x.index, x.language
        got = inv.add_phonemes(x, list_alias=name)
        p.check(new or (x.index, x.language) == was, 'not added, not changed')
        p.check(got == ([x] if new else []), 'what is added')
        if new:
          held.append(x)
          start[id(x)] = x.index
        if name:
          supplements[name] = list(got)
      elif held:
        x = held[int(p.int('of%d' % i, 0, len(held) - 1))]
        if op == 2:
          old = shown(x)
          v = every[int(p.int('feature%d' % i, 0, len(every) - 1))]
          x.update_descriptives(v)
          now = shown(x)
          k = ('descriptive', v.aspect.alias)
          p.check(now[k] == {id(v)} and all(
              now[j] == old[j] for j in old if j != k), 'update_descriptives')
          p.check(bool(x.has_feature(v)), 'has_feature')
        elif op == 3:
          y = held[int(p.int('from%d' % i, 0, len(held) - 1))]
          old = shown(y)
          x.update_descriptives_from_symbol(y)
          p.check(shown(x) == old and shown(y) == old, 'from another phoneme')
        elif supplements:
          name = list(supplements)[int(p.int('list%d' % i, 0,
                                             len(supplements) - 1))]
          if x not in supplements[name]:
            supplements[name].append(x)
            inv.get(name).add(x)
    inv.sync_atomics([inv.get(s) for s in supplements])
    base = 3000000 + int(language.index) * 100
    p.check(list(inv) == held, 'phonemes')
    p.check([h.index for h in held] == [base + k + 1 for k in range(len(held))],
            'indices')
    for h in held:
      p.check(h.index == start[id(h)], 'an index stays')
      p.check(h.language is language, 'language')
      p.check(bool(h.has_feature(language)), 'has the language')
      p.check(inv.get(h.alias) is h and inv.index_lookup(h.index) is h, 'found')
      t = inv.atomics.get(h.alias)
      p.check(t.symbol is h and t.index == h.index, 'atomic')
      p.check(shown(t) == shown(h), 'features of the atomic')
    p.check([t.symbol for t in inv.atomics] == held, 'atomics')
    for name, items in supplements.items():
      p.check(list(inv.get(name)) == items, 'supplement')
      p.check([t.symbol for t in inv.atomics.get(name)] == items, 'alternatives')
  return harness


def copies(p):
  po = module()
  every = options(po)
  x = po.Phon(alias='x', ipa='i', index=p.int('index', 1, 9),
              features=po.Phon.DESCRIPTIVE_FEATURES.vowel)
  x.language = getattr(po.Phon.LANGUAGE, LANGS[int(p.int('language', 0, 2))])
  for i, f in enumerate(every):
    if p.bool('has%d' % i):
      x.add_features(f)
  old = shown(x)
  with_alias, with_ipa = bool(p.bool('alias')), bool(p.bool('ipa'))
  with_lang = bool(p.bool('lang'))
  lang = po.Phon.LANGUAGE.bn
  y = x.copy(**({'language': lang} if with_lang else {}),
             alias='y' if with_alias else '', ipa='j' if with_ipa else '')
  p.check(shown(y) == old, 'features of the copy')
  p.check(y.alias == ('y' if with_alias else 'x'), 'alias of the copy')
  p.check(y.ipa == ('j' if with_ipa else 'i'), 'ipa of the copy')
  p.check(y.language is (lang if with_lang else x.language), 'language')
  p.check(y.index == x.index and y.name == x.name, 'index and name')
  y.update_descriptives(every[int(p.int('other', 0, len(every) - 1))])
  p.check(shown(x) == old, 'the original stands alone')


def run(c):
  c.explore('inventory', follow, c.pick([2, 3], [2, 3, 4]), FN)
  c.explore('copies', lambda n: copies, [0], FN)
  c.run()
