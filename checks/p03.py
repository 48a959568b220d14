"""P03: sets of features are sets; membership goes through nested lists."""
from nv import sym
from checks import p01

FN = ['feature.%s' % f for f in (
    'Feature.Set', 'Feature.Set.add', 'Feature.Set.remove',
    'Feature.Set.replace', 'Feature.Set.update', 'Feature.Set.copy',
    'Feature.Set.union', 'Feature.Set.intersection', 'Feature.Set.difference',
    'Feature.Set.is_equal', 'Feature.Set.group_by_aspect',
    'Feature.Set.non_generic', 'Feature.Set.has_feature',
    'Feature.ValueList.range', 'Feature.ValueList.has_feature',
    'Feature.Aspect.set', 'Feature.Aspect.set_not', 'Feature.Aspect.set_range',
    'Feature.Aspect.has_feature', 'Feature.Profile.update',
    'Feature.Profile.has_feature', 'Feature.MultiProfile.new_profile',
    'value_in')] + ['symbol.Symbol.add_features', 'symbol.Symbol.has_feature']


def world(p):
  """Two aspects of one inventory and one of another."""
  ft = p01.setup()
  f = ft.Feature
  a = f.Aspect(f.linear('a', f('a1'), f.cyclic('an', f('a2'), f.equidistant(
      'am', f('a3'), f.linear('ao', f('a4'), f('a5'))))))
  b = f.Aspect(f.equidistant('b', f('b1'), f('b2')))
  d = f.Aspect(f.equidistant('d', f('d1'), f('d2')))
  one, two = f.Inventory('one', a, b), f.Inventory('two', d)
  return ft, a, b, d, one, two


def bits(p, name, features):
  return [x for i, x in enumerate(features) if p.bool('%s%d' % (name, i))]


def algebra(p):
  ft, a, b, d, *_ = world(p)
  S = ft.Feature.Set
  every = [a.a1, a.a2, b.b1, d.d1, a.any, b.n_a][:4]
  x, y = (bits(p, n, every) for n in 'xy')
  X, Y = set(x), set(y)
  s, t = S(*x), S(x)
  p.check(set(s) == X and set(t) == X and len(s) == len(X), 'made of features')
  p.check(set(S(s, y[:1], [y[1:]])) == X | Y, 'made of sets')
  p.check(set(s.union(*y)) == X | Y, 'union')
  p.check(set(s.union(S(y))) == X | Y, 'union')
  p.check(set(s.intersection(S(y))) == X & Y, 'intersection')
  p.check(set(s.difference(S(y))) == X - Y, 'difference')
  p.check(set(s) == X, 'operands')
  p.check(s.is_equal(S(y)) == (X == Y), 'is_equal')
  p.check(set(t.add(*y)) == X | Y and t.is_equal(s.union(y)), 'add')
  p.check(set(t.remove(*y)) == X - Y, 'remove')
  c = s.copy()
  p.check(set(c.replace((x[:1],), (y,))) == (X - set(x[:1])) | Y, 'replace')
  p.check(set(s) == X, 'a copy stands alone')
  p.check(set(c.update(y)) == Y and set(c.reset()) == set(), 'update')
  got = {}
  for i, aspects in S.group_by_aspect(x, S(y)).items():
    for k, v in aspects.items():
      p.check(k.inventory is i and k not in got, 'grouped by inventory')
      got[k] = set(v)
  want = {}
  for f in X | Y:
    want.setdefault(f.aspect, set()).add(f)
  p.check(got == want, 'grouped by aspect')


def generic(p):
  ft, a, b, *_ = world(p)
  x = bits(p, 'x', [a.a1, a.a3, a.any, b.n_a, b.b2])
  p.check(set(ft.Feature.Set(x).non_generic()) ==
          set(x) - {a.any, a.n_a, b.any, b.n_a}, 'non_generic')
  p.check(set(a.filter(*x)) == {f for f in x if f.aspect is a}, 'filter')


def inside(x, v):
  """A feature of x is v, or stands in the list v, at any depth."""
  return any(f is v or v in lists(f) for f in x)


ABOVE = {'a1': ('a',), 'a2': ('an', 'a'), 'a3': ('am', 'an', 'a'),
         'a4': ('ao', 'am', 'an', 'a'), 'a5': ('ao', 'am', 'an', 'a'), 'b1': ('b',),
         'b2': ('b',), 'd1': ('d',), 'd2': ('d',)}


def lists(f):
  return [getattr(f.aspect, l) for l in ABOVE.get(f.alias, ())]


def membership(p):
  from nisaba.scripts.natural_translit.utils import symbol
  ft, a, b, d, one, two = world(p)
  values = [a.a1, a.a2, a.a3, a.a4, b.b1, a.a, a.an, a.am, a.ao, b.b, d.d, a.any, b.n_a]
  x = bits(p, 'x', [a.a1, a.a2, a.a3, a.a4, b.b1, d.d1, b.n_a])
  s = ft.Feature.Set(x)
  for v in values:
    p.check(bool(s.has_feature(v)) == inside(x, v), 'has_feature of a set')
    p.check(bool(v.is_in(s)) == inside(x, v), 'is_in a set')
  mine = [f for f in x if f.aspect is not d]
  profile = one.add_profile('profile', x)
  multi = ft.Feature.MultiProfile('multi')
  multi.new_profile(profile)
  full = mine + [k.any for k in (a, b) if not any(f.aspect is k for f in x)]
  sy = symbol.Symbol('symbol')
  sy.features.new_profile(profile)
  for v in values:
    w = inside(full, v)
    p.check(bool(profile.has_feature(v)) == w, 'has_feature of a profile')
    p.check(bool(v.is_in(profile)) == w, 'is_in a profile')
    p.check(bool(v.is_in(multi)) == w, 'is_in profiles')
    p.check(bool(sy.has_feature(v)) == w, 'has_feature of a symbol')
  own = (a.a, a.an, a.am, a.ao, b.b)
  for v in (a.a1, a.a2, a.a3, a.a4, a.a5, b.b1, d.d1):
    for o in own + (a, b, d):
      l = o if o in own else getattr(o, o.alias)
      w = inside([v], l)
      p.check(bool(v.is_in(o)) == w and bool(o.has_feature(v)) == w,
              'a feature in a list or aspect')
  p.check(a.an.is_in(a.a) and a.an.is_in(a) and not a.an.is_in(b) and
          not b.b.is_in(a.a) and a.ao.is_in(a.a) and a.ao.is_in(a.an),
          'a list in a list or aspect')


def ranges(n):
  """range, set_range, set and set_not, over a list with a list in it."""
  def harness(p):
    ft = p01.setup()
    f = ft.Feature
    at = p.int('at', 0, n - 1)
    kind = p01.KINDS[p.int('kind', 0, 2)]
    items, flat = [], []
    for i in range(n):
      if at == i:
        fs = [f('n1'), f('n2')]
        items.append(f.linear('nested', *fs))
      else:
        fs = [f('f%d' % i)]
        items += fs
      flat.append(fs)
    l = getattr(f, kind)('l', *items)
    a = f.Aspect(l)
    f.Inventory('inventory', a)
    i, j = p.int('i', 0, n - 1), p.int('j', 0, n - 1)
    p.assume(i != j)
    i, j = int(i), int(j)
    k, want = i, set(flat[i])
    while k != j:
      k = (k + 1) % n
      want |= set(flat[k])
    p.check(set(l.range(items[i], items[j])) == want, 'range')
    a.set_range('r', items[i], items[j])
    a.set('s', items[i], flat[j])
    a.set_not('t', items[i], flat[j])
    every = {x for y in flat for x in y}
    p.check(set(a.r) == want, 'set_range')
    p.check(set(a.s) == set(flat[i]) | set(flat[j]), 'set')
    p.check(set(a.t) == every - set(flat[i]) - set(flat[j]), 'set_not')
    p.check(set(a.all) == every and set(a) == every, 'all')
  return harness


def added(p):
  """add_features and update change the aspects they name, and no others."""
  from nisaba.scripts.natural_translit.utils import symbol
  ft, a, b, d, one, two = world(p)
  f = ft.Feature
  x = bits(p, 'x', [a.a1, a.n_a, b.b1])
  y = bits(p, 'y', [a.a2, b.b1, b.b2, d.d1])
  sy = symbol.Symbol('symbol')
  other = symbol.Symbol('other')
  profile = one.add_profile('profile', x)
  for s in (sy, other):
    s.features.new_profile(profile)
  sy.add_features(*y)

  def has(k, fs):
    return {v for v in fs if v.aspect is k}
  for k in (a, b):
    old, new = has(k, x) or {k.any}, has(k, y)
    p.check(set(sy.features.one.get(k)) ==
            ((old - {k.any}) | new if new else old), 'add_features')
    p.check(set(other.features.one.get(k)) == old and
            set(profile.get(k)) == old, 'other profiles')
  p.check(not sy.features.has_profile(two), 'no new profile')
  copy = profile.copy('copy')
  copy.update(y)
  for k in (a, b):
    p.check(set(copy.get(k)) == (has(k, y) or has(k, x) or {k.any}), 'update')
    p.check(set(profile.get(k)) == (has(k, x) or {k.any}), 'the original')
  p.check(set(copy.get(d)) == {d.n_a}, 'an aspect of another inventory')
  na = f.Profile(one, 'na', x, unspecified_aspect_n_a=True)
  for k in (a, b):
    p.check(set(na.get(k)) == (has(k, x) or {k.n_a}), 'not applicable')
    p.check(k.is_applicable(na) == (k.n_a not in (has(k, x) or {k.n_a})),
            'is_applicable')


def run(c):
  for name, h in (('algebra', algebra), ('generic', generic),
                  ('membership', membership), ('added features', added)):
    c.explore(name, lambda n, h=h: h, [0], FN)
  c.explore('ranges', ranges, c.pick([3, 5], [3, 5, 7, 9]), FN)
  c.run()
