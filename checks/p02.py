"""P02: similarity of profiles: one minus the share of the distance."""
from nv import sym
from checks import p01

FN = ['feature.%s' % f for f in (
    'Feature.Profile', 'Feature.Profile.compare', 'Feature.Profile.similarity',
    'Feature.Profile.get', 'Feature.Profile.copy', 'Feature.Set.distance',
    'Feature.Set.group_by_aspect', 'Feature.Inventory.aspect_dict')]


def choose(p, name, leaves, a, generic=True, kind=None):
  """A symbolic nonempty choice of the aspect's features, or any, or n_a."""
  bits = [p.bool('%s_%d' % (name, i)) for i in range(len(leaves))]
  out = [f for (f, _), b in zip(leaves, bits) if b]
  if generic:
    if kind is None:
      kind = p.int(name + '_generic', 0, 2)
    if kind == 1:
      out.append(a.any)
    elif kind == 2:
      out.append(a.n_a)
  return out


def least(a, at, xs, ys):
  ds = []
  for x in xs:
    for y in ys:
      if x is y or x is a.any or y is a.any:
        ds.append(0)
      elif x is a.n_a or y is a.n_a:
        ds.append(a.max_dist)
      else:
        ds.append(p01.reference(at[x], at[y]))
  return sym.least(*ds) if len(ds) > 1 else ds[0]


def profiles(trees, subset=None, kind=None):
  """Two profiles of an inventory with these aspects."""
  def harness(p):
    ft = p01.setup()
    aspects = [p01.aspect(t, p, ft, 'abc'[i]) for i, t in enumerate(trees)]
    inv = ft.Feature.Inventory('inventory', *[a for a, _ in aspects])
    p.assume(sum(a.max_dist for i, (a, _) in enumerate(aspects)
                 if subset is None or i in subset) > 0)
    one, two = [], []
    dist, most = 0, 0
    parts = []
    for i, (a, leaves) in enumerate(aspects):
      at = dict(leaves)
      sides = [choose(p, '%s%d' % (s, i), leaves, a, not i,
                      kind if s == 'x' else None) for s in 'xy']
      one += sides[0]
      two += sides[1]
      parts.append((a, at, sides))
    x = ft.Feature.Profile(inv, 'x', one)
    y = ft.Feature.Profile(inv, 'y', *two, unspecified_aspect_n_a=True)
    chosen = []
    for i, (a, at, (xs, ys)) in enumerate(parts):
      xs, ys = xs or [a.any], ys or [a.n_a]
      p.check(set(x.get(a)) == set(xs) and set(y.get(a)) == set(ys),
              'the features of a profile')
      if subset is None or i in subset:
        dist += least(a, at, xs, ys)
        most += a.max_dist
        chosen.append(a)
    args = () if subset is None else (chosen,)
    want = 1 - dist / most
    s = x.similarity(y, *args)
    p.check(sym.eq(s, want), 'similarity')
    p.check(sym.eq(y.similarity(x, *args), s), 'symmetry')
    p.check(sym.all_of(s >= 0, s <= 1), 'between 0 and 1')
    p.check(sym.eq(x.similarity(x, *args), 1), 'similar to itself')
    p.check(sym.eq(x.similarity(x.copy('z'), *args), 1), 'similar to its copy')
    p.check(sym.same(sym.eq(s, 1), sym.eq(dist, 0)), 'one without distance')
  return harness


def alien(trees):
  """Profiles of different inventories have no similarity."""
  def harness(p):
    ft = p01.setup()
    aspects = [p01.aspect(trees[0], p, ft, t)[0] for t in 'ab']
    invs = [ft.Feature.Inventory('inventory%d' % i, a)
            for i, a in enumerate(aspects)]
    for a in aspects:
      p.assume(a.max_dist > 0)
    x, y = [i.add_profile('new') for i in invs]
    p.check(sym.eq(x.similarity(y), 0), 'similarity of other inventories')
    p.check(sym.eq(y.similarity(x), 0), 'similarity of other inventories')
    p.check(sym.eq(x.similarity(invs[0].not_applicable) >= 0, True),
            'any and not applicable')
  return harness


def run(c):
  flat = [(k, 'f', 'f', 'f') for k in p01.KINDS]
  nest = [(k, 'f', (l, 'f', 'f')) for k in p01.KINDS for l in p01.KINDS
          if not c.quick or k == 'linear' or k == l]
  pair = ('linear', 'f', 'f')
  for t in flat + nest + c.pick([], [(k,) + ('f',) * 4 for k in p01.KINDS]):
    for k in range(3):
      c.explore('similarity over %s, %d' % (t, k),
                lambda n, t=t, k=k: profiles([t], None, k), [0], FN)
  for t in c.pick([pair], flat + [pair]):
    for u in ([pair] if t is pair else [('cyclic', 'f', 'f')]):
      for k in range(3):
        c.explore('similarity over %s and %s, %d' % (t, u, k),
                  lambda n, t=t, u=u, k=k: profiles([t, u], None, k), [0], FN)
        c.explore('similarity over %s of %s, %d' % (u, t, k),
                  lambda n, t=t, u=u, k=k: profiles([t, u], [1], k), [0], FN)
  for t in flat:
    c.explore('other inventories %s' % (t,), lambda n, t=t: alien([t]), [0], FN)
  c.run()
