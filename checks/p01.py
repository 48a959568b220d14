"""P01: distances of features follow from the lists they stand in."""
from nv import pyx, sym

FN = ['feature.%s' % f for f in (
    'Feature.ValueList.distance', 'Feature.ValueList.populate',
    'Feature.add_distance', 'Feature.Aspect.add_distance',
    'Feature.Aspect.populate', 'Feature.distance', 'Feature.Set.distance')]

KINDS = ('equidistant', 'linear', 'cyclic')


def trees(n):
  """Lists of up to n items: a kind and items, which may be lists."""
  flat = [(k,) + ('f',) * m for k in KINDS for m in range(2, n + 1)]
  two = [(k,) + x for k in KINDS for l in KINDS for x in (
      ('f', (l, 'f', 'f', 'f'), 'f', 'f'), ((l, 'f', 'f'), (l, 'f', 'f'), 'f'),
      ((l, 'f'), 'f', 'f', 'f', (l, 'f', 'f')))]
  three = [(k, 'f', (l, (m, 'f', 'f', 'f'), 'f', 'f'), 'f')
           for k in KINDS for l in KINDS for m in KINDS]
  return flat + two + (three if n > 4 else three[::4])


def grow(p, ft, tree, tag, leaves, at=()):
  """The real list of a tree; leaves: [(feature, [(kind, size, i, step)])]."""
  step = p.real('step_' + tag, low=0, high=1000)
  items = []
  for i, t in enumerate(tree[1:]):
    here = at + ((tree[0], len(tree) - 1, i, step, tag),)
    if t == 'f':
      f = ft.Feature('f%s_%d' % (tag, i))
      leaves.append((f, here))
      items.append(f)
    else:
      items.append(grow(p, ft, t, '%s_%d' % (tag, i), leaves, here))
  return getattr(ft.Feature, tree[0])('l' + tag, *items, step=step)


def reference(a, b):
  """The distance in the innermost list that holds both."""
  for (k, n, i, step, tag), (_, _, j, _, tag2) in zip(a, b):
    if tag != tag2 or i == j:
      continue
    d = abs(i - j)
    return step * {'equidistant': 1, 'linear': d, 'cyclic': min(d, n - d)}[k]
  return 0


def setup():
  from nisaba.scripts.natural_translit.utils import feature as ft
  ft.Feature.__hash__ = lambda self: hash(getattr(self, 'alias', ''))
  return ft


def aspect(tree, p, ft, tag='t'):
  leaves = []
  a = ft.Feature.Aspect(grow(p, ft, tree, tag, leaves))
  return a, leaves


def in_aspect(tree):
  def harness(p):
    ft = setup()
    a, leaves = aspect(tree, p, ft)
    other, alien = aspect(('linear', 'f', 'f'), p, ft, 'u')
    ft.Feature.Inventory('inventory', a, other)
    top = [0]
    for f, x in leaves:
      for g, y in leaves:
        d = reference(x, y)
        top.append(d)
        p.check(sym.eq(f.distance(g), d), 'distance')
        p.check(sym.eq(ft.Feature.Set(f).distance(g), d), 'distance of sets')
      p.check(sym.eq(f.distance(a.any), 0), 'any')
      p.check(sym.eq(a.any.distance(f), 0), 'any')
      p.check(sym.eq(f.distance(alien[0][0]), ft.Feature.ERROR_DISTANCE),
              'another aspect')
    most = sym.most(*top)
    p.check(sym.eq(a.max_dist, most), 'max_dist')
    for f, _ in leaves:
      p.check(sym.eq(f.distance(a.n_a), most), 'n_a')
      p.check(sym.eq(a.n_a.distance(f), most), 'n_a')
    p.check(sym.eq(a.n_a.distance(a.n_a), 0), 'n_a itself')
    p.check(sym.eq(a.n_a.distance(a.any), 0), 'n_a and any')
  return harness


def in_list(tree):
  """ValueList.distance of two different items, in both orders."""
  def harness(p):
    ft = setup()
    leaves = []
    l = grow(p, ft, tree, 't', leaves)
    at = [x for _, x in leaves]
    items = list(l)
    first = {}
    for x in at:
      first.setdefault(x[0][2], x)
    for i, f in enumerate(items):
      for j, g in enumerate(items):
        if i != j:
          p.check(sym.eq(l.distance(f, g), reference(first[i], first[j])),
                  'distance of items')
  return harness


def sets(tree):
  """The distance of two sets: the least of their members'."""
  def harness(p):
    ft = setup()
    a, leaves = aspect(tree, p, ft)
    ft.Feature.Inventory('inventory', a)
    both = []
    for s in 'AB':
      bits = [p.bool('%s%d' % (s, i)) for i in range(len(leaves))]
      na = p.bool(s + '_na')
      x = ft.Feature.Set(*[f for (f, _), b in zip(leaves, bits) if b])
      if na:
        x.add(a.n_a)
      both.append((x, [y for (f, y) in leaves if f in x], bool(a.n_a in x)))
    (x, xs, xn), (y, ys, yn) = both
    ds = [reference(u, v) for u in xs for v in ys]
    if xn and yn:
      ds.append(0)
    if (xn and ys) or (yn and xs):
      ds.append(a.max_dist)
    if xs + ys == [] and not (xn and yn) or not ds:
      d = ft.Feature.ERROR_DISTANCE
    else:
      d = sym.least(ft.Feature.ERROR_DISTANCE, *ds)
    p.check(sym.eq(x.distance(y), d), 'distance of sets')
    p.check(sym.eq(y.distance(x), d), 'symmetry')
  return harness


def run(c):
  for t in trees(c.pick(5, 8)):
    c.explore('distances in %s' % (t,), lambda n, t=t: in_aspect(t), [0], FN)
    c.explore('items of %s' % (t,), lambda n, t=t: in_list(t), [0], FN)
  for k in KINDS:
    for t in ((k, 'f', 'f', 'f'), (k, 'f', ('linear', 'f', 'f'))) + c.pick(
        (), ((k, 'f', 'f', 'f', 'f'),)):
      c.explore('sets over %s' % (t,), lambda n, t=t: sets(t), [0], FN)
  c.run()
