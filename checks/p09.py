"""P09: operations can be told apart by their indices, and know their kin."""
from nv import pyx, sym  # noqa: F401

FN = ['operation.Operation.%s' % f for f in (
    '__init__', 'is_free', 'is_cheaper_than', 'is_assigned')] + [
        'operation.Operation.Inventory.%s' % f for f in (
            'from_args', '_make_operation', '_next_index', 'index_lookup',
            'add_operations')]


def harness(n):
  def run(p):
    from nisaba.scripts.natural_translit.utils import operation
    Op = operation.Operation
    prefix = list(Op.ReservedIndex)[int(p.int('prefix', 0, 2))]
    costs = [p.real('cost%d' % i, 0, 1000) for i in range(n)]
    inv = Op.Inventory.from_args('ops', prefix, *[
        ('op%d' % i, c) for i, c in enumerate(costs)])
    p.check(len(inv) == 4 * n, 'operations')
    indices = [o.index for o in inv]
    p.check(len(set(indices)) == len(indices), 'indices are unique')
    p.check(all(prefix < i < prefix + 100 for i in indices), 'prefix')
    p.check(all(i % 10 for i in indices), 'no index ends in 0')
    for o in inv:
      p.check(inv.index_lookup(o.index) is o, 'index_lookup')
      p.check(o.inventory is inv and inv.get(o.alias) is o, 'alias')
    taken = set(indices)
    for i in set(range(prefix, prefix + 100)) - taken:
      p.check(inv.index_lookup(i) is Op.COMMON.error, 'no such index')
    for k, c in enumerate(costs):
      a = 'op%d' % k
      m, pa, un, up = (getattr(inv, x + a) for x in (
          '', 'partial_', 'unexpected_', 'unexpected_partial_'))
      for o in (m, pa, un, up):
        p.check(o.match is m, 'match')
        p.check(o.partial is (pa if o in (m, pa) else up), 'partial')
        p.check(o.unexpected is (un if o in (m, un) else up), 'unexpected')
        p.check(o.is_assigned(), 'assigned')
        want = c if o in (m, pa) else c + Op.UNEXPECTED_PENALTY
        p.check(sym.eq(o.base_cost, want), 'cost')
        p.check(sym.same(o.is_free(), sym.eq(want, 0)), 'is_free')
        for k2, c2 in enumerate(costs[:k]):
          p.check(sym.same(o.is_cheaper_than(getattr(inv, 'op%d' % k2)),
                           want < c2), 'is_cheaper_than')
    # Another inventory that holds some of these keeps them as they are.
    before = [(o.index, o.inventory) for o in inv]
    other = Op.Inventory('other', *inv)
    p.check(len(other) == len(inv) and before == [
        (o.index, o.inventory) for o in inv], 'added elsewhere')
  return run


def run(c):
  c.explore('from_args', harness, c.pick([1, 2, 3, 6], [1, 2, 3, 6, 12, 22]),
            FN)
  c.run()
