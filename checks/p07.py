"""P07: inventories find what was put in them, and unknown characters once."""
from nv import pyx, sym, texts  # noqa: F401

FN = ['symbol.Symbol.Inventory.%s' % f for f in (
    '__init__', 'add_symbols', '_add_symbol', '_add_to_dicts', 'lookup',
    'raw_lookup', 'text_lookup', 'index_lookup', 'raw_from_unknown',
    'str_to_raw_symbols', 'parse')] + [
        'inventory.Inventory.add_item', 'inventory.Inventory.get']
FN_I = ['inventory.Inventory.%s' % f for f in (
    'from_list', 'add_item', 'add_suppl', 'make_suppl', '_add_field', 'get')] + [
        'type_op.IterableThing.valid_item', 'type_op.IterableThing.__iter__']


def symbols():
  from nisaba.scripts.natural_translit.utils import symbol
  return symbol.Symbol


class Known:
  """An inventory and what it should hold, in the order of addition."""

  def __init__(self, inventory, held):
    self.inventory, self.held = inventory, list(held)

  def of(self, char):
    """The symbol of a character: the last one added."""
    for s in reversed(self.held):
      if s.raw and texts.decide(texts.same(s.raw, char)):
        return s
    return None


def build(p, tag, count, start):
  S = symbols()
  made = []
  for i in range(count):
    c = texts.char(p, '%s%d' % (tag, i))
    made.append(S('%s_%d' % (tag, i), text=c, raw=c, index=start + i))
  made.append(S('%s_abstract' % tag, text=tag + '!', index=start + 500))
  return Known(S.Inventory(tag, *made), made)


def put_together(a, b, which):
  """A combined inventory; the first symbol of an alias is kept."""
  S = symbols()
  order = (a, b) if which else (b, a)
  held, seen = [], set()
  for k in order:
    for s in k.held:
      if s.alias not in seen:
        seen.add(s.alias)
        held.append(s)
  return Known(S.Inventory('both', *order[0].inventory, *order[1].inventory),
               held)


def parses(count, size, combined):
  """Inventories that parse texts, one after another."""
  def harness(n, p):
    texts.start(p)
    S = symbols()
    a = build(p, 'a', count, 2_000_000)
    b = build(p, 'b', 1, 2_001_000)
    when = int(p.int('when', 0, n - 1)) if combined else -1
    all_ = [a, b]
    for step in range(n):
      if step == when:
        all_.append(put_together(a, b, combined == 1))
      if combined:     # Alone, or over the combined inventory.
        ways = [(0, 0), (0, 2), (1, 2), (2, 2)][:1 if len(all_) < 3 else 4]
      else:
        ways = [(0, 0), (0, 1), (1, 0)]
      way = ways[int(p.int('way%d' % step, 0, len(ways) - 1))]
      who, base = (all_[i] for i in way)
      t = texts.text(p, 't%d_' % step, size)
      f = (who.inventory.parse if step % 2 else
           who.inventory.str_to_raw_symbols)
      got = list(f(t) if who is base else f(t, base.inventory))
      p.check(len(got) == len(t), 'one symbol for a character')
      for c, s in zip(t, got):
        p.check(texts.same(s.raw, c), 'its own symbol')
        want = base.of(c)
        if want is not None:
          p.check(s is want, 'the symbol it has')
        else:
          p.check(all(s is not h for k in all_ for h in k.held),
                  'a new symbol')
          p.check(base.inventory.get(s.alias) is s, 'by alias')
          base.held.append(s)
    for k in all_:
      items = list(k.inventory)
      p.check(len(items) == len(k.held) and all(
          any(i is h for i in items) for h in k.held), 'items')
      p.check(len({h.index for h in k.held}) == len(k.held) and all(
          k.inventory.index_lookup(h.index) is h for h in k.held), 'indices')
      for ctrl in S.CTRL:
        p.check(k.inventory.index_lookup(ctrl.index) is ctrl, 'control')
      if k is not all_[-1]:
        continue
      c = texts.char(p, 'last')
      want = k.of(c)
      p.check(k.inventory.raw_lookup(c) is (S.CTRL.unk if want is None
                                            else want), 'raw_lookup')
      known = [h for h in k.held if len(h.text) == 1]
      want = next((h for h in reversed(known) if texts.decide(
          texts.same(h.text, c))), S.CTRL.unk)
      p.check(k.inventory.text_lookup(c) is want, 'text_lookup')
  return lambda n: lambda p: harness(n, p)


NAMES = ('one', 'two', 'text')


def items(typed):
  """Items and supplements added to an inventory, in any order."""
  def harness(n, p):
    from nisaba.scripts.natural_translit.utils import inventory
    from nisaba.scripts.natural_translit.utils import type_op as ty
    values = [ty.Thing('v0', value_from='zero'), ty.Thing('v1', value_from=1),
              ty.Thing('v2')]
    kind = (ty.Thing, str, ty.UNSPECIFIED)[typed]
    inv = inventory.Inventory('inv', kind)
    fields, order, supplements = {'text': 'inv'}, [], []
    for i in range(n):
      alias = NAMES[int(p.int('alias%d' % i, 0, 2))]
      v = int(p.int('value%d' % i, 0, 2))
      how = int(p.int('how%d' % i, 0, 2))
      free = alias not in fields
      if how == 0:          # The thing, or its value.
        attr = 'value' if typed else ''
        thing = values[v] if typed else ty.Thing(alias)
        if typed:
          thing = ty.Thing(alias, value_from=values[v].value)
        value = thing.value if typed else thing
        valid = isinstance(value, (ty.Thing, str, object)[typed])
        want = valid and free and not any(value == o for o in order)
        p.check(inv.add_item(thing, attr) == want, 'add_item')
        if want:
          order.append(value)
          fields[alias] = value
      else:
        value = values[v].value
        if how == 1:
          done = inv.make_suppl(alias, value)
        else:
          done = inv.add_suppl(ty.Thing(alias, value_from=value))
        p.check(done == free, 'supplement')
        if free:
          fields[alias] = value
          supplements.append(alias)
    p.check(len(inv) == len(order) and all(
        x is y for x, y in zip(inv, order)), 'items in order')
    for alias in NAMES:
      got = inv.get(alias, 'none')
      if alias in fields:
        p.check(getattr(inv, alias) is fields[alias] or alias == 'text',
                'attribute')
      if alias in fields and alias != 'text':
        p.check(got is fields[alias], 'get')
      else:
        p.check(got == 'none', 'get without')
    p.check(inv.text == 'inv', 'own attributes')
    p.check(inv.suppl_aliases == supplements, 'supplements')
  return lambda n: lambda p: harness(n, p)


def run(c):
  for count, size, steps in ((1, 1, [1, 2]), (2, 1, [1]), (1, 2, [1])):
    c.explore('parse %d %d' % (count, size), parses(count, size, False),
              c.pick(steps, [1, 2, 3]), FN)
  for order in (1, 2):
    c.explore('combined %d' % order, parses(1, 1, order),
              c.pick([1, 2], [1, 2, 3]), FN)
  for typed in (0, 1, 2):
    c.explore('items %d' % typed, items(typed), c.pick([3], [3, 4]), FN_I)
  c.run()
