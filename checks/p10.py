"""P10: tables hold exactly what the names and texts of their items spell."""
import importlib
import io
import types

from nv import pyx, sym, texts  # noqa: F401

FN = ['unicode_strings_util.%s' % f for f in (
    'name_to_char', '_names_to_string', 'proto_entries_to_string',
    'convert_item')]
FN_W = FN + ['unicode_strings_to_tsv._convert_data_proto_to_file']
FN_R = FN + ['unicode_strings_util._fill_missing_raw']


class Refused(Exception):
  pass


class Names:
  """Unicode character names: which there are, and of which characters."""

  def __init__(self, p):
    self.p, self.chars = p, {}
    self.unnamed = texts.char(p, 'unnamed', 0x20)   # Such as a private one.

  def char(self, name):
    """The character of the name, or None."""
    if name not in self.chars:
      c = None
      if name.count(' ') < 2 and texts.decide(self.p.bool('is ' + name)):
        c = texts.char(self.p, name)
        self.p.assume(sym.neg(texts.same(c, self.unnamed)))
      self.chars[name] = c
    return self.chars[name]

  def control(self, c):
    z = texts.code(c)
    return texts.decide(sym.any_of(z < 0x20, sym.all_of(z >= 0x7f, z < 0xa0)))

  # What the code sees as unicodedata.

  def module(self):
    def lookup(name):
      c = self.char(str(name))
      if c is None:
        raise KeyError("undefined character name '%s'" % name)
      return c

    def name(c, *default):
      if self.control(c) or texts.decide(texts.same(c, self.unnamed)):
        if default:
          return default[0]
        raise ValueError('no such name')
      return 'A NAME'

    def category(c):
      return 'Cc' if self.control(c) else 'Lo'

    def missing(attr):
      raise sym.Undecided('unicodedata.' + attr)

    m = types.ModuleType('unicodedata')
    m.__dict__.update(lookup=lookup, name=name, category=category,
                      __getattr__=missing)
    return m

  # The specification.

  def spelled(self, prefixes, names):
    out = ''
    for n in names:
      found = []
      for x in list(dict.fromkeys(prefixes)) + ['']:
        full = (x + ' ' + n) if x else n
        c = self.char(full)
        if c is not None and not self.control(c):
          found.append(c)
      if len(found) != 1:
        raise Refused
      out += found[0]
    return out

  def entry(self, prefixes, names, raw):
    if not names:
      return raw
    s = self.spelled(prefixes, names)
    if raw and not texts.decide(texts.same(s, raw)):
      raise Refused
    return s

  def item(self, prefixes, to_prefixes, it):
    if not it.uname and not it.raw:
      raise Refused
    source = self.entry(prefixes, it.uname, it.raw)
    if not it.to_uname and not it.to_raw:
      return source, None
    return source, self.entry(to_prefixes or prefixes, it.to_uname, it.to_raw)


def start(p):
  texts.start(p)
  import nisaba.scripts.utils.unicode_strings_util as lib
  importlib.reload(lib)
  names = Names(p)
  lib.unicodedata = names.module()
  lib.logging = types.SimpleNamespace(info=lambda *a, **k: None)
  return lib, names


class Item(types.SimpleNamespace):
  """As in a message: text fields take nothing but text."""

  def __setattr__(self, name, value):
    if name not in ('raw', 'to_raw') or not isinstance(value, str):
      raise TypeError('bad argument type for a field: ' + name)
    super().__setattr__(name, value)


def item(p, tag, shape):
  """An item with so many names and so many raw characters on either side."""
  u, r, tu, tr = shape
  pick = lambda s, i: 'ABC'[int(p.int('%s%s%d' % (tag, s, i), 0, 1))]  # noqa: E731
  return Item(
      uname=[pick('u', i) for i in range(u)],
      raw=texts.text(p, tag + 'raw', r) if r else '',
      to_uname=[pick('t', i) for i in range(tu)],
      to_raw=texts.text(p, tag + 'to', tr) if tr else '')


def same(a, b):
  if a is None or b is None:
    return a is b
  return texts.same(a, b)


def convert(shape, prefixes, to_prefixes):
  def harness(n, p):
    lib, names = start(p)
    it = item(p, 'i', shape)
    before = [list(it.uname), it.raw, list(it.to_uname), it.to_raw]
    try:
      want = names.item(prefixes, to_prefixes, it)
    except Refused:
      want = None
    a, b = list(prefixes), list(to_prefixes)
    for again in range(n):
      try:
        got = tuple(lib.convert_item(a, b, it))
      except ValueError:
        got = None
      p.check((got is None) == (want is None), 'refused')
      if want is not None and got is not None:
        p.check(len(got) == 2 and same(got[0], want[0]), 'source')
        p.check(same(got[1], want[1]), 'result')
      p.check([list(it.uname), it.raw, list(it.to_uname), it.to_raw] == before
              and a == list(prefixes) and b == list(to_prefixes), 'operands')
  return lambda n: lambda p: harness(n, p)


def proto(p, shapes, prefixes, to_prefixes):
  return types.SimpleNamespace(
      item=[item(p, 'i%d' % i, s) for i, s in enumerate(shapes)],
      uname_prefix=list(prefixes), to_uname_prefix=list(to_prefixes))


def wanted(names, pb):
  try:
    return [names.item(pb.uname_prefix, pb.to_uname_prefix, it)
            for it in pb.item]
  except Refused:
    return None


class File(io.StringIO):
  def close(self):
    pass


def written(shapes, prefixes, to_prefixes):
  def harness(p):
    lib, names = start(p)
    import nisaba.scripts.utils.unicode_strings_to_tsv as tsv
    pb = proto(p, shapes, prefixes, to_prefixes)
    want = wanted(names, pb)
    out = File()
    tsv.lib, tsv.open = lib, lambda *a, **k: out
    tsv._OUTPUT = types.SimpleNamespace(value='/nowhere')
    try:
      tsv._convert_data_proto_to_file(pb)
      ok = True
    except ValueError:
      ok = False
    p.check(ok == (want is not None), 'refused')
    if not ok or want is None:
      return
    text = out.getvalue()
    head, _, rest = text.partition('\n')
    p.check(head.startswith('#'), 'a comment line')
    p.check(texts.same(rest, ''.join(
        s + ('' if d is None else '\t' + d) + '\n' for s, d in want)), 'rows')
  return harness


def filled(shapes, prefixes, to_prefixes):
  def harness(p):
    lib, names = start(p)
    pb = proto(p, shapes, prefixes, to_prefixes)
    want = wanted(names, pb)
    try:
      lib._fill_missing_raw(pb)
      ok = True
    except ValueError:
      ok = False
    p.check(ok == (want is not None), 'refused')
    for it, w in zip(pb.item, want if ok and want is not None else ()):
      p.check(same(it.raw, w[0]), 'raw')
      p.check(same(it.to_raw, w[1] or ''), 'to_raw')
  return harness


def run(c):
  pyx.stand_ins()
  import absl.flags
  absl.flags.FLAGS.unparse_flags()
  shapes = [(0, 0, 0, 0), (0, 2, 0, 0), (1, 0, 0, 0), (2, 0, 0, 0),
            (1, 1, 0, 0), (2, 2, 0, 0), (1, 2, 0, 0), (2, 1, 0, 0),
            (0, 1, 0, 1), (1, 0, 1, 0), (0, 1, 1, 1), (1, 1, 1, 1),
            (0, 0, 1, 1), (0, 1, 2, 0), (0, 1, 2, 2), (0, 1, 0, 2)]
  for i, s in enumerate(shapes):
    for a, b in ((('P',), ()), (('P', 'Q'), ()), (('P', 'P'), ('Q',)),
                 ((), ()), ((), ('Q', 'Q'))):
      if not s[2] and b or s[0] + s[2] > 1 and len(a) > 1:
        continue
      c.explore('item %s %s %s' % (s, a, b), convert(s, a, b),
                c.pick([1], [1, 2]), FN)
  for s in ((0, 1, 1, 0), (1, 0, 0, 1), (2, 0, 0, 0), (1, 1, 0, 0)):
    c.explore('again %s' % (s,), convert(s, ('P', 'Q'), ('P', 'P')), [2], FN)
  pairs = [((0, 1, 0, 2), (0, 2, 0, 0)), ((1, 0, 1, 0), (0, 1, 0, 1)),
           ((1, 1, 0, 1), (1, 0, 0, 0)), ((0, 1, 1, 0), (0, 0, 0, 0))]
  for s in pairs:
    for b in ((), ('Q',)):
      c.explore('table %s %s' % (s, b),
                lambda n, s=s, b=b: written(s[:n], ('P',), b), [1, 2], FN_W)
      c.explore('filled %s %s' % (s, b),
                lambda n, s=s, b=b: filled(s[:n], ('P',), b), [1, 2], FN_R)
  c.run()
