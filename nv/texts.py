"""Symbolic texts for Python code that handles strings.

A symbolic text is a real string of stand-ins, characters of a private plane, each
of which has a symbolic code point.  What the language does with places and lengths
(slices, joins, formats) works on the stand-ins as it is; whatever looks at the
characters goes through Text and the two modules here, which fork the path: `Re`
for re, and `Pynini` for the part of pynini that takes a string.  What a transducer
does to a word is uninterpreted: a mark, the word, and another mark, or nothing.

In replay there are no stand-ins: plain strings, re itself, and pynini reads them.
"""
import re
import sys
import types

from nv import sym

if sys.version_info >= (3, 11):
  from re import _constants as sc
  from re import _parser as sp

FIRST = 0xF0000
LAST = 0xFEFFF
MARK = 0x100000           # Marks of transducers, plain characters.
_chars = {}               # Of the path: code point of the stand-in -> Int.
_path = None


def start(p):
  global _path
  _path = p
  _chars.clear()


def _stand_in(c):
  return FIRST <= ord(c) <= LAST


def symbolic(s):
  return isinstance(s, str) and any(_stand_in(c) for c in s)


def char(p, name, low=1, high=0x10FFFF):
  n = p.int(name, low, high)
  if not isinstance(n, sym.Num):
    return chr(n)
  p.assume(sym.any_of(n < 0xD800, n > 0xDFFF))
  p.assume(sym.any_of(n < FIRST, n > LAST))
  c = FIRST + len(_chars)
  _chars[c] = n
  return Text(chr(c))


def text(p, name, n, low=1, high=0x10FFFF):
  t = ''.join(char(p, '%s%d' % (name, i), low, high) for i in range(n))
  return t if p.model is not None else Text(t)


def plain(p, s):
  """A known string, for code that meets symbolic ones."""
  return s if p.model is not None else Text(s)


def code(c):
  """The code point of a character: a number or an Int."""
  return _chars[ord(c)] if _stand_in(c) else ord(c)


def same(a, b):
  """Whether two strings are equal, as a term."""
  if len(a) != len(b):
    return False
  return sym.all_of(True, *[
      sym.eq(code(x), code(y))
      for x, y in zip(str.__iter__(a), str.__iter__(b)) if ord(x) != ord(y)])


def decide(cond):
  return bool(cond) if isinstance(cond, sym.Bool) else cond


def is_one_of(c, chars):
  """A term: the character is one of these."""
  return sym.any_of(False, *[
      ord(c) == ord(d) or sym.eq(code(c), code(d))
      for d in str.__iter__(chars)])


def _within(z, spans):
  return sym.any_of(False, *[
      sym.eq(z, a) if a == b else sym.all_of(z >= a, z <= b)
      for a, b in spans])


_spans = {}


def spans(test, name):
  """The ranges of the code points that pass the test."""
  if name not in _spans:
    r = []
    for i in range(0x110000):
      if test(chr(i)):
        if r and r[-1][1] == i - 1:
          r[-1][1] = i
        else:
          r.append([i, i])
    _spans[name] = r
  return _spans[name]


def _lacks(name):
  def method(self, *args, **kw):
    raise sym.Undecided('str.%s of a symbolic text' % name)
  return method


class Text(str):
  """A string some of whose characters may be stand-ins."""
  __slots__ = ()

  def __eq__(self, other):
    if not isinstance(other, str):
      return NotImplemented
    return decide(same(self, other))

  def __ne__(self, other):
    r = self.__eq__(other)
    return r if r is NotImplemented else not r

  def __hash__(self):
    return 0x7e47 + len(self)

  def __getitem__(self, i):
    return Text(str.__getitem__(self, i))

  def __iter__(self):
    return (Text(c) for c in str.__iter__(self))

  def __reversed__(self):
    return (Text(c) for c in str.__iter__(str.__getitem__(
        self, slice(None, None, -1))))

  def __add__(self, other):
    return Text(str.__add__(self, other))

  def __radd__(self, other):
    return Text(str.__add__(other, self))

  def __mul__(self, n):
    return Text(str.__mul__(self, n))

  __rmul__ = __mul__

  def __str__(self):
    return self

  def __format__(self, spec):
    return Text(str.__format__(self, spec))

  def _at(self, sub, i):
    return decide(same(str.__getitem__(self, slice(i, i + len(sub))), sub))

  def find(self, sub, start=0, end=None):
    start, end, _ = slice(start, end).indices(len(self))
    for i in range(start, end - len(sub) + 1):
      if self._at(sub, i):
        return i
    return -1

  def rfind(self, sub, start=0, end=None):
    start, end, _ = slice(start, end).indices(len(self))
    for i in range(end - len(sub), start - 1, -1):
      if self._at(sub, i):
        return i
    return -1

  def index(self, *args):
    i = self.find(*args)
    if i < 0:
      raise ValueError('substring not found')
    return i

  def __contains__(self, sub):
    return self.find(sub) >= 0

  def startswith(self, sub, *args):
    s = str.__getitem__(self, slice(*(args or (None,)), *(
        (None,) if len(args) == 1 else ())))
    if isinstance(sub, tuple):
      return any(Text(s).startswith(x) for x in sub)
    return len(s) >= len(sub) and Text(s)._at(sub, 0)

  def endswith(self, sub, *args):
    if args:
      raise sym.Undecided('str.endswith')
    if isinstance(sub, tuple):
      return any(self.endswith(x) for x in sub)
    return len(self) >= len(sub) and self._at(sub, len(self) - len(sub))

  def count(self, sub):
    n = i = 0
    while True:
      i = self.find(sub, i)
      if i < 0:
        return n
      n, i = n + 1, i + max(1, len(sub))

  def _parts(self, sep, limit):
    if sep is None:
      white = spans(str.isspace, 'isspace')
      out, word = [], ''
      for i, c in enumerate(str.__iter__(self)):
        if decide(_within(code(c), white)):
          if word:
            out.append(word)
          word = ''
        else:
          if not word and limit >= 0 and len(out) == limit:
            word = str.__getitem__(self, slice(i, None))
            word = str(Text(word).rstrip())
            break
          word += c
      return out + [word] if word else out
    if not sep:
      raise ValueError('empty separator')
    out, at = [], 0
    while limit < 0 or len(out) < limit:
      i = self.find(sep, at)
      if i < 0:
        break
      out.append(str.__getitem__(self, slice(at, i)))
      at = i + len(sep)
    return out + [str.__getitem__(self, slice(at, None))]

  def split(self, sep=None, maxsplit=-1):
    return [Text(x) for x in self._parts(sep, maxsplit)]

  def partition(self, sep):
    x = self._parts(sep, 1)
    return ((Text(x[0]), Text(sep), Text(x[1])) if len(x) == 2
            else (self, Text(''), Text('')))

  def replace(self, old, new, count=-1):
    if not old:
      raise sym.Undecided('str.replace')
    return Text(new.join(self._parts(old, count)))

  def _stripped(self, chars, left, right):
    def drop(c):
      if chars is None:
        return decide(_within(code(c), spans(str.isspace, 'isspace')))
      return decide(is_one_of(c, chars))
    i, j = 0, len(self)
    while left and i < j and drop(str.__getitem__(self, i)):
      i += 1
    while right and i < j and drop(str.__getitem__(self, j - 1)):
      j -= 1
    return Text(str.__getitem__(self, slice(i, j)))

  def strip(self, chars=None):
    return self._stripped(chars, True, True)

  def lstrip(self, chars=None):
    return self._stripped(chars, True, False)

  def rstrip(self, chars=None):
    return self._stripped(chars, False, True)

  def join(self, parts):
    return Text(str.join(self, parts))

  def _each(name):
    def method(self):
      s = spans(getattr(str, name), name)
      return bool(self) and all(decide(_within(code(c), s))
                                for c in str.__iter__(self))
    return method

  isspace, isalpha, isdigit, isalnum, isnumeric, isdecimal, isprintable = map(
      _each, ('isspace', 'isalpha', 'isdigit', 'isalnum', 'isnumeric',
              'isdecimal', 'isprintable'))

  def isascii(self):
    return all(decide(code(c) < 128) for c in str.__iter__(self))

  def translate(self, table):
    out = ''
    for c in str.__iter__(self):
      for k, v in table.items():
        if decide(sym.eq(code(c), k)):
          c = '' if v is None else chr(v) if isinstance(v, int) else v
          break
      out += c
    return Text(out)

  del _each
  for _n in ('encode', 'lower', 'upper', 'title', 'casefold', 'capitalize',
             'swapcase', 'splitlines', 'rsplit', 'rpartition', 'rindex',
             'expandtabs', 'islower', 'isupper', 'istitle', 'isidentifier',
             'removeprefix', 'removesuffix', 'center', 'ljust', 'rjust',
             'zfill', '__lt__', '__le__', '__gt__', '__ge__', '__mod__'):
    locals()[_n] = _lacks(_n)
  del _n


# re.

_SPECIAL = ''.join(chr(i) for i in range(128) if re.escape(chr(i)) != chr(i))


class _Match:
  def __init__(self, string, pos, groups, count):
    self.string, self.pos, self._g = string, pos, groups
    self._count = count
    self.re = None

  def _span(self, g=0):
    return self._g.get(g, (-1, -1))

  def span(self, g=0):
    return self._span(g)

  def start(self, g=0):
    return self._span(g)[0]

  def end(self, g=0):
    return self._span(g)[1]

  def expand(self, template):
    raise sym.Undecided('a template')

  def group(self, *gs):
    r = []
    for g in gs or (0,):
      a, b = self._span(g)
      r.append(None if a < 0 else Text(str.__getitem__(self.string,
                                                       slice(a, b))))
    return r[0] if len(r) == 1 else tuple(r)

  __getitem__ = group

  def groups(self, default=None):
    return tuple(self.group(i) if self.start(i) >= 0 else default
                 for i in range(1, self._count))


class Pattern:
  """A regular expression on strings with stand-ins."""

  def __init__(self, pattern, flags=0):
    out = ''
    for c in pattern:
      if _stand_in(c):      # It acts as itself, unless it is a special one.
        for d in _SPECIAL:
          if decide(sym.eq(code(c), ord(d))):
            c = d
            break
      out += c
    self.pattern, self.flags = pattern, flags
    self._tree = sp.parse(out, int(flags))
    if self._tree.state.flags & ~(re.UNICODE | re.DOTALL):
      raise sym.Undecided('flags of a regular expression')
    self._dot = bool(self._tree.state.flags & re.DOTALL)
    self._plain = None if symbolic(out) else re.compile(out, flags)
    self.groups = self._tree.state.groups - 1

  # One character.

  def _is(self, z, a):
    return sym.eq(z, code(chr(a)))

  def _in(self, z, items):
    tests, negate = [], False
    for op, a in items:
      if op is sc.NEGATE:
        negate = True
      elif op is sc.LITERAL:
        tests.append(self._is(z, a))
      elif op is sc.RANGE:
        lo, hi = code(chr(a[0])), code(chr(a[1]))
        tests.append(sym.all_of(z >= lo, z <= hi))
      elif op is sc.CATEGORY:
        tests.append(self._category(z, a))
      else:
        raise sym.Undecided(str(op))
    r = sym.any_of(False, *tests)
    return sym.neg(r) if negate else r

  def _category(self, z, a):
    kinds = {sc.CATEGORY_SPACE: r'\s', sc.CATEGORY_NOT_SPACE: r'\S',
             sc.CATEGORY_DIGIT: r'\d', sc.CATEGORY_NOT_DIGIT: r'\D',
             sc.CATEGORY_WORD: r'\w', sc.CATEGORY_NOT_WORD: r'\W'}
    if a not in kinds:
      raise sym.Undecided(str(a))
    k = kinds[a]
    r = _within(z, spans(lambda c: re.match(k.lower(), c), k.lower()))
    return sym.neg(r) if k.isupper() else r

  # All the ways to match nodes[i:] at a position, best first.

  def _walk(self, s, nodes, at, groups):
    if not nodes:
      yield at, groups
      return
    (op, a), rest = nodes[0], nodes[1:]
    if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
      if at >= len(s):
        return
      z = code(str.__getitem__(s, at))
      if op is sc.ANY:
        ok = True if self._dot else sym.neg(sym.eq(z, 10))
      elif op is sc.IN:
        ok = self._in(z, a)
      else:
        ok = self._is(z, a)
        if op is sc.NOT_LITERAL:
          ok = sym.neg(ok)
      if decide(ok):
        yield from self._walk(s, rest, at + 1, groups)
    elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
      yield from self._repeat(s, op is sc.MAX_REPEAT, a[0], a[1], list(a[2]),
                              rest, at, groups, 0)
    elif op is sc.SUBPATTERN:
      g, add, drop, body = a
      if add or drop:
        raise sym.Undecided('flags of a group')
      for e, gs in self._walk(s, list(body), at, groups):
        if g is not None:
          gs = dict(gs)
          gs[g] = (at, e)
        yield from self._walk(s, rest, e, gs)
    elif op is sc.BRANCH:
      for body in a[1]:
        yield from self._walk(s, list(body) + rest, at, groups)
    elif op is sc.AT:
      if a in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
        ok = at == 0
      elif a is sc.AT_END_STRING:
        ok = at == len(s)
      elif a is sc.AT_END:
        ok = at == len(s) or at == len(s) - 1 and decide(
            sym.eq(code(str.__getitem__(s, at)), 10))
      else:
        raise sym.Undecided(str(a))
      if ok:
        yield from self._walk(s, rest, at, groups)
    elif op in (sc.ASSERT, sc.ASSERT_NOT) and a[0] > 0:
      found = next(self._walk(s, list(a[1]), at, groups), None)
      if (found is not None) == (op is sc.ASSERT):
        yield from self._walk(s, rest, at, groups)
    else:
      raise sym.Undecided('%s in a regular expression' % op)

  def _repeat(self, s, greedy, lo, hi, body, rest, at, groups, n):
    def more():
      if hi is sc.MAXREPEAT or n < hi:
        for e, gs in self._walk(s, body, at, groups):
          if e > at or n < lo:
            yield from self._repeat(s, greedy, lo, hi, body, rest, e, gs, n + 1)

    def done():
      if n >= lo:
        yield from self._walk(s, rest, at, groups)
    for f in ((more, done) if greedy else (done, more)):
      yield from f()

  def _at(self, s, at, full=False, nonempty=False):
    for e, gs in self._walk(s, list(self._tree), at, {}):
      if (not full or e == len(s)) and not (nonempty and e == at):
        gs = dict(gs)
        gs[0] = (at, e)
        m = _Match(s, at, gs, self._tree.state.groups)
        m.re = self
        return m
    return None

  # The methods.

  def match(self, s):
    return self._at(s, 0)

  def fullmatch(self, s):
    return self._at(s, 0, full=True)

  def search(self, s, pos=0):
    return next((m for i in range(pos, len(s) + 1)
                 for m in [self._at(s, i)] if m), None)

  def finditer(self, s):
    at, advance = 0, False
    while at <= len(s):
      m = self._at(s, at, nonempty=advance)
      if m is None:
        at, advance = at + 1, False
      else:
        yield m
        at, advance = m.end(), m.end() == m.start()

  def findall(self, s):
    r = []
    for m in self.finditer(s):
      r.append(m.group() if not self.groups else m.group(1)
               if self.groups == 1 else m.groups(''))
    return r

  def split(self, s, maxsplit=0):
    out, at = [], 0
    for n, m in enumerate(self.finditer(s)):
      if maxsplit and n >= maxsplit:
        break
      out.append(Text(str.__getitem__(s, slice(at, m.start()))))
      out += list(m.groups())
      at = m.end()
    return out + [Text(str.__getitem__(s, slice(at, None)))]

  def subn(self, repl, s, count=0):
    out, at, n = '', 0, 0
    for m in self.finditer(s):
      if count and n >= count:
        break
      if callable(repl):
        r = repl(m)
      elif '\\' in repl:
        raise sym.Undecided('a template')
      else:
        r = repl
      out += str.__getitem__(s, slice(at, m.start())) + r
      at, n = m.end(), n + 1
    return Text(str.__add__(out, str.__getitem__(s, slice(at, None)))), n

  def sub(self, repl, s, count=0):
    return self.subn(repl, s, count)[0]


def _escape(s):
  out = ''
  for c in s:
    if _stand_in(c):
      out += '\\' + c if decide(is_one_of(c, _SPECIAL)) else c
    else:
      out += re.escape(c)
  return Text(out)


def make_re():
  """A module in place of re."""
  m = types.ModuleType('re')
  m.__dict__.update({k: v for k, v in vars(re).items()
                     if not k.startswith('__')})

  def compile_(pattern, flags=0):
    return pattern if isinstance(pattern, Pattern) else Pattern(pattern, flags)
  m.compile, m.escape = compile_, _escape
  for name in ('match', 'fullmatch', 'search', 'finditer', 'findall'):
    def f(pattern, string, flags=0, name=name):
      return getattr(compile_(pattern, flags), name)(string)
    setattr(m, name, f)
  m.split = lambda p, s, maxsplit=0, flags=0: compile_(p, flags).split(
      s, maxsplit)
  m.sub = lambda p, r, s, count=0, flags=0: compile_(p, flags).sub(r, s, count)
  m.subn = lambda p, r, s, count=0, flags=0: compile_(p, flags).subn(
      r, s, count)
  m.Pattern, m.Match = Pattern, _Match
  return m


# pynini.

class Far:
  """An archive of uninterpreted transducers."""

  def __init__(self, world, path):
    self.world, self.path = world, str(path)

  def __getitem__(self, rule):
    if not self.world.has(self.path, rule):
      raise KeyError(rule)
    return Fst(self.world, (self.path, str(rule)))

  def get(self, rule, default=None):
    return self[rule] if self.world.has(self.path, rule) else default

  def find(self, rule):
    return self.world.has(self.path, rule)

  def __enter__(self):
    return self

  def __exit__(self, *args):
    return False


class Fst:
  """An uninterpreted transducer."""

  def __init__(self, world, key):
    self.world, self.key = world, key

  def properties(self, mask, test):
    return mask        # An acceptor, or whatever else is asked.

  def __rmatmul__(self, text):
    word = text.word if isinstance(text, Word) else self.world.read(text)
    return Lattice(self.world, self.key, word)

  def optimize(self, *args):
    return self

  copy = optimize


class Word:
  """The acceptor of a word."""

  def __init__(self, world, word):
    self.world, self.word = world, word

  def __matmul__(self, fst):
    return fst.__rmatmul__(self)

  def string(self, *args):
    return self.word

  def optimize(self, *args):
    return self


class Lattice:
  """What a transducer makes of a word."""

  def __init__(self, world, key, word):
    self.world, self.key, self.word = world, key, word
    self.ok = world.takes(key, word)

  def start(self):
    return 0 if self.ok else -1

  def num_states(self):
    return len(self.word) + 1 if self.ok else 0

  def optimize(self, *args):
    return self

  connect = copy = project = optimize

  def string(self, *args):
    if not self.ok:
      raise self.world.pynini.FstOpError('Operation failed')
    return self.world.output(self.key, self.word)


class World:
  """The archives, and the module in place of pynini."""

  def __init__(self, p, pynini, rules):
    self.p, self.pynini, self.rules = p, pynini, rules
    self.entries = []      # (key, word, whether it is taken)
    self.loaded = []
    self.replay = p.model is not None
    self.importing = True

  def has(self, path, rule):
    return str(rule) in self.rules.get(path, ())

  def takes(self, key, word):
    for k, w, ok in self.entries:
      if k == key and (w is word or decide(same(w, word))):
        return ok
    ok = bool(self.p.bool('takes%d' % len(self.entries)))
    self.entries.append((key, word, ok))
    return ok

  def output(self, key, word):
    m = chr(MARK + 2 * sorted(
        (f, r) for f in self.rules for r in self.rules[f]).index(key))
    return Text(m + word + chr(ord(m) + 1))

  def read(self, text):
    """The word that pynini reads in a string."""
    if self.replay:
      return self.pynini.accep(text).string()
    out, quoted = '', False
    for c in str.__iter__(text):
      if quoted:
        quoted = False
        if decide(is_one_of(c, '[]\\')):
          out += c
          continue
        for a, b in zip('nrt', '\n\r\t'):
          if decide(is_one_of(c, a)):
            out += b
            break
        else:
          out += '\\' + c
      elif decide(is_one_of(c, '\\')):
        quoted = True
      elif decide(is_one_of(c, '[]')):
        raise self.pynini.FstStringCompilationError('Operation failed')
      else:
        out += c
    return Text(out + '\\' if quoted else out)

  def escape(self, text):
    if self.replay:
      return self.pynini.escape(text)
    return Text(''.join('\\' + c if decide(is_one_of(c, '[]\\')) else c
                        for c in str.__iter__(text)))

  def module(self):
    m = types.ModuleType('pynini')
    m.__path__ = self.pynini.__path__
    m.__dict__.update({k: v for k, v in vars(self.pynini).items()
                       if not k.startswith('__')})

    def load(path, *args, **kw):
      if not any(str(path) == f for f in self.rules):
        raise self.pynini.FstIOError('no such archive: %s' % path)
      self.loaded.append(str(path))
      return Far(self, path)

    def ours(name):
      real = getattr(self.pynini, name)

      def f(x, *args, **kw):
        return x if isinstance(x, (Lattice, Fst)) else real(x, *args, **kw)
      return f

    def compose(a, b, *args, **kw):
      return (b.__rmatmul__(a) if isinstance(b, Fst)
              else self.pynini.compose(a, b, *args, **kw))

    def accep(text, *args, **kw):
      if self.importing or not isinstance(text, Text) and not self.replay:
        return self.pynini.accep(text, *args, **kw)
      return Word(self, self.read(text))
    m.Far, m.escape, m.compose, m.accep = load, self.escape, compose, accep
    for n in ('shortestpath', 'optimize', 'connect', 'project'):
      setattr(m, n, ours(n))
    return m


_ready = set()


def _put(fake, names):
  """The modules, imported afresh, with others in place of some."""
  import importlib
  before = dict(sys.modules)
  for n in list(sys.modules):
    if n == 'nisaba' or n.startswith('nisaba.'):
      del sys.modules[n]
  sys.modules.update(fake)
  try:
    return [importlib.import_module(n) for n in names]
  finally:
    for n in list(sys.modules):
      if n in fake or n == 'nisaba' or n.startswith('nisaba.'):
        del sys.modules[n]
    sys.modules.update(before)


def load(p, names, rules):
  """Imports modules of the repository over the archives; (world, modules)."""
  import string
  import pynini
  config = types.ModuleType('nisaba.scripts.brahmic.script_config_pb2')
  config.ScriptConfig = None
  runfiles = types.ModuleType('rules_python.python.runfiles')
  runfiles.runfiles = types.SimpleNamespace(Create=lambda: types.SimpleNamespace(
      Rlocation=str))
  fake = {config.__name__: config, runfiles.__name__: runfiles,
          'rules_python': types.ModuleType('rules_python'),
          'rules_python.python': types.ModuleType('rules_python.python')}
  if not _ready.issuperset(names):
    _put(fake, names)      # So that all but the repository's is there.
    _ready.update(names)
  world = World(p, pynini, rules)
  fake['pynini'] = world.module()
  if p.model is None:
    fake['re'] = make_re()
    s = fake['string'] = types.ModuleType('string')
    s.__dict__.update(vars(string))
    for k in ('whitespace', 'punctuation', 'printable', 'digits'):
      setattr(s, k, Text(getattr(string, k)))
  mods = _put(fake, names)
  world.importing = False
  return world, mods
