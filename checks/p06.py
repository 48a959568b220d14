"""P06: the entry points apply the named grammar to exactly the text given."""
from nv import sym, texts

B = 'com_google_nisaba/nisaba/scripts/brahmic/'
A = 'com_google_nisaba/nisaba/scripts/abjad_alphabet/'
RULES = {
    B + 'iso.far': ('FROM_BRAHMIC', 'TO_DEVA', 'TO_TAML', 'TO_BENG'),
    B + 'nfc.far': ('BRAHMIC',),
    B + 'visual_norm.far': ('DEVA', 'TAML', 'BENG', 'BENG.AS', 'BENG.BN'),
    B + 'wellformed.far': ('DEVA', 'TAML', 'BENG'),
    A + 'nfc.far': ('ARAB',),
    A + 'reversible_roman.far': ('FROM_ARAB', 'TO_ARAB'),
    A + 'visual_norm.far': ('UR', 'FA', 'KS'),
    A + 'reading_norm.far': ('UR', 'FA', 'KS'),
}
BRAHMIC = 'nisaba.scripts.brahmic'
ABJAD = 'nisaba.scripts.abjad_alphabet'
FAR = 'nisaba.scripts.utils.far'
FN = ['far.Far.FstWrapper.ApplyOnText', 'far.Far.FstWrapper.AcceptText',
      'far.Far.Fst', 'far.Far._LoadFar', 'file.AsResourcePath']
FN_B = FN + ['brahmic.NormalizingAcceptor.ApplyOnText',
             'brahmic.NormalizingAcceptor.ApplyOnWord', 'brahmic.VisualNorm',
             'brahmic.WellFormed']
FN_A = FN + ['abjad_alphabet.Normalizer.ApplyOnText',
             'abjad_alphabet.Normalizer.ApplyOnWord', 'abjad_alphabet.Nfc',
             'abjad_alphabet.VisualNorm']
SPACES = ' \t\n\r\v\f'


def outcome(f, *args):
  try:
    return f(*args)
  except ValueError as e:
    return type(e).__name__


def expect(p, got, want, label):
  """Strings (or names of errors, or truth values) that must be equal."""
  if isinstance(want, str) and isinstance(got, str):
    p.check(texts.same(got, want), label)
  else:
    p.check(type(got) is type(want) and got == want, label)


def applied(world, key, text):
  return (world.output(key, text) if world.takes(key, text)
          else 'FstInputError')


def wrapper(n):
  """One transducer, any text."""
  def harness(p):
    texts.start(p)
    world, (b, far) = texts.load(p, [BRAHMIC, FAR], RULES)
    t = texts.text(p, 't', n)
    key = (B + 'visual_norm.far', 'DEVA')
    fst = b.VisualNorm('Deva')
    got = outcome(fst.ApplyOnText, t)
    expect(p, got, applied(world, key, t), 'ApplyOnText')
    key = (B + 'wellformed.far', 'DEVA')
    got = b.WellFormed('Deva').AcceptText(t)
    expect(p, bool(got), world.takes(key, t), 'AcceptText')
    # Again, and another text: the wrapper has no memory.
    u = texts.text(p, 'u', n)
    key = (B + 'visual_norm.far', 'DEVA')
    expect(p, outcome(fst.ApplyOnText, u), applied(world, key, u), 'another')
    expect(p, outcome(fst.ApplyOnText, t), applied(world, key, t), 'again')
  return harness


def in_words(line, ignored):
  """[(is a word, text)]: the maximal runs of characters (not) ignored."""
  out = []
  for c in str.__iter__(line):
    w = not texts.decide(texts.is_one_of(c, ignored))
    if out and out[-1][0] == w:
      out[-1] = (w, out[-1][1] + c)
    else:
      out.append((w, c))
  return out


def line(which, tag, ignore):
  """The normalizers, on a line of any characters."""
  def harness(n, p):
    texts.start(p)
    world, (b,) = texts.load(p, [which], RULES)
    make = b.NormalizingAcceptor if which == BRAHMIC else b.Normalizer
    if ignore is None:
      norm, ignored = make(tag), SPACES
    else:
      ignored = texts.text(p, 'i', ignore) if isinstance(
          ignore, int) else texts.plain(p, ignore)
      norm = make(tag, ignore=ignored)
    t = texts.text(p, 't', n)
    got = outcome(norm.ApplyOnText, t)
    want = ''
    for is_word, w in in_words(t, ignored):
      if is_word and which == BRAHMIC:
        r = applied(world, (B + 'visual_norm.far', tag.upper()), w)
        if r != 'FstInputError' and not world.takes(
            (B + 'wellformed.far', tag.upper()), r):
          r = 'IllFormedError'
      elif is_word:
        r = applied(world, (A + 'nfc.far', 'ARAB'), w)
        if r != 'FstInputError':
          r = applied(world, (A + 'visual_norm.far', tag.upper()), r)
      else:
        r = w
      if r in ('FstInputError', 'IllFormedError'):
        want = r
        break
      want += r
    expect(p, got, want, 'ApplyOnText')
  return lambda n: lambda p: harness(n, p)


CALLS = {
    BRAHMIC: [
        ('ToIso', None, 'iso', 'FROM_BRAHMIC'),
        ('Nfc', None, 'nfc', 'BRAHMIC'),
        ('IsoTo', 'Deva', 'iso', 'TO_DEVA'), ('IsoTo', 'taml', 'iso', 'TO_TAML'),
        ('IsoTo', 'BENG', 'iso', 'TO_BENG'), ('IsoTo', 'Zzzz', 'iso', None),
        ('VisualNorm', 'Taml', 'visual_norm', 'TAML'),
        ('VisualNorm', 'deva', 'visual_norm', 'DEVA'),
        ('VisualNorm', 'Beng.as', 'visual_norm', 'BENG.AS'),
        ('VisualNorm', 'Zzzz', 'visual_norm', None),
        ('WellFormed', 'Deva', 'wellformed', 'DEVA'),
        ('WellFormed', 'TAML', 'wellformed', 'TAML'),
        ('WellFormed', 'Zzzz', 'wellformed', None)],
    ABJAD: [
        ('Nfc', None, 'nfc', 'ARAB'),
        ('FromReversibleRoman', None, 'reversible_roman', 'TO_ARAB'),
        ('VisualNorm', None, 'visual_norm', 'UR'),
        ('VisualNorm', 'fa', 'visual_norm', 'FA'),
        ('VisualNorm', 'KS', 'visual_norm', 'KS'),
        ('VisualNorm', 'zz', 'visual_norm', None),
        ('ReadingNorm', None, 'reading_norm', 'UR'),
        ('ReadingNorm', 'fa', 'reading_norm', 'FA'),
        ('ReadingNorm', 'Ks', 'reading_norm', 'KS'),
        ('ReadingNorm', 'zz', 'reading_norm', None)],
}


def history(which):
  """Entry points called in any order."""
  def harness(n, p):
    texts.start(p)
    world, (m,) = texts.load(p, [which], RULES)
    calls = CALLS[which]
    for i in range(n):
      k = int(p.int('call%d' % i, 0, len(calls) - 1))
      name, arg, far, rule = calls[k]
      t = texts.text(p, 't%d_' % i, 1)
      try:
        fst = getattr(m, name)(*[a for a in [arg] if a])
      except KeyError:
        p.check(rule is None, '%s(%s) is not there' % (name, arg))
        continue
      p.check(rule is not None, '%s(%s) should not be there' % (name, arg))
      if rule is None:
        return
      key = ((B if which == BRAHMIC else A) + far + '.far', rule)
      if name == 'WellFormed':
        expect(p, bool(fst.AcceptText(t)), world.takes(key, t), name)
      else:
        expect(p, outcome(fst.ApplyOnText, t), applied(world, key, t), name)
  return lambda n: lambda p: harness(n, p)


def unknown(n):
  def harness(p):
    texts.start(p)
    _, (b, a) = texts.load(p, [BRAHMIC, ABJAD], RULES)
    p.check(bool(p.int('x', 0, 1) >= 0), 'input')
    p.check(outcome(b.NormalizingAcceptor, 'Zzzz') == 'ScriptError', 'script')
    p.check(outcome(a.Normalizer, 'zz') == 'TagError', 'tag')
  return harness


def run(c):
  c.explore('FstWrapper', wrapper, c.pick([0, 1, 2, 3], [0, 1, 2, 3, 4, 5]), FN)
  for which, tag, fn in ((BRAHMIC, 'Deva', FN_B), (BRAHMIC, 'Taml', FN_B),
                         (ABJAD, 'ur', FN_A), (ABJAD, 'fa', FN_A)):
    name = '%s %s' % (which.split('.')[-1], tag)
    c.explore(name + ' line', line(which, tag, None),
              c.pick([0, 2, 3], [0, 2, 3, 4]), fn)
    if c.quick and tag in ('Taml', 'fa'):
      continue
    for ignore in (']', '^-', '\\', 'a-c', ' ', '\\d', 'aa'):
      c.explore('%s but %r' % (name, ignore), line(which, tag, ignore),
                c.pick([2], [2, 3]), fn)
    c.explore(name + ' but one', line(which, tag, 1), c.pick([2], [2, 3]), fn)
    if not c.quick:
      c.explore(name + ' but two', line(which, tag, 2), [1, 2], fn)
  for which, fn in ((BRAHMIC, FN_B), (ABJAD, FN_A)):
    c.explore('%s calls' % which.split('.')[-1], history(which),
              c.pick([2], [2, 3]), fn)
  c.explore('unknown', unknown, [0], FN)
  c.run()
