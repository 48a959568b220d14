"""Reference of deromanization: Latin letters to ISO, by rules over tokens.

<x> is a Latin letter that is not read yet, and `x` a Brahmic letter: vowel signs,
independent vowels (.x), consonants with their inherent vowel, the virama and the
anusvara.
"""
import functools

import pynini

from nv import machines, natural as nt

BASE = 0x110200
LATIN = 'abcdefghijklmnopqrstuvwxyz'
# Vowels: short and long.
SHORT = {'a': 'ā', 'e': 'ē', 'i': 'ī', 'o': 'ō', 'u': 'ū'}
VOWELS = ['a', 'ā', 'e', 'ē', 'i', 'ī', 'o', 'ō', 'u', 'ū', 'ai', 'au']
ASPIRATES = ['b', 'c', 'd', 'g', 'j', 'k', 'p', 't']
CONSONANTS = (list('bcdfghjklmnprstvyz') + ['ś', 'ḻ', 'ṟ'] +
              [x + 'ʰ' for x in ASPIRATES])

# What each romanization of a consonant stands for.
PLAIN = {x: x for x in 'bcdghjklmnprstvy'}
PLAIN.update({'q': 'k', 'w': 'v', 'x': 'k ~ s', 'sh': 'ś', 'ch': 'c'})
HINDI = {x: PLAIN[x] for x in
         'b ch d g j k p t c h l m n q r s sh v w x y'.split()}
HINDI_FOREIGN = {'f': 'f', 'z': 'z'}
HINDI_ASPIRATED = 'b ch d g j k p t'.split()
TAMIL = {x: PLAIN[x] for x in 'ch j k p t c h l m n q r s sh v w x y'.split()}
TAMIL.update({'b': 'p', 'd': 't', 'g': 'k', 'tr': 'ṟ'})
TAMIL_FOREIGN = {'f': 'f', 'z': 'z'}
TAMIL_UNASPIRATED = 'b ch d g j k p t'.split()

_ids = {}


def _token(n):
  return _ids.setdefault(n, BASE + len(_ids))


for _x in LATIN:
  _token('<%s>' % _x)
for _x in CONSONANTS + VOWELS + ['.' + v for v in VOWELS] + ['~', 'ṁ']:
  _token(_x)
SIGMA = nt.star(nt.union(*[nt.word(i) for i in _ids.values()]))
BOS, EOS, EPS = nt.BOS, nt.EOS, nt.EPS


def rom(text):
  return nt.word(*[_ids['<%s>' % x] for x in text])


def brh(text):
  return nt.word(*[_ids[x] for x in text.split()])


def any_rom(letters):
  return nt.union(*[rom(x) for x in letters])


def any_brh(names):
  return nt.union(*[brh(x) for x in names])


CONS = any_brh(CONSONANTS)


def rule(pairs, before=EPS, after=EPS):
  return pynini.cdrewrite(
      nt.union(*[pynini.cross(a, b) for a, b in pairs]), before, after,
      SIGMA).optimize()


def twice(x):
  """The spellings of a geminate: kk; shsh or ssh."""
  t = [rom(x + x)]
  if len(x) > 1:
    t.append(rom(x[0] + x))
  return nt.union(*t)


def by_length(names):
  for n in (2, 1):
    g = [x for x in names if len(x) == n]
    if g:
      yield g


def vowels(pairs):
  """A vowel is a sign after a consonant, and independent elsewhere."""
  return [rule([(rom(a), brh(v)) for a, v in pairs], CONS),
          rule([(rom(a), brh('.' + v)) for a, v in pairs])]


def with_virama(pairs):
  """Consonants keep their vowel before a vowel letter only."""
  return [rule([(a, brh(x)) for a, x in pairs], after=any_rom('aeiou')),
          rule([(a, brh(x + ' ~')) for a, x in pairs])]


def plain(pairs):
  return [rule([(a, brh(x)) for a, x in pairs])]


def consonants(names, value, how, suffix=''):
  """Geminates, then single consonants, of the longer romanizations first."""
  r = []
  for g in by_length(names):
    if suffix is not None:
      r += how([(twice(x), '%s ~ %s' % (value[x], value[x])) for x in g])
    r += how([(rom(x), value[x]) for x in g])
  return r


def hindi():
  r = [rule([(rom('m'), brh('ṁ'))], any_rom('aeiou'), any_rom('bp')),
       rule([(rom('n'), brh('ṁ'))], any_rom('aeiou'), nt.union(
           any_rom(sorted(set('bcdfghjklpqrstvwxyz'))), EOS))]
  r += consonants(HINDI_FOREIGN, HINDI_FOREIGN, plain)
  for g in by_length(HINDI_ASPIRATED):
    c = {x: PLAIN[x] for x in g}
    r += plain([(twice(x) + rom('h'), '%s ~ %sʰ' % (c[x], c[x])) for x in g])
    r += plain([(rom(x + 'h' + x + 'h'), '%sʰ ~ %sʰ' % (c[x], c[x]))
                for x in g])
    r += plain([(rom(x + 'h'), c[x] + 'ʰ') for x in g])
  r += consonants(HINDI, HINDI, plain)
  r += vowels([(a + a, l) for a, l in SHORT.items()])
  r += vowels([('ai', 'ai'), ('au', 'au')])
  r += vowels([('e', 'ē'), ('o', 'ō')])
  r += vowels([(a, a) for a in 'aeiou'])
  # A consonant without a vowel has a virama only in the first and last cluster.
  r.append(rule([(EPS, brh('~'))], BOS + CONS, CONS))
  r.append(rule([(brh('a'), brh('ā'))], after=EOS))
  r.append(rule([(EPS, brh('~'))], CONS, CONS + EOS))
  return nt.seq(*r)


def tamil():
  r = with_virama([(rom('zhzh'), 'ḻ ~ ḻ'), (rom('zzh'), 'ḻ ~ ḻ')])
  r += with_virama([(rom('zh'), 'ḻ')])
  r += consonants(TAMIL_FOREIGN, TAMIL_FOREIGN, with_virama)
  for g in by_length(TAMIL_UNASPIRATED):
    v = {x: TAMIL[x] for x in g}
    r += with_virama([(rom(x + 'h' + x + 'h'), '%s ~ %s' % (v[x], v[x]))
                      for x in g])
    r += with_virama([(rom(x + 'h'), v[x]) for x in g])
  r += with_virama([(twice('tr'), 'ṟ ~ ṟ')])
  r += consonants([x for x in TAMIL if x != 'tr'], TAMIL, with_virama)
  r += vowels([(a + a, l) for a, l in SHORT.items()])
  r += vowels([('ai', 'ai'), ('au', 'au'), ('ae', 'ē'), ('oa', 'ō')])
  r += vowels([(a, a) for a in 'aeiou'])
  return nt.seq(*r)


def iso():
  """ISO letters: the inherent vowel is written, and the dot of an independent
  vowel is not at the start of the word."""
  signs = any_brh([v for v in VOWELS if v != 'a'])
  out = {_ids[x]: x for x in CONSONANTS + VOWELS + ['ṁ']}
  out.update({_ids['.' + v]: '.' + v for v in VOWELS})
  out[_ids['~']] = ''
  return nt.seq(
      rule([(EPS, brh('a'))], CONS),
      rule([(brh('a'), EPS)], after=nt.union(any_brh(VOWELS), brh('~'))),
      rule([(brh('.' + v), brh(v)) for v in VOWELS], BOS),
      nt.union(*[pynini.cross(nt.word(t), nt.word(*map(ord, s)))
                 for t, s in out.items()]).closure())


# Letters of the scripts: of vowels, the sign and the independent letter.
_DEVA = {'a': ' अ', 'ā': 'ाआ', 'i': 'िइ', 'ī': 'ीई', 'u': 'ुउ', 'ū': 'ूऊ',
         'e': 'ॆऎ', 'ē': 'ेए', 'ai': 'ैऐ', 'o': 'ॊऒ', 'ō': 'ोओ', 'au': 'ौऔ'}
_TAML = {'a': ' அ', 'ā': 'ாஆ', 'i': 'ிஇ', 'ī': 'ீஈ', 'u': 'ுஉ', 'ū': 'ூஊ',
         'e': 'ெஎ', 'ē': 'ேஏ', 'ai': 'ைஐ', 'o': 'ொஒ', 'ō': 'ோஓ', 'au': 'ௌஔ'}
_DEVA_C = dict(zip(
    'k kʰ g gʰ c cʰ j jʰ t tʰ d dʰ n p pʰ b bʰ m y r l v ś s h'.split(),
    'क ख ग घ च छ ज झ त थ द ध न प फ ब भ म य र ल व श स ह'.split()))
_DEVA_C.update({'f': 'फ़', 'z': 'ज़', '~': '्', 'ṁ': 'ं'})
_TAML_C = dict(zip(
    'k c j t n p m y r l v ḻ ṟ ś s h'.split(),
    'க ச ஜ த ந ப ம ய ர ல வ ழ ற ஶ ஸ ஹ'.split()))
_TAML_C.update({'f': 'ஃப', 'z': 'ஃஜ', '~': '்'})


def script(lang):
  vowels_, cons = {'hi': (_DEVA, _DEVA_C), 'ta': (_TAML, _TAML_C)}[lang]
  out = dict(cons)
  for v, (sign, letter) in vowels_.items():
    out[v] = sign.strip()
    out['.' + v] = letter
  return nt.union(*[pynini.cross(brh(t), nt.word(*map(ord, s)))
                    for t, s in out.items()]).closure()


@functools.cache
def reference(lang, to='iso'):
  read = nt.union(*[pynini.cross(nt.word(ord(x)), rom(x)) for x in LATIN])
  return nt.seq(read.closure(), {'hi': hindi, 'ta': tamil}[lang](),
                iso() if to == 'iso' else script(lang))


def grammar(lang, to='iso'):
  return machines.small(machines.Grammar(reference(lang, to),
                                         'rules of %s to %s' % (lang, to)))
