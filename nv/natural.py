"""Reference of natural transliteration: the rules of the nine languages.

A word is a sequence of tokens: <g> for a grapheme, = between the two sides of an
alignment, {p} for a phoneme, and Latin letters in quotes for its transliteration.
The rules are stated here over tokens; OpenFst's context-dependent rewriting makes
a transducer of each, and their composition is the reference.
"""
import functools
import string

import pynini

from nv import brahmic as b, claims, machines

BASE = 0x100000
LANGS = ['bn', 'gu', 'hi', 'kn', 'ml', 'mr', 'pa', 'ta', 'te']

# Graphemes: their ISO letters and phonemes.
VOWEL = {
    'a': ('a', '_'), 'aa': ('ā', 'a :h'), 'ac': ('æ', 'ae'), 'an': ('ạ', 'a'),
    'e': ('e', 'e'), 'ee': ('ē', 'e :h'), 'ec': ('ê', 'ae'), 'i': ('i', 'i'),
    'ii': ('ī', 'i :h'), 'o': ('o', 'o'), 'oo': ('ō', 'o :h'), 'oc': ('ô', 'oh'),
    'u': ('u', 'u'), 'uu': ('ū', 'u :h'),
}
CONS = {
    'b': ('b', 'b'), 'c': ('c', 't + sh'), 'd': ('d', 'di'), 'dd': ('ḍ', 'dd'),
    'f': ('f', 'f'), 'g': ('g', 'g'), 'gg': ('ġ', 'gh'), 'h': ('h', 'h'),
    'j': ('j', 'd + zh'), 'k': ('k', 'k'), 'l': ('l', 'l'), 'll': ('ḷ', 'll'),
    'lr': ('ḻ', 'rru'), 'm': ('m', 'm'), 'n': ('n', 'ni'), 'ny': ('ñ', 'ny'),
    'ng': ('ṅ', 'ng'), 'nn': ('ṇ', 'nn'), 'na': ('ṉ', 'n'), 'p': ('p', 'p'),
    'q': ('q', 'q'), 'r': ('r', 'rt'), 'rd': ('ṛ', 'rd'), 'rr': ('ṟ', 'r'),
    's': ('s', 's'), 'sh': ('ś', 'sh'), 'ss': ('ṣ', 'ss'), 't': ('t', 'ti'),
    'tt': ('ṭ', 'tt'), 'ta': ('ṯ', 't'), 'v': ('v', 'vu'), 'x': ('x', 'kh'),
    'y': ('y', 'y'), 'yy': ('ẏ', 'y H'), 'z': ('z', 'z'),
}
CODA = {
    'avg': ('’', 'sil'), 'nkt': ('ˑ', 'sil'), 'vis': ('ḥ', 'h'),
    'vis_ta': ('ḵ', 'g'), 'ans': ('ṁ', 'N'), 'cnd_dia': ('̐', 'sil'),
    'upadh': ('ḫ', 'h'), 'jihva': ('ẖ', 'h'), 'add': ('˖', 'sil'),
    'tip': ('ṃ', 'N'),
}
OTHER = {
    'ot': ('õ', 'o :h'), 'asp': ('ʰ', 'H'), 'vcl': ('̥', 'S'),
    'long': ('̄', 'sil'), 'chl': ('ⸯ', 'sil'), 'eye': ('̆', 'sil'),
    'ind': ('.', 'sil'), 'sgn': ('-', 'sil'), 'zwj': ('+', 'sil'),
    'zwn': ('|', 'sil'),
}
SIMPLE = {**VOWEL, **CONS, **CODA, **OTHER}
# Graphemes of several letters.
LONG_VOCALIC = {'llv': ('l vcl long', 'l S :h'), 'rrv': ('r vcl long', 'r S :h')}
TWO_POINT = {
    'lv': ('l vcl', 'l S'), 'rv': ('r vcl', 'r S'), 'ai': ('a i', 'a + i'),
    'au': ('a u', 'a + u'), 'aan': ('an long', 'a :h'),
}
VOCALIC = ['lv', 'rv', 'llv', 'rrv']
SIGNS = [*VOWEL, *TWO_POINT, *LONG_VOCALIC]
_PH = {k: p for k, (_, p) in {**SIMPLE, **LONG_VOCALIC, **TWO_POINT}.items()}
INDEPENDENT = {s + '_i': ('ind ' + s, 'a' if s == 'a' else _PH[s])
               for s in SIGNS if s != 'aan'}
ASPIRATED = {s + 'h': (s + ' asp', _PH[s] + ' H')
             for s in 'b c d dd g j k p rd t tt'.split()}
DEAD = {s + '_chl': (s + ' chl', 'n' if s == 'n' else _PH[s])
        for s in 'k l ll n nn rr'.split()}
DEAD.update({'reph': ('r chl', 'rt'), 'r_eye': ('r eye', 'rt')})
LAST = {'om': ('ot m', 'o :h m'), 'cnd': ('m cnd_dia', 'N')}
COMPOSITE = {**LONG_VOCALIC, **TWO_POINT, **INDEPENDENT, **ASPIRATED, **DEAD,
             **LAST}
_PH.update({k: p for k, (_, p) in COMPOSITE.items()})

# Phonemes.
NASALS = 'm ni n nn ny ng'.split()
VL_STOPS, VD_STOPS = 'p ti t tt k q'.split(), 'b di d dd g'.split()
VL_FRIC, VD_FRIC = 'f s sh ss kh h'.split(), 'z zh gh'.split()
AFFRICATES = ['t + sh', 'd + zh']
APPROX, TAPS = 'vu rru y l ll'.split(), 'r rt rd'.split()
CONSONANTS = (NASALS + VL_STOPS + VD_STOPS + VL_FRIC + VD_FRIC + AFFRICATES +
              APPROX + TAPS)
VOWELS = '_ V S a ae e ec eh i o oh u'.split() + ['a + i', 'a + u']
VOWEL_MODS = ['Z', 'N', ':h']
PLACE = [('m', 'm b p'), ('ni', 'ni di ti'), ('ny', 'n d t'), ('ny', 'ny y'),
         ('nn', 'nn dd tt'), ('ng', 'ng g k')]

IPA = {
    'sil': '', '_': '', 'V': '', 'S': '̍', 'Z': '̯', 'N': '~', 'H': 'ʰ',
    ':h': 'ː', '+': '͡', 'a': 'a', 'ae': 'æ', 'e': 'e', 'ec': 'ə', 'eh': 'ɛ',
    'i': 'i', 'o': 'o', 'oh': 'ɔ', 'u': 'u', 'm': 'm', 'ni': 'n̪', 'n': 'n',
    'nn': 'ɳ', 'ny': 'ɲ', 'ng': 'ŋ', 'p': 'p', 'ti': 't̪', 't': 't', 'tt': 'ʈ',
    'k': 'k', 'q': 'q', 'b': 'b', 'di': 'd̪', 'd': 'd', 'dd': 'ɖ', 'g': 'ɡ',
    'f': 'f', 's': 's', 'sh': 'ʃ', 'ss': 'ʂ', 'kh': 'x', 'h': 'h', 'z': 'z',
    'zh': 'ʒ', 'gh': 'ɣ', 'vu': 'ʋ', 'rru': 'ɻ', 'y': 'j', 'l': 'l', 'll': 'ɭ',
    'r': 'r', 'rt': 'ɾ', 'rd': 'ɽ',
}
# Latin letters; a word of several letters is one unit of transliteration.
LATIN = {
    'sil': '', '_': '', 'V': '', 'S': 'i', 'Z': '', 'N': 'n', 'H': 'h',
    ':h': '', 'a': 'a', 'ae': 'ae', 'e': 'e', 'ec': 'a', 'eh': 'e', 'i': 'i',
    'o': 'o', 'oh': 'o', 'u': 'u', 'm': 'm', 'ni': 'n', 'n': 'n', 'nn': 'n',
    'ny': 'ny', 'ng': 'ng', 'p': 'p', 'ti': 't', 't': 't', 'tt': 't', 'k': 'k',
    'q': 'k', 'b': 'b', 'di': 'd', 'd': 'd', 'dd': 'd', 'g': 'g', 'f': 'f',
    's': 's', 'sh': 'sh', 'ss': 'sh', 'kh': 'kh', 'h': 'h', 'z': 'z',
    'zh': 'zh', 'gh': 'g', 'vu': 'v', 'rru': 'zh', 'y': 'y', 'l': 'l',
    'll': 'l', 'r': 'r', 'rt': 'r', 'rd': 'rd',
    'a + i': 'ai', 'a + u': 'au', 't + sh': 'ch', 'd + zh': 'j',
}
ALL = [p for p in LATIN if p != ':h'] + [':h']
UNITS = sorted({u for u in LATIN.values() if u} |
               {a for a in 'abcdefghijklmnopqrstuvwxyz'} |
               {a for a in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'} |
               {a + a for a in 'aeiou'} | {'DEL'})

_ids = {}


def _token(name):
  return _ids.setdefault(name, BASE + len(_ids))


for _g in list(SIMPLE) + list(COMPOSITE) + ['vir']:
  _token('<%s>' % _g)
_token('=')
for _p in IPA:
  _token('{%s}' % _p)
for _u in UNITS:
  _token('`%s`' % _u)
TOKENS = dict(_ids)
GRAPHEMES = ['<%s>' % g for g in list(SIMPLE) + list(COMPOSITE) + ['vir']]
TOKENS_R = [t for t in TOKENS if t[0] in '{`']


def word(*labels):
  f = pynini.Fst()
  s = f.add_state()
  f.set_start(s)
  one = pynini.Weight.one('tropical')
  for a in labels:
    t = f.add_state()
    f.add_arc(s, pynini.Arc(a, a, one, t))
    s = t
  f.set_final(s)
  return f


def w(text):
  """'<a> = {i}' as an acceptor."""
  return word(*[TOKENS[t] for t in text.split()])


def union(*fs):
  r = fs[0].copy()
  for f in fs[1:]:
    r.union(f)
  return r.optimize()


def star(f):
  r = f.copy()
  return r.closure().optimize()


def opt(f):
  return union(f, EPS)


EPS = word()
BOS, EOS = pynini.accep('[BOS]'), pynini.accep('[EOS]')
SIGMA = star(union(*[word(t) for t in TOKENS.values()]))


def ph(text):
  """Phonemes in sequence."""
  return w(' '.join('{%s}' % p for p in text.split()))


def gr(*names):
  return union(*[w('<%s>' % n) for n in names])


def phs(names, mods=()):
  """One of the phonemes, with any of the modifiers after it."""
  f = union(*[ph(n) for n in names])
  return f + star(phs(mods)) if mods else f


LEFT = opt(star(gr(*(g[1:-1] for g in GRAPHEMES))) + w('='))
RIGHT = opt(w('=') + star(union(*[w(t) for t in TOKENS_R])))
SKIP = union(LEFT, RIGHT)
BOW, EOW = BOS + LEFT, RIGHT + EOS

V = phs(VOWELS, VOWEL_MODS)
C = phs(CONSONANTS, ['H'])
SCHWA_BEARING = gr(*CONS, *ASPIRATED)


def then(a, b):
  """b after a, in the same alignment or in the next."""
  return a + LEFT + b


def rule(pairs, before=None, after=None):
  tau = union(*[pynini.cross(a, b) for a, b in pairs])
  return pynini.cdrewrite(tau, EPS if before is None else before + SKIP,
                          EPS if after is None else SKIP + after,
                          SIGMA).optimize()


def change(old, new, before=None, after=None):
  return rule([(ph(old), ph(new))], before, after)


def al(g, r):
  return w(' '.join('<%s>' % x for x in g.split())) + w('=') + (
      r if isinstance(r, pynini.Fst) else ph(r))


def assign(g, old, new, before=None, after=None):
  """The alignment of g with old becomes one with new."""
  return rule([(al(g, old), al(g, new))], before, after)


def merge(g1, r1, g2, r2, new, before=None, after=None):
  return rule([(al(g1, r1) + al(g2, r2), al(g1 + ' ' + g2, new))], before, after)


def tr(text):
  """Units of transliteration."""
  return w(' '.join('`%s`' % u for u in text.split()))


def seq(*fs):
  r = None
  for f in fs:
    if r is None:
      r = f.copy()
    else:
      r = pynini.compose(r.arcsort('olabel'), f.copy().arcsort('ilabel'))
    r.optimize()
  return r


# Reading ISO.

def _compose(d):
  return rule([(w(' '.join('<%s>' % x for x in parts.split())), w('<%s>' % k))
               for k, (parts, _) in d.items()])


@functools.cache
def read():
  """ISO letters to graphemes and the phonemes they are assigned."""
  letters = pynini.union(*[
      pynini.cross(word(*map(ord, l)), w('<%s>' % k))
      for k, (l, _) in SIMPLE.items()]).closure().optimize()
  initial = rule([(EPS, w('<ind>'))], BOW, gr(*[s for s in SIGNS if s != 'aan']))
  give = pynini.union(*[pynini.cross(w('<%s>' % k), al(k, p))
                        for k, p in _PH.items()]).closure().optimize()
  return seq(letters, _compose(LONG_VOCALIC), _compose(TWO_POINT), initial,
             _compose(INDEPENDENT), _compose({**ASPIRATED, **DEAD}),
             _compose(LAST), give)


# Pronunciation.

def a_to_schwa():
  """The inherent /a/ is a schwa; the long one and the diphthongs keep it."""
  return seq(change('a', 'ec'), change('ec :h', 'a :h'), change('ec +', 'a +'))


def vocalic(v):
  return seq(change('S', v), change('S :h', v + ' :h'))


def nasal(g):
  """A nasal sign takes the place of what follows."""
  return seq(*[assign(g, 'N', n, after=phs(p.split()))
               for n, p in PLACE])


def onset(*cl):
  return then(union(C, *cl), V)


def coda(*cl):
  return then(V, opt(union(C, *cl)))


def schwa(onset_cl, coda_cl):
  """Which of the inherent vowels are pronounced."""
  before, after = coda(*coda_cl), onset(*onset_cl)
  return seq(
      change('_', 'V', after=gr(*CODA, 'cnd')),
      change('_', 'V', after=gr(*INDEPENDENT)),
      change('_', 'V', before=then(union(ph('i'), ph('i :h')), ph('y'))),
      change('_', 'sil', before, EOS),
      change('_', 'sil', before, after))


ONSETS = [
    then(ph('k'), ph('sh')),
    then(ph('s'), phs('t rt ni y vu'.split())),
    then(phs('vu ni'.split()), ph('y')),
    then(phs('k p g di sh'.split()), ph('rt')),
]
SIBILANTS = 's z sh zh ss'.split()
LIQUIDS = TAPS + ['rru', 'l', 'll']
RHOTICS = TAPS + ['rru']


def codas(affricates=False):
  stops = phs(VL_STOPS + VD_STOPS, ['H'])
  if affricates:
    stops = union(stops, phs(AFFRICATES, ['H']))
  voiced = VD_STOPS + VD_FRIC + ['d + zh']
  return [
      then(C, stops),
      then(phs(voiced), phs(NASALS)),
      then(phs([f for f in VL_FRIC + VD_FRIC if f != 'h']),
           phs([n for n in NASALS if n != 'm'])),
      then(phs(SIBILANTS), ph('m')),
      then(phs(LIQUIDS + NASALS), phs(NASALS)),
      then(phs(RHOTICS), phs(RHOTICS)),
  ]


def default_schwa(v):
  return rule([(ph('_'), ph(v)), (ph('V'), ph(v))])


def adjacent(g1, r1, n1, g2, r2, n2):
  return rule([(al(g1, r1) + al(g2, r2), al(g1, n1) + al(g2, n2))])


def jny(a, b):
  return adjacent('j', 'd + zh', a, 'ny', 'ny', b)


def f_for_ph():
  return assign('ph', 'p H', 'f')


def glides():
  return seq(change('a + i', 'eh :h'), change('a + u', 'oh :h'))


def rr_tt():
  return merge('rr', 'r', 'rr', 'r', ph('t t'))


def voicing(pairs, before, after=None):
  return rule([(ph(a), ph(b)) for a, b in pairs], before, after)


VOICED = [('k', 'g'), ('p', 'b'), ('t', 'd'), ('ti', 'di'), ('tt', 'dd')]
CJ, CS = ('t + sh', 'd + zh'), ('t + sh', 's')


def addak():
  onsets = {_PH[k] for k in [*CONS, *DEAD]}
  return seq(
      rule([(ph(p), ph(p + ' ' + p)) for p in sorted(onsets)], ph('sil')),
      change('t t + sh', 't + sh t + sh', ph('sil')),
      change('d d + zh', 'd + zh d + zh', ph('sil')))


def anyp():
  return phs(ALL)


@functools.cache
def pronounce(lang):
  """The pronunciation rules of a language."""
  if lang in ('kn', 'te'):
    r = [vocalic('u'), default_schwa('a'), nasal('ans'), assign('ans', 'N', 'm'),
         jny('g', 'ny')]
    if lang == 'kn':
      r = [change('rt', 'r')] + r
  elif lang == 'hi':
    r = [glides(), a_to_schwa(), vocalic('i'), nasal('ans'),
         schwa(ONSETS, codas()), default_schwa('ec'), assign('ans', 'N', 'ni'),
         rule([(al('ans', n), al('ans', 'N')) for n in NASALS], after=EOW),
         jny('g', 'y'), adjacent('ph', 'p H', 'f', 'ph', 'p H', 'f')]
  elif lang == 'gu':
    r = [a_to_schwa(), vocalic('u'), nasal('ans'), schwa(ONSETS, codas()),
         default_schwa('ec'), assign('ans', 'N', 'ni'), jny('di', 'ny'),
         f_for_ph()]
  elif lang == 'mr':
    r = [glides(), a_to_schwa(), vocalic('u'),
         assign('h', 'h', 'H', before=phs('m ni vu l r'.split())),
         nasal('ans'), schwa(ONSETS, codas()), default_schwa('ec'),
         assign('ans', 'N', 'ni'), jny('di', 'ny'), f_for_ph()]
  elif lang == 'pa':
    end = gr('ans') + SKIP + EOW
    r = [addak(), glides(), a_to_schwa(), vocalic('i'), nasal('ans'),
         nasal('tip'), assign('u_i', 'u', 'o', after=end),
         merge('oo', 'o :h', 'aa_i', 'a :h', 'ec o', after=end),
         merge('ans', 'N', 'v', 'vu', 'o N', after=gr('a') + SKIP + EOW),
         schwa(ONSETS, codas()), default_schwa('ec'), f_for_ph(),
         rule([(ph('H'), EPS)], after=anyp() + ph('H'))]
  elif lang == 'bn':
    r = [assign('a_i', 'a', 'ae'), vocalic('i'), schwa(ONSETS, codas(True)),
         default_schwa('oh'), assign('ans', 'N', 'ng'), jny('g', 'g'),
         rule([(ph('H'), EPS)], gr('yy')),
         merge('oo_i', 'o :h', 'yy', 'y', 'vu'),
         assign('a', 'oh', 'sil', after=w('<oo_i> <yy>')),
         assign('bh', 'b H', 'vu', anyp()), assign('b', 'b', 'vu', C),
         f_for_ph()]
  elif lang == 'ml':
    around = union(V, phs(APPROX), phs(NASALS))
    r = [rule([(EPS, al('u', 'u'))],
              SCHWA_BEARING + w('=') + star(anyp()), EOW),
         vocalic('ec'), default_schwa('a'), nasal('ans'),
         assign('ans', 'N', 'm'), rr_tt(),
         voicing(VOICED + [CJ], around, then(opt(ph('H')), around)),
         voicing([('tt', 'dd')], phs(NASALS)), jny('sil', 'ny')]
  elif lang == 'ta':
    around = union(V, phs(APPROX), phs(NASALS), phs(RHOTICS))
    r = [vocalic('ec'), default_schwa('a'), nasal('ans'),
         assign('ans', 'N', 'm'), rr_tt(),
         merge('na', 'n', 'rr', 'r', 'n d r'),
         voicing([CJ], ph('ny'), around),
         voicing(VOICED + [CS], around, around), voicing([CS], BOS, around),
         jny('sil', 'ny')]
  return seq(*r)


# Writing.

def _right():
  """Only the right sides are kept."""
  return rule([(w(g), EPS) for g in GRAPHEMES + ['=']])


@functools.cache
def ipa():
  out = pynini.union(*[pynini.cross(ph(p), word(*map(ord, s)))
                       for p, s in IPA.items()]).closure().optimize()
  return seq(_right(), out)


@functools.cache
def latin():
  """Phonemes to units of transliteration, composite ones first."""
  unit = lambda p: tr(LATIN[p] or 'DEL')
  return seq(rule([(ph(p), unit(p)) for p in LATIN if ' ' in p]),
             rule([(ph(p), unit(p)) for p in LATIN if ' ' not in p]))


@functools.cache
def letters():
  out = pynini.union(*[
      pynini.cross(w('`%s`' % u), word(*map(ord, '' if u == 'DEL' else u)))
      for u in UNITS]).closure().optimize()
  return seq(_right(), out)


def common():
  """Before anything is transliterated, but for Bengali."""
  return seq(
      *[assign(g, p, tr(u)) for g, p, u in [
          ('ai', 'eh :h', 'ai'), ('au', 'oh :h', 'au'), ('ai_i', 'eh :h', 'ai'),
          ('au_i', 'oh :h', 'au')]],
      rule([(al('ans', n), al('ans', tr('n'))) for n in ('ng', 'ny')]),
      assign('rdh', 'rd H', tr('d h')))


def long_double():
  """A long vowel is its letter doubled."""
  return seq(*[rule([(ph(p + ' :h'), tr(LATIN[p] * 2 if len(LATIN[p]) == 1 and
                                        LATIN[p] in 'aeiou' else
                                        '%s' % LATIN[p]))])
               for p in VOWELS if ' ' not in p and LATIN[p]])


def no_length():
  return rule([(ph(':h'), EPS)])


# Rules of the natural and of some of the other transliterations.

def w_after_sibilant():
  return rule([(ph('vu'), tr('w'))], phs(SIBILANTS))


def geminates():
  """cc is cch, cch is chh, and ssh stands for two sh."""
  twice = lambda g, u, new: merge(g, tr(u), g, tr(u), tr(new))
  return seq(twice('c', 'ch', 'c ch'),
             merge('c', tr('ch'), 'ch', tr('ch h'), tr('ch h')),
             twice('ss', 'sh', 's sh'), twice('sh', 'sh', 's sh'))


def english_long():
  return seq(rule([(ph('i :h'), tr('e e'))]), rule([(ph('u :h'), tr('o o'))]))


def th():
  return seq(merge('t', 'ti', 't', 'ti', tr('t h')), assign('t', 'ti', tr('t h')),
             assign('t', 'di', tr('t h')))


def ny():
  return seq(rule([(ph('ny'), tr('n'))], after=C),
             assign('ny', 'ny', tr('g n'), V, V))


def vocalic_i():
  """The vowel of a vocalic liquid is i."""
  v = ['ec', 'S']
  return seq(rule([(phs(v) + ph(':h'), tr('ii'))], gr(*VOCALIC, *[
      x + '_i' for x in VOCALIC])),
             rule([(phs(v), tr('i'))], gr(*VOCALIC, *[
                 x + '_i' for x in VOCALIC])))


def bengali():
  return seq(rule([(ph('ae'), tr('a'))]), assign('a', 'oh', tr('a')),
             assign('rd', 'rd', tr('r')))


# The Hindi spelling of English letters.
_SPELT = {
    'A': ['E_i'], 'B': ['b I'], 'C': ['s I'], 'D': ['dd I'], 'E': ['I_i'],
    'F': ['E_i F a'], 'G': ['j I'], 'H': ['E_i c a'], 'I': ['A_i I_i'],
    'J': ['j E'], 'K': ['k E'], 'L': ['E_i l a'], 'M': ['E_i m a'],
    'N': ['E_i n a'], 'O': ['O_i'], 'P': ['p I'], 'Q': ['k y U'],
    'R': ['A_i r a'], 'S': ['E_i s a'], 'T': ['tt I'], 'U': ['y U'],
    'V': ['v I'],
    'W': ['dd a b l U', 'dd a b l y U', 'dd a b a l y U', 'dd a b l a y U'],
    'X': ['E_i k s a'], 'Y': ['v A I_i'], 'Z': ['Z E dd a'],
}
_EITHER = {'A': 'a aa', 'E': 'e ee', 'I': 'i ii', 'U': 'u uu', 'F': 'f ph',
           'Z': 'j z', 'O': 'o oo'}


def _spelt(text):
  any_right = star(union(*[w(t) for t in TOKENS_R]))
  r = None
  for g in text.split():
    base, _, ind = g.partition('_')
    names = [n + ('_' + ind if ind else '') for n in
             _EITHER.get(base, base).split()]
    f = gr(*names) + w('=') + any_right
    r = f if r is None else r + f
  return r


@functools.cache
def acronyms():
  """A word that spells English letters is written as those letters."""
  spelt = [(_spelt(t), a) for a, ts in _SPELT.items() for t in ts]
  upper = star(union(*[tr(a) for a in _SPELT]))
  rest = star(union(*[f for f, _ in spelt]))
  return rule([(f, tr(a)) for f, a in spelt], BOS + upper, rest + EOS)


def single_letters():
  """No unit or letter is written twice in a row."""
  chars = [chr(a) for a in range(ord('a'), ord('z') + 1)]
  sigma = star(union(*[word(ord(a)) for a in chars]))
  r = []
  for units in ('ae ai au ch dh kh ng ny rd sh th zh'.split(), chars):
    tau = union(*[pynini.cross(word(*map(ord, u + u)), word(*map(ord, u)))
                  for u in units])
    r.append(pynini.cdrewrite(tau, EPS, EPS, sigma))
  return seq(*r)


@functools.cache
def reference(lang, kind):
  """The transducer of ISO_TO_<kind>."""
  p = [read(), pronounce(lang)]
  end = [letters()]
  if kind == 'ipa':
    return seq(*p, ipa())
  if kind in ('psaf', 'psac'):
    if lang == 'bn':
      p.append(bengali())
    else:
      if lang in ('ta', 'ml') and kind == 'psaf':
        p.append(vocalic_i())
      p.append(common())
    if kind == 'psaf':
      return seq(*p, long_double(), latin(), *end)
    return seq(*p, no_length(), latin(), *end, single_letters())
  if lang in ('kn', 'te'):
    return seq(*p, common(), latin(), *end)
  if lang == 'hi':
    p.insert(1, acronyms())
    p += [w_after_sibilant(), assign_initial_aa(),
          assign('rdh', 'rd H', tr('r h')), common()]
  elif lang in ('gu', 'mr'):
    p += [w_after_sibilant(),
          assign('oo', 'o :h', tr('a o'), after=gr('ans')),
          merge('aa', 'a :h', 'v', 'vu', tr('a o n'), gr('g')), common()]
  elif lang == 'pa':
    p += [assign('rd', 'rd', tr('r')), w_after_sibilant(), common()]
  elif lang == 'bn':
    p += [bengali(), w_after_sibilant(),
          rule([(ph('ny'), tr('n'))], after=ph('d + zh')),
          assign('aa', 'a :h', tr('a o'),
                 after=gr('cnd') + opt(SKIP + gr('oo')) + SKIP + EOW),
          assign('oo', 'o :h', tr('DEL'), gr('cnd'), EOW),
          rule([(w('<oo_i> <yy> =') + ph('vu'), w('<oo_i> <yy> =') + tr('w'))]),
          assign('yy', 'y', tr('DEL'), phs(['i', 'u']) + opt(ph(':h')))]
  elif lang == 'ml':
    p += [english_long(), th(), w_after_sibilant(), ny(), common()]
    return seq(*p, latin(), geminates(), *end)
  elif lang == 'ta':
    p += [english_long(), assign('ee', 'e :h', tr('a e')),
          assign('oo', 'o :h', tr('o a'), phs(APPROX)),
          assign('oo', 'o :h', tr('o a'), after=phs(APPROX)), th(),
          rule([(w('<rr> <rr> =') + ph('t t'), w('<rr> <rr> =') + tr('t t r'))]),
          w_after_sibilant(), ny(), common()]
    return seq(*p, latin(), geminates(), *end)
  return seq(*p, no_length(), latin(), geminates(), *end)


def assign_initial_aa():
  return assign('aa_i', 'a :h', tr('aa'), BOW)


# The real grammars.

P = '//nisaba/scripts/natural_translit'
KINDS = ['ipa', 'psaf', 'psac', 'nat']
E2E = ['hi', 'kn', 'ml', 'ta', 'te']


def far(lang, kind, token='utf8'):
  return '%s/%s:%s_iso_%s%s.far' % (P, 'g2p' if kind == 'ipa' else 'romanization',
                                    lang, kind, '_utf8' if token == 'utf8' else '')


def rule_of(c, path, key):
  g = machines.load(path)
  if key not in g:
    c.fatal('no rule %s in %s' % (key, path))
  return machines.small(g[key])


def key(kind):
  return 'ISO_TO_' + kind.upper()


def alphabet():
  return {a for l, _ in SIMPLE.values() for a in map(ord, l)}


def grammar(lang, kind):
  return machines.small(machines.Grammar(reference(lang, kind),
                                         'rules of ' + lang))


def agree(c, kinds):
  """Adds: the grammars are total, and have the outputs of the reference."""
  todo = [(l, k) for l in LANGS for k in kinds]
  built = c.build([far(l, k, t) for l, k in todo for t in ('utf8', 'byte')])
  for l, k in todo:
    fn = '%s of %s' % (key(k), l)
    g, y = (rule_of(c, built[far(l, k, t)], key(k)) for t in ('utf8', 'byte'))
    ref = grammar(l, k)

    def pipe(g=g, ref=ref):
      return claims.Pipe(alphabet()).apply(g, 'y').apply(ref, 'rules')
    claims.claim(c, fn, pipe, kinds[k], differ=('y', 'rules'), functions=[fn])
    b.total(c, g, alphabet(), fn, [3, 8])
    claims.same_bytes(c, g, y, alphabet(), fn, c.pick([2], [2, 4]))
  c.run()


def drop_last(sep, alphabet):
  """Machine that copies a word but for a separator at its end."""
  f = pynini.Fst()
  a, z = f.add_state(), f.add_state()
  one = pynini.Weight.one('tropical')
  f.set_start(a)
  f.set_final(a)
  for x in sorted(alphabet - {sep}):
    f.add_arc(a, pynini.Arc(x, x, one, a))
    q = f.add_state()
    f.add_arc(z, pynini.Arc(0, sep, one, q))
    f.add_arc(q, pynini.Arc(x, x, one, a))
  f.add_arc(a, pynini.Arc(sep, 0, one, z))
  q = f.add_state()
  f.add_arc(z, pynini.Arc(0, sep, one, q))
  f.add_arc(q, pynini.Arc(sep, 0, one, z))
  f.set_final(z)
  return machines.Grammar(f, 'cut').mealy
