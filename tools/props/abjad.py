AB = 'nisaba/scripts/abjad_alphabet/'

prop('A01', 'Perso-Arabic NFC maps every text to exactly one result and is stable',
     'The ARAB rule of the abjad NFC archives gives exactly one output for '
     'every text over its alphabet, in the byte and the code point archives, and '
     'applying it again to the result of a canonically ordered text changes '
     'nothing.',
     'all strings over the alphabet of the grammar',
     'Overlapping compositions interact only in particular sequences of letters '
     'and marks.',
     [AB + 'nfc.py', 'nisaba/scripts/utils/rule.py'],
     [('NFC grammar', AB + 'nfc.py'), ('alphabet', AB + 'util.py')] + RULE,
     technique=SAT, note=FAR + 'Words of up to 6 code points or 10 bytes.')
prop('A02', 'Perso-Arabic NFC agrees with Unicode NFC',
     'For every canonically ordered text over the Arabic letters and marks of '
     'the alphabet, the result of the abjad NFC grammar is canonically '
     'equivalent to the text and has no pair of neighbours that Unicode '
     'composes.',
     'all canonically ordered strings over the alphabet',
     'The compositions are listed by hand, per letter; a missing, wrong or '
     'shadowed one shows only on its own sequence.',
     [AB + 'nfc.py', AB + 'data/Arab/nfc.textproto'],
     [('NFC rule data', AB + 'data/Arab/nfc.textproto'),
      ('NFC grammar', AB + 'nfc.py')],
     technique=SAT + ', against Unicode data',
     note=FAR + 'Canonical equivalence is decided class by class of marks. The '
     'oracle is unicodedata of the running Python. Words of up to 6 code points.')
prop('A03', 'Reversible romanization loses nothing but the NFC difference',
     'For every text over the Perso-Arabic letters of the table, FROM_ARAB gives '
     'exactly one romanization, TO_ARAB gives exactly one text for every '
     'romanization, and TO_ARAB of FROM_ARAB of a text is the NFC of the text.',
     'all strings over the letters, and over the romanization alphabet',
     'Letters share prefixes of their romanizations (combining marks, digraph '
     'ties), so unique decoding depends on every sequence of letters.',
     [AB + 'reversible_roman.py', AB + 'data/Arab/reversible_roman.textproto'],
     [('romanization', AB + 'reversible_roman.py'),
      ('table', AB + 'data/Arab/reversible_roman.textproto')],
     technique=SAT, note=FAR + 'All letters to length 2, samples of 45 letters '
     '(by VERIF_SEED) to length 4; romanizations of up to 7 symbols.')
prop('A04', 'Perso-Arabic reading norm is exactly its language\'s table',
     'For each of the 14 languages, reading norm replaces every occurrence of a '
     'left side of the language\'s table, a longer left side before those it '
     'contains, and nothing else; it gives exactly one output for every text and '
     'is idempotent.',
     'all strings over the alphabet of the grammar',
     'Whether a replacement is obligatory, leftmost and complete shows only in '
     'contexts that examples do not cover.',
     [AB + 'reading_norm.py', 'nisaba/scripts/utils/rule.py'],
     [('grammar', AB + 'reading_norm.py')] + RULE,
     technique=SAT + ', against a reference rewriter',
     note=FAR + 'The reference is built from the generated tables. Words of up '
     'to 6 code points or 9 bytes.')
prop('A05', 'Perso-Arabic visual norm gives one resolved result per text',
     'For each language, visual norm gives exactly one output for every text, '
     'in which there is no presentation form, ZWJ or ZWS, and canonically '
     'ordered text and its NFC have the same visual norm.',
     'all strings over sub-alphabets of the grammar',
     'Stages feed each other only for particular letters and marks in '
     'particular positions.',
     [AB + 'visual_norm.py', AB + 'visual_norm_common.py'],
     [('stages', AB + 'visual_norm.py'),
      ('common stages', AB + 'visual_norm_common.py')] + RULE,
     technique=SAT, note=FAR + 'The alphabet is that of the language\'s own '
     'tables, what NFC makes of it, and a sample of the rest by VERIF_SEED; '
     'OpenFst restricts and minimises the rule. Words of up to 5 code points.')
prop('A06', 'Perso-Arabic visual norm is its documented, positional stages',
     'For each language, visual norm resolves presentation forms, composes '
     '(NFC), applies the common and the language\'s rules anywhere, then the '
     'nonfinal rules before any symbol, the final rules only at the end of the '
     'text after something, and the isolated and final rules only on a whole '
     'text; each stage replaces every occurrence, longer left sides first.',
     'all strings over sub-alphabets of the grammar',
     'A context that is too wide, too narrow or dropped differs only where a '
     'letter stands in one of the positions and was fed by another stage.',
     [AB + 'visual_norm.py', AB + 'visual_norm_common.py'],
     [('contexts of the stages', AB + 'visual_norm.py'),
      ('common stages', AB + 'visual_norm_common.py')] + RULE,
     technique=SAT + ', against a reference cascade',
     note=FAR + 'The reference stages are machines built in the check from the '
     'generated tables. Words of up to 4 code points.')
prop('A07', 'Perso-Arabic visual norm reads presentation forms as Unicode does',
     'For every text whose expansion is canonically ordered, visual norm does '
     'not distinguish an Arabic presentation form of the alphabet from its '
     'Unicode compatibility decomposition.',
     'all strings over sub-alphabets that together have every presentation form',
     '699 forms, each in any context; tests have a handful.',
     [AB + 'visual_norm_common.py', AB + 'data/Arab/presentation_forms.textproto'],
     [('presentation forms', AB + 'data/Arab/presentation_forms.textproto'),
      ('common stages', AB + 'visual_norm_common.py')],
     technique=SAT + ', against Unicode data',
     note=FAR + 'Each form is tried with one of the languages (by VERIF_SEED). '
     'Words of up to 3 code points.')
prop('A08', 'The byte grammars of Perso-Arabic do what the code point grammars do',
     'For NFC, reversible romanization, reading norm and visual norm, the byte '
     'archive accepts the UTF-8 of exactly the texts that the code point '
     'archive accepts, and writes the UTF-8 of the same results.',
     'all strings over the (sub-)alphabet',
     'The two archives are compiled separately; a byte-level context can cut a '
     'multi-byte character.',
     [AB + 'nfc.py', AB + 'visual_norm.py', AB + 'reading_norm.py',
      AB + 'reversible_roman.py'],
     [('token types', AB + 'nfc.py'), ('sigma', AB + 'util.py')],
     technique=SAT, note=FAR + 'Restricted alphabets as in A05; visual norm of 6 '
     'languages (14 in the thorough tier). Words of up to 3 code points.')
