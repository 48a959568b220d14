NT = 'nisaba/scripts/natural_translit/'
REF = ('The reference is written in the check over tokens, rule by rule, and '
       'made into a machine by OpenFst. ')

prop('N01', 'Pronunciations follow the rules of the language, for every word',
     'For each of the nine languages (bn gu hi kn ml mr pa ta te), ISO_TO_IPA of '
     'its g2p archive gives exactly one pronunciation for every word over the '
     'ISO letters: the graphemes are read (composite letters, independent vowels '
     'at the start of the word, aspirates, chillus, vocalics, candrabindu, om), '
     'and then the language\'s rules are applied in order (schwa deletion and '
     'its onsets and codas, anusvara assimilation and its default, the vowel of '
     'vocalics, voicing, geminates, diphthongs), and each phoneme is written in '
     'IPA. The byte archive does the same to the UTF-8.',
     'all words over the ISO letters',
     'A rule changes what the next ones see, across the alignments of '
     'neighbouring letters; the test data has some words per language.',
     [NT + 'brahmic/g2p.py', NT + 'brahmic/grapheme_inventory.py',
      NT + 'brahmic/phoneme_inventory.py', NT + 'language_params/',
      NT + 'phonology/', NT + 'g2p/'],
     [('pronunciation rules', NT + 'brahmic/g2p.py'),
      ('rewrites over alignments', NT + 'utils/rewrite_functions.py'),
      ('graphemes', NT + 'brahmic/grapheme_inventory.py'),
      ('rules per language', NT + 'language_params/')],
     technique=SAT + ', against a reference cascade',
     note=FAR + REF + 'Words of up to 6 letters; bytes, of 2.')
prop('N02', 'Pan-South-Asian romanizations write the pronunciation unit by unit',
     'For each of the nine languages, ISO_TO_PSAF and ISO_TO_PSAC give exactly '
     'one romanization for every word over the ISO letters. PSAF writes every '
     'phoneme of the pronunciation with its Latin letters, long vowels doubled '
     'and geminates kept; PSAC writes vowels without their length and no unit or '
     'letter twice in a row. The byte archives do the same to the UTF-8.',
     'all words over the ISO letters',
     'The romanization of a phoneme depends on its grapheme, its length and its '
     'neighbours, after all the pronunciation rules.',
     [NT + 'brahmic/romanizer.py', NT + 'latin/ltn_inventory.py',
      NT + 'language_params/', NT + 'romanization/'],
     [('romanization rules', NT + 'brahmic/romanizer.py'),
      ('phonemes to Latin', NT + 'brahmic/phoneme_inventory.py'),
      ('rules per language', NT + 'language_params/')],
     technique=SAT + ', against a reference cascade',
     note=FAR + REF + 'Words of up to 5 letters; bytes, of 2.')
prop('N03', 'Natural romanization follows the conventions of the language',
     'For each of the nine languages, ISO_TO_NAT gives exactly one romanization '
     'for every word over the ISO letters, by the language\'s rules: w after '
     'sibilants, cch, chh and ssh for geminates (not kn and te), th and English '
     'long vowels in Malayalam and Tamil, initial aa and acronyms in Hindi, -aon '
     'in Gujarati and Marathi, and the defaults of the Pan-South-Asian '
     'romanization otherwise. The byte archives do the same to the UTF-8.',
     'all words over the ISO letters',
     'The rules are restricted to particular graphemes and neighbours and feed '
     'each other; the test data has some words per language.',
     [NT + 'brahmic/romanizer.py', NT + 'brahmic/acronym.py',
      NT + 'language_params/', NT + 'romanization/'],
     [('romanization rules', NT + 'brahmic/romanizer.py'),
      ('acronyms', NT + 'brahmic/acronym.py'),
      ('rules per language', NT + 'language_params/')],
     technique=SAT + ', against a reference cascade',
     note=FAR + REF + 'Words of up to 6 letters; bytes, of 2.')
prop('N04', 'The end-to-end archives hold the same rules per language',
     'ISO_TO_PSAF, ISO_TO_PSAC, ISO_TO_IPA and ISO_TO_NAT (not for kn and te) of '
     'hi_e2e, kn_e2e, ml_e2e, ta_e2e and te_e2e do to every word what the rules '
     'of the same language and name say (N01 to N03), in the code point and the '
     'byte archive.',
     'all words over the ISO letters',
     'The archives are compiled separately from the single ones.',
     [NT + 'languages/', NT + 'language_params/'],
     [('end-to-end archives', NT + 'languages/')],
     technique=SAT + ', against a reference cascade',
     note=FAR + REF + 'Words of up to 4 letters; bytes, of 3.')
prop('N05', 'Deromanization reads every Latin word by the language\'s mappings',
     'ISO of hi_iso and ta_iso gives exactly one ISO word for every lower case '
     'Latin word: the longest romanizations first, geminates before single '
     'letters (a single tr is not Tamil\'s geminate), aspirates in Hindi and '
     'none in Tamil, viramas by the schwa rules of Hindi and before anything but '
     'a vowel in Tamil, anusvara before consonants in Hindi, vowels as signs '
     'after consonants and independent elsewhere. The byte archive does the same.',
     'all words over a-z',
     'Mappings overlap (s, sh, ssh, shsh; z, zh), and their order is made of '
     'lists by priority; a wrong order shows only on particular sequences.',
     [NT + 'brahmic/deromanizer.py', NT + 'brahmic/derom_inventory.py',
      NT + 'language_params/hi.py', NT + 'language_params/ta.py'],
     [('rules', NT + 'brahmic/deromanizer.py'),
      ('mappings', NT + 'brahmic/derom_inventory.py')],
     technique=SAT + ', against a reference cascade',
     note=FAR + REF + 'Words of up to 8 letters; bytes, of 4.')
prop('N06', 'Deromanization to a script is that to ISO, in the script',
     'For every lower case Latin word, hi_deva and ta_taml give exactly one '
     'text, and it is what TO_DEVA and TO_TAML of the ISO grammar make of the '
     'result of hi_iso and ta_iso. The byte archives do the same.',
     'all words over a-z',
     'The two outputs are printed by different inventories from the same rules.',
     [NT + 'brahmic/deromanizer.py', NT + 'brahmic/grapheme_inventory.py',
      NT + 'deromanization/'],
     [('printing a script', NT + 'brahmic/deromanizer.py'),
      ('letters of the scripts', NT + 'brahmic/grapheme_inventory.py')],
     technique=SAT, note=FAR + 'Through the ISO grammar for words of up to 3 '
     'letters, and against a reference for words of up to 8.')
prop('N07', 'English spellout spells every word letter by letter',
     'Each of the 13 rules of en_spellout gives exactly one text for every word '
     'over a-z and A-Z: the spellings of its letters in order, of the same '
     'letters whether small or capital, in the script of the rule, without a '
     'separator (a space in Arabic script, ZWNJ in Kannada, Malayalam and Telugu) '
     'at the end. The byte archive does the same.',
     'all words over a-z and A-Z',
     'The removal of the separator is a context-dependent rewrite over a sigma '
     'that is computed from the spellings.',
     [NT + 'brahmic/en_spellout.py', NT + 'deromanization/en_spellout.py'],
     [('speller', NT + 'brahmic/en_spellout.py')],
     technique=SAT, note=FAR + 'The spelling of a letter is the rule\'s own, '
     'before another letter. Words of up to 6 letters; bytes, of 4.')
