BR = 'nisaba/scripts/brahmic/'
SAT = 'bounded symbolic execution of the compiled transducers, decided by SAT'
FAR = ('The arcs of the FAR compiled from the working tree are unrolled over a '
       'symbolic word; unsat is exhaustive up to the word lengths in the '
       'evidence file. Trusts OpenFst/pynini to compile and to run the rules, '
       'kissat, and the unrolling (each query\'s model is replayed on the real '
       'grammar). ')
RULE = [('rule partition and composition', 'nisaba/scripts/utils/rule.py'),
        ('obligatory rewriting', 'nisaba/scripts/utils/rewrite.py')]

prop('B01', 'Brahmic NFC maps every text to exactly one result and is idempotent',
     'For each of the 20 scripts and for the pan-Brahmic rule, in the byte and '
     'the code point archives, the NFC grammar gives exactly one output for '
     'every text over its alphabet (any bytes, in the byte archive), and '
     'applying it to its own output changes nothing.',
     'all strings over the alphabet of the grammar',
     'Overlapping and chained rules interact only on particular neighbourhoods '
     'of symbols; a list of words does not meet them all.',
     [BR + 'nfc.py', 'nisaba/scripts/utils/rule.py'],
     [('NFC rule sets per script and pan-Brahmic', BR + 'nfc.py')] + RULE,
     technique=SAT, note=FAR + 'Words of up to 7 code points or 12 bytes '
     '(quick).')
prop('B02', 'Brahmic NFC agrees with Unicode NFC',
     'For every text over a script\'s alphabet that is in canonical order, the '
     'NFC grammar of the script gives the text\'s Unicode NFC: the result is '
     'canonically equivalent to the input, has no composition exclusion and no '
     'pair of neighbours that composes.',
     'all canonically ordered strings over the script\'s alphabet',
     'The rules are hand-listed; only an exhaustive comparison with the Unicode '
     'tables shows that none is missing, wrong or shadowed in some context.',
     [BR + 'nfc.py', BR + 'data/Beng/nfc.textproto'],
     [('NFC rule data', BR + 'data/*/nfc.textproto'),
      ('grammar', BR + 'nfc.py')],
     technique=SAT + ', against Unicode data',
     note=FAR + 'The oracle is unicodedata of the running Python, as '
     'decomposition map and automata. Words of up to 7 code points.')
prop('B03', 'Pan-Brahmic NFC does to a script\'s text what the script\'s NFC does',
     'On every text over the alphabet of one script, the BRAHMIC rule of the NFC '
     'archive and the rule of that script give the same output, in the byte and '
     'the code point archives.',
     'all single-script strings, for each of the 20 scripts',
     'The pan-Brahmic rule is a different partition of all the scripts\' rules; '
     'rules of different scripts can only clash in combinations.',
     [BR + 'nfc.py', 'nisaba/scripts/utils/rule.py'],
     [('pan-Brahmic rule', BR + 'nfc.py')] + RULE,
     technique=SAT, note=FAR + 'Words of up to 7 code points or 9 bytes.')
prop('B04', 'Visual norm maps every text to exactly one result',
     'The visual norm grammar of each script, and those of Assamese and Bengali, '
     'gives exactly one output for every text over the script\'s alphabet and '
     'joiners.',
     'all strings over the script\'s alphabet with ZWJ, ZWNJ and ZWS',
     'It is a composition of six optimised stages; an optional or partial rule '
     'shows only where its context occurs.',
     [BR + 'visual_norm.py', BR + 'char_util.py'],
     [('stages of visual norm', BR + 'visual_norm.py'),
      ('mark deduplication', BR + 'char_util.py')] + RULE,
     technique=SAT, note=FAR + 'Words of up to 5 code points (Devanagari 4), '
     '8 for totality.')
prop('B05', 'Visual norm of well-formed text is well-formed, NFC and stable',
     'For every text that the well-formedness acceptor of a script accepts, the '
     'visual norm of the text is again accepted, is unchanged by the script\'s '
     'NFC, and is unchanged by visual norm itself.',
     'all well-formed strings of each script',
     'A rewrite can create the source of another rewrite or an ill-formed '
     'sequence only next to particular neighbours.',
     [BR + 'visual_norm.py', BR + 'wellformed.py'],
     [('visual norm', BR + 'visual_norm.py'),
      ('acceptor', BR + 'wellformed.py'),
      ('rewrite data', BR + 'data/*/visual_rewrite.textproto')],
     technique=SAT, note=FAR + 'Words of up to 6 code points. One recorded '
     'finding (Malayalam) is excluded by its pattern.')
prop('B06', 'Visual norm does not distinguish a text from its NFC',
     'For every text over a script\'s alphabet, the visual norm of the text '
     'equals the visual norm of the text\'s NFC.',
     'all strings over the script\'s alphabet with joiners',
     'It depends on where NFC sits among the stages and on every pair of an NFC '
     'rule and a later rewrite.',
     [BR + 'visual_norm.py', BR + 'nfc.py'],
     [('NFC as the first stage', BR + 'visual_norm.py')],
     technique=SAT, note=FAR + 'Words of up to 5 code points (Devanagari 4).')
prop('B07', 'Visual norm leaves no stray joiner and no internal symbol',
     'In the visual norm of any text, ZWJ, ZWNJ and ZWS occur only as part of a '
     'sequence that the script\'s preserve table lists, standing between two '
     'consonants, and every symbol of the output belongs to the script\'s tables '
     '(no bracketed internal symbol leaks).',
     'all strings over the script\'s alphabet with joiners',
     'Joiners can be placed anywhere; the marking of preserved sequences works '
     'with internal symbols that must never surface.',
     [BR + 'visual_norm.py', BR + 'data/preserve.textproto'],
     [('mark_preserve, clean_joiner, reinstate', BR + 'visual_norm.py')],
     technique=SAT, note=FAR + 'Words of up to 5 code points (Devanagari 4).')
prop('B08', 'Well-formed text is exactly what the syllable structure allows',
     'The acceptor of a script accepts exactly the sequences of aksharas, '
     'standalone symbols and listed exceptions, an akshara being a consonant '
     'cluster (consonants with optional subjoined ones, linked by virama or '
     'preserved joiner sequences) with an optional vowel sign (required in '
     'Thaana), or an independent vowel, with optional length sign, coda and '
     'dead consonant, or a cluster with virama and an optional dead consonant; '
     'the byte archive accepts the same texts.',
     'all strings over the script\'s alphabet with joiners',
     'A structure that is too loose or too strict differs on sequences that '
     'nobody wrote down; equality of two languages needs all strings.',
     [BR + 'wellformed.py', BR + 'script_config.proto'],
     [('syllable structure', BR + 'wellformed.py'),
      ('safe closures', 'nisaba/scripts/utils/file.py')],
     technique=SAT + ', against a reference automaton',
     note=FAR + 'The reference structure is written down in the check and built '
     'from the script\'s tables. Words of up to 9 code points.')
prop('B09', 'Conversions to and from ISO 15919 have one best output',
     'For every input, the FROM_ and TO_ rules of every script and the '
     'Malayalam fixed-rule grammar have at most one output of the least weight, '
     'so that the shortest path does not depend on the traversal.',
     'all strings over the input alphabet of the rule',
     'Ties between weighted segmentations appear only for particular '
     'sequences, and a shortest-path call hides them.',
     [BR + 'iso.py', BR + 'fixed.py'],
     [('weighted alternatives', BR + 'iso.py'),
      ('fixed-rule cascade', BR + 'fixed.py')],
     technique=SAT + ', with shortest-path potentials as symbolic variables',
     note=FAR + 'A run is constrained to be a best one by lower bounds that the '
     'solver chooses. Words of up to 3 symbols (Devanagari and Bengali 2).')
prop('B10', 'Pan-Brahmic romanization agrees with each script\'s own',
     'In the byte archive FROM_BRAHMIC never fails, gives on single-script text '
     'the best output of the script\'s FROM_ rule, and leaves other text as it '
     'is.',
     'all byte strings (totality), all short single-script texts, all ASCII and '
     'Latin text',
     'It rewrites with a union of twenty weighted grammars; clashes are between '
     'pairs of them in particular contexts.',
     [BR + 'iso.py'],
     [('FROM_BRAHMIC', BR + 'iso.py')],
     technique=SAT + ', with shortest-path potentials as symbolic variables',
     note=FAR + 'Up to 2 characters (3 in small scripts). Recorded findings: '
     'ties with a dependent sign left over in ten scripts, and the code point '
     'archive.')
prop('B11', 'Byte and code point grammars agree',
     'For NFC, visual norm and reading norm, on every text over the code point '
     'grammar\'s alphabet the byte grammar gives the UTF-8 encoding of what the '
     'code point grammar gives; and the byte grammars of visual norm and reading '
     'norm accept every byte string.',
     'all strings over the alphabet of the code point grammar',
     'The two are compiled separately with different sigmas; a bytewise context '
     'can match across the parts of a character.',
     [BR + 'visual_norm.py', BR + 'reading_norm.py', BR + 'util.py'],
     [('token types', BR + 'util.py'), ('visual norm', BR + 'visual_norm.py'),
      ('reading norm', BR + 'reading_norm.py'), ('NFC', BR + 'nfc.py')],
     technique=SAT, note=FAR + 'Words of up to 5 code points (visual norm 4, '
     'Devanagari 3).')
prop('B12', 'Romanizing to ISO 15919 and back gives the NFC of the text',
     'For every text over a script\'s alphabet, converting it with FROM_ and the '
     'result with TO_ (best outputs) gives exactly the NFC of the text: the ISO '
     'representation loses nothing.',
     'all strings over the script\'s alphabet that FROM_ accepts',
     'Reversibility is lost by one pair of letters, or one sequence, with the '
     'same romanization.',
     [BR + 'iso.py', BR + 'data/consonant.textproto'],
     [('FROM_ and TO_ rules', BR + 'iso.py'),
      ('romanization data', BR + 'data/*.textproto')],
     technique=SAT + ', with shortest-path potentials as symbolic variables',
     note=FAR + 'Words of up to 3 code points (Devanagari and Bengali 2 over '
     'the full alphabet, 3 over a part of it).')
prop('B13', 'Reading norm maps every text to one result and is stable',
     'The reading norm grammars (Hindi, Bengali, Lepcha, Malayalam) give exactly '
     'one output for every text of the script, and applying one to its output '
     'changes nothing, on texts without doubled vowel signs.',
     'all strings over the script\'s alphabet',
     'A rule that is optional, or feeds another, shows only in its context.',
     [BR + 'reading_norm.py'],
     [('reading norm', BR + 'reading_norm.py')] + RULE,
     technique=SAT, note=FAR + 'Words of up to 6 code points.')
prop('B14', 'Visual norm is its documented stages, in order',
     'For each script and for Assamese and Bengali, visual norm is: NFC; one mark '
     'kept of each repeated nonspacing mark or joiner; the visual rewrites, longer '
     'left sides first; the preserved joiner sequences put away between '
     'consonants; every other ZWJ, ZWNJ and ZWS removed; the preserved sequences '
     'put back; then the language\'s rules before and after a consonant.',
     'all strings over the alphabet of the grammar',
     'A stage that is moved, narrowed, made optional or given a wrong context '
     'differs only on sequences that combine several tables.',
     [BR + 'visual_norm.py', BR + 'char_util.py'],
     [('stages', BR + 'visual_norm.py'), ('mark deduplication', BR +
      'char_util.py')] + RULE,
     technique=SAT + ', against a reference cascade',
     note=FAR + 'The reference stages are machines built in the check from the '
     'generated tables; OpenFst composes them and minimises both sides. Words of '
     'up to 5 code points (Devanagari 3).')
prop('B15', 'NFC and reading norm apply exactly their tables',
     'The NFC rule of each script, the pan-Brahmic NFC rule and the reading norm '
     'grammars (Hindi, Bengali script, Lepcha, Malayalam) replace every '
     'occurrence of a left side of their tables, longer left sides before those '
     'that they contain, leftmost first, and change nothing else.',
     'all strings over the alphabet of the grammar',
     'Obligatory, leftmost and longest-first are statements about every context, '
     'including overlapping occurrences.',
     [BR + 'nfc.py', BR + 'reading_norm.py', 'nisaba/scripts/utils/rule.py'],
     [('NFC', BR + 'nfc.py'), ('reading norm', BR + 'reading_norm.py')] + RULE,
     technique=SAT + ', against a reference rewriter',
     note=FAR + 'The reference is a machine built in the check from the '
     'generated tables. Words of up to 7 code points (pan-Brahmic 4).')
prop('B16', 'Mozhi romanization is its table, in order, and then ISO to Malayalam',
     'For every ASCII text, the MLYM rule of the fixed-romanization archive gives '
     'exactly the best outputs that TO_MLYM of the ISO archive gives for the text '
     'rewritten by the rows of fixed.tsv one after the other, each obligatorily '
     'and left to right; and it rejects the texts that TO_MLYM rejects after the '
     'rewriting. There is one best output.',
     'all ASCII texts',
     'Over a hundred rows feed and bleed each other in a fixed order; the test '
     'data has some syllables.',
     ['nisaba/scripts/brahmic/fixed.py', 'nisaba/scripts/utils/rule.py',
      'nisaba/scripts/brahmic/data/Mlym/fixed.textproto'],
     [('cascade', 'nisaba/scripts/brahmic/fixed.py'),
      ('cascading rules', 'nisaba/scripts/utils/rule.py')],
     technique=SAT + ', against a reference cascade',
     note=FAR + 'The rows are read from the table that the build makes; their '
     'machines are built by hand. Words of up to 3 letters, of 4 over 12 letters; '
     'domain, 4.')
prop('B17', 'Byte and code point conversions to and from ISO agree',
     'For every script, the byte archive of the conversions from and to ISO 15919 '
     'accepts exactly the UTF-8 encodings of what the code point archive accepts, '
     'and its best output is the UTF-8 encoding of the best output of the code '
     'point archive; the same for the fixed rule of Malayalam.',
     'all strings over the alphabet of the code point rule, all byte strings for '
     'acceptance',
     'The Python entry points use the byte archives and most of the tests of the '
     'grammars the other ones; weights and contexts can differ between the two.',
     [BR + 'iso.py', BR + 'fixed.py', BR + 'util.py'],
     [('ISO rules', BR + 'iso.py'), ('fixed rules', BR + 'fixed.py')],
     technique=SAT + ', with shortest-path potentials as symbolic variables',
     note=FAR + 'Both transducers run on one symbolic word, the second on its '
     'symbolic UTF-8. Words of up to 2 code points (3 over a sample of letters), '
     'and 9 bytes for acceptance (quick).')
