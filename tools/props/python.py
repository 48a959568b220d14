UT = 'nisaba/scripts/natural_translit/utils/'
SYM = ('symbolic execution of the Python code, path by path, each decided by z3')
RUN = ('The working tree\'s functions run on values that carry z3 terms; every '
       'branch the solver finds feasible is explored, and an exploration that '
       'does not finish is an error. A model is replayed with plain values. ')

prop('P01', 'Distances of features follow from the lists they stand in',
     'The distance of two features of an aspect is that of their places in the '
     'innermost value list that holds both: the step of an equidistant list, the '
     'step times the number of places between them in a linear one, and in a '
     'cyclic one the shorter way round. ValueList.distance gives the same for two '
     'different items, in either order. max_dist is the greatest distance; any is '
     'at distance 0, n_a at max_dist from the features and 0 from itself and any. '
     'The distance of two sets is the least of their members\'; features of '
     'different aspects are at ERROR_DISTANCE.',
     'all steps (0 to 1000), kinds and nestings of lists and choices of features',
     'Distances are propagated over nested lists as they are built; tests use a '
     'few inventories with fixed steps.',
     [UT + 'feature.py'],
     [('distances within lists', UT + 'feature.py (Feature.ValueList)'),
      ('distance of sets', UT + 'feature.py (Feature.Set.distance)')],
     technique=SYM,
     note=RUN + 'Steps are symbolic, and exact, not rounded as floats. Lists of '
     'up to 5 items nested up to 3 deep; sets over 3 or 4 features.')
prop('P02', 'Profile similarity is one minus the share of the greatest distance',
     'For profiles of one inventory, the similarity over the given aspects (or '
     'all) is 1 - d / m, where d adds up the least distances of the features of '
     'each aspect and m the greatest distances of the aspects (m > 0). It lies '
     'between 0 and 1, is symmetric, and is 1 for a profile and itself or its '
     'copy, and exactly when d is 0. Profiles of different inventories have '
     'similarity 0. A profile has for an aspect the features it was given, or '
     'any, or n_a where unspecified aspects are not applicable.',
     'all profiles, with all distances',
     'It depends on all distances and on how features are grouped by aspect; '
     'tests compare a few profiles.',
     [UT + 'feature.py'],
     [('comparison', UT + 'feature.py (Feature.Profile.compare, similarity)'),
      ('features by aspect', UT + 'feature.py (Feature.Set.group_by_aspect)')],
     technique=SYM,
     note=RUN + 'Steps and the choice of features are symbolic, up to 3 features '
     'in each of up to 2 aspects. Fractions, not floats.')
prop('P03', 'Feature sets are sets, and membership goes through nested lists',
     'Feature.Set add, remove, replace, update, union, intersection, difference, '
     'is_equal and copy do what they do to sets, on features given alone or in '
     'sets or lists, and change no operand. A set, profile, multiprofile or '
     'symbol has a feature, or a value list, exactly when it holds the feature, or '
     'some feature that stands in the list at any depth; has_feature and is_in '
     'agree. range, set_range, set and set_not hold exactly the features they '
     'name. add_features and update change the aspects they name, in that '
     'profile only.',
     'all choices of features, and all ranges',
     'The operations are used with mixtures of features, lists and sets; tests '
     'have some of them.',
     [UT + 'feature.py', UT + 'symbol.py'],
     [('sets', UT + 'feature.py (Feature.Set)'),
      ('membership', UT + 'feature.py (value_in, has_feature)'),
      ('features of symbols', UT + 'symbol.py (Symbol.add_features)')],
     technique=SYM,
     note=RUN + 'Sets over 4 or 5 features of 3 aspects of 2 inventories; ranges '
     'over lists of up to 5 items, one of which is a list.')
prop('P04', 'An expression stands for the set of its symbol sequences',
     'The symbol lists of an expression made by Cat, Or, +, |, repeat and ques are '
     'exactly the sequences of the language it denotes: concatenations, '
     'alternatives and the empty sequence. x accepts y when every sequence of y '
     'is one of x\'s; they are equivalent when they have the same sequences; x '
     'contains, head_matches, tail_matches or matches y when some sequence of y '
     'stands anywhere, at the head, at the tail or as the whole of one of x\'s. '
     'The empty sequence is contained in everything, but is no prefix or suffix '
     'of a sequence of symbols. Any matches everything, and no alternative (nor) '
     'nothing. Operands are not changed.',
     'all expressions, with all coincidences of their symbols',
     'Which lists coincide depends on which symbols are the same; tests have '
     'some expressions over different symbols.',
     [UT + 'expression.py', UT + 'symbol.py'],
     [('construction', UT + 'expression.py (Cat, Or)'),
      ('comparison', UT + 'symbol.py (Item)')],
     technique=SYM,
     note=RUN + 'Which symbols are the same is symbolic. Shapes of Cat and Or '
     'with up to 3 symbols, pairs with up to 4 in both.')
prop('P05', 'An alignment rule applies exactly where its contexts stand',
     'Alignment.context_matches holds exactly when some sequence of the rule\'s '
     'preceding context ends the actual one, or is all of it with from_bos, and '
     'some sequence of its following context begins the actual one, or is all of '
     'it with to_eos, on both the left and right sides; any applies everywhere. '
     'So for rules made by rule, deletion, insertion and interchangeable. '
     'Alignments accept, contain and match each other when both sides do.',
     'all contexts, with all coincidences of their symbols',
     'Matching looks into alternatives from either end; tests have some rules.',
     [UT + 'expression.py', UT + 'symbol.py'],
     [('contexts', UT + 'expression.py (Alignment.context_matches)'),
      ('comparison', UT + 'expression.py (_BaseAlignment)')],
     technique=SYM,
     note=RUN + 'Contexts of up to 2 symbols, rules with a symbol, two symbols or '
     'their alternatives on each side.')
prop('P06', 'The Python entry points apply the named grammar to exactly the text',
     'FstWrapper.ApplyOnText gives the best output of the FST for exactly the '
     'characters of the text, brackets and backslashes included, or raises '
     'FstInputError when there is none; AcceptText says whether the FST accepts '
     'exactly the text. brahmic.ToIso, IsoTo, Nfc, VisualNorm, WellFormed and '
     'abjad_alphabet.Nfc, FromReversibleRoman, VisualNorm, ReadingNorm use the '
     'rule and archive of their names, whatever was called before; unknown ones '
     'are KeyErrors. NormalizingAcceptor and Normalizer replace every maximal run '
     'of characters that are not ignored by its visual norm (abjad: of its NFC), '
     'keep the ignored characters, and raise IllFormedError exactly when the '
     'visual norm of a run is not well-formed; ScriptError or TagError for unknown '
     'scripts or tags.',
     'all texts, all sets of characters to ignore, all orders of calls',
     'Text with special characters, odd separators, and calls that share cached '
     'archives; tests apply a few words.',
     ['nisaba/scripts/utils/far.py', 'nisaba/scripts/brahmic/__init__.py',
      'nisaba/scripts/abjad_alphabet/__init__.py'],
     [('text into FSTs', 'nisaba/scripts/utils/far.py (Far.FstWrapper)'),
      ('archives', 'nisaba/scripts/utils/far.py (Far.Fst)'),
      ('lines', 'nisaba/scripts/brahmic/__init__.py (NormalizingAcceptor)'),
      ('lines', 'nisaba/scripts/abjad_alphabet/__init__.py (Normalizer)')],
     technique=SYM,
     note=RUN + 'Texts of up to 3 symbolic characters (any but NUL and '
     'surrogates), ignored: white space, fixed sets of special characters, or one '
     'symbolic character; 2 calls in any order. What the FSTs make of a word is '
     'uninterpreted; re and pynini\'s string syntax are modelled, and are the '
     'real ones in the replay. ToReversibleRoman is not covered.')
prop('P07', 'Inventories find what was put in them, and take in unknown characters once',
     'An Inventory holds the valid items added under a free alias, in order, each '
     'once, and its supplements; get and the attribute give them, and nothing '
     'overwrites them. A Symbol.Inventory looks up by raw or text the last symbol '
     'added with it, by index that symbol or control symbol, and otherwise the '
     'unknown symbol. str_to_raw_symbols and parse give, for every character, the '
     'symbol that it has in the inventory, and otherwise a new one which is added '
     'there, with an alias and index of its own, and is given for that character '
     'from then on, whichever inventory parses over that one. Other inventories '
     'are not changed.',
     'all texts and symbols, all orders of additions and of texts parsed',
     'Unknown characters change the inventory as they come; tests parse two '
     'texts.',
     [UT + 'symbol.py', UT + 'inventory.py'],
     [('lookup', UT + 'symbol.py (Symbol.Inventory.lookup)'),
      ('unknown characters', UT + 'symbol.py (Symbol.Inventory.raw_from_unknown)'),
      ('items', UT + 'inventory.py (Inventory.add_item, make_suppl)')],
     technique=SYM,
     note=RUN + 'Raws and texts are symbolic characters (any but NUL and '
     'surrogates): inventories of up to 3 symbols, up to 2 texts in a row, '
     'alone or over an inventory combined before either. 3 additions under 3 '
     'aliases. Grapheme inventories\' own raw_from_unknown is not covered.')
prop('P08', 'A lattice has one state for every place, and its error state for others',
     'Lattice.state(x, y) and state_of give, for coordinates within width and '
     'height, a state of the lattice\'s FST, always the same for the same place, '
     'and different from those of other places and from the error state; '
     'for others they give the error state, and node the error node. Populated '
     'lattices have all their states at once. states_str shows the states there '
     'are. So it is for lattices with an FST or error node of their own, with one '
     'that has states already, with those of another lattice, and with the '
     'defaults, whatever other lattices '
     'were made.',
     'all coordinates, all orders of questions to several lattices',
     'States are made on demand in FSTs that may be shared; tests ask for two.',
     [UT + 'lattice.py'],
     [('states', UT + 'lattice.py (Lattice.state, node)'),
      ('error state', UT + 'lattice.py (Lattice.__init__)')],
     technique=SYM,
     note=RUN + 'Coordinates are symbolic. One lattice of up to 2 by 2, or two of '
     'up to 1 by 1, and 2 questions; the FSTs are real.')
prop('P09', 'Operations are told apart by their indices, and know their kin',
     'The operations of Operation.Inventory.from_args have different indices '
     'within the prefix\'s hundred, none of which ends in 0, and index_lookup '
     'gives each back, and COMMON.error for any other. match, partial and '
     'unexpected lead within the four operations of an alias as documented, and '
     'repeating one changes nothing. The costs of partial ones are those of the '
     'operation; unexpected ones cost UNEXPECTED_PENALTY more; is_free and '
     'is_cheaper_than compare them.',
     'all costs, and numbers of operations',
     'Indices depend on how many operations there are; tests have one inventory.',
     [UT + 'operation.py'],
     [('indices', UT + 'operation.py (Operation.Inventory._next_index)'),
      ('kin', UT + 'operation.py (Operation.Inventory.from_args)')],
     technique=SYM,
     note=RUN + 'Costs are symbolic and exact; 1, 2, 3 and 6 aliases.')

US = 'nisaba/scripts/utils/'
prop('P10', 'Tables hold exactly what the names and texts of their items spell',
     'convert_item gives for an item of a UnicodeStrings table the text that its '
     'raw has, or that its names spell (each with one of the prefixes or none), '
     'and so for the result, with its own prefixes or else the same ones; no '
     'result is None. It refuses (ValueError) a name that no character or more '
     'than one has, or only a control character, names and raw that disagree, '
     'and an item with nothing. The TSV has a comment and then the rows of all '
     'items, in order; read_textproto fills the texts in.',
     'all character names, characters, prefixes and tables',
     'Every grammar is made of these tables; a wrong row of one script is not '
     'seen by the tests of others, and refusals keep mistakes out.',
     [US + 'unicode_strings_util.py', US + 'unicode_strings_to_tsv.py'],
     [('names', US + 'unicode_strings_util.py (name_to_char)'),
      ('items', US + 'unicode_strings_util.py (convert_item)'),
      ('tables', US + 'unicode_strings_to_tsv.py')],
     technique=SYM,
     note=RUN + 'Which names there are and their characters are symbolic (any '
     'but NUL and surrogates); unicodedata is a stand-in that has them, in the '
     'replay too. Items of up to 2 names and 2 characters on either side, up to '
     'two prefixes; tables of up to 2 items.')
prop('P11', 'Rules and stages are put in the order that their meaning needs',
     'partition_unordered puts every rule, once, into the first layer that comes '
     'after those of all the rules whose left side contains its own, so that '
     'longer left sides apply before what they contain; two results of one left '
     'side are refused. ComposeFsts composes its stages in order, whatever their '
     'sizes are, and gives the default for none.',
     'all sets of rules, and all sizes of FSTs',
     'The order depends on how the rules of a table overlap, and on the sizes '
     'that the stages happen to have.',
     [US + 'rule.py', US + 'rewrite.py'],
     [('partition', US + 'rule.py (partition_unordered)'),
      ('composition', US + 'rewrite.py (ComposeFsts)')],
     technique=SYM,
     note=RUN + 'The characters of the rules are symbolic: up to 4 rules, left '
     'sides of up to 5 characters. The sizes of up to 4 stages are symbolic; the '
     'FSTs are real.')
prop('P12', 'Lists of things hold what was added, and things are equal by value',
     'An untyped list of things takes in every item but the empty constants, in '
     'order, and opens only lists of its own class; a typed one takes in the items '
     'of its type and opens any other iterable but strings; a list of FSTs takes '
     'in FSTs and strings at any depth and concatenates or unites exactly them; '
     'item(i) is the i-th item from either end, or the default; a thing\'s value is '
     'the named attribute of its source, or the source; two objects are equal iff '
     'their values are, and an empty constant equals nothing.',
     'all nestings and kinds of items, all types, all indices, all wrappings of '
     'values',
     'Inventories, expressions and rule lists are built through these containers; '
     'an item that is lost or opened one level too far shows only for its kind of '
     'nesting.',
     [NT + 'utils/type_op.py', NT + 'utils/fst_list.py'],
     [('IterableThing and is_equal', NT + 'utils/type_op.py'),
      ('FstList', NT + 'utils/fst_list.py')],
     technique=SYM,
     note=RUN + 'Up to 3 nodes (4 for FSTs) whose kinds and places are symbolic; '
     'the index and the compared numbers are symbolic.')
prop('P13', 'Phoneme inventories number their phonemes, and the atomics follow',
     'After any sequence of additions and changes, an inventory holds every '
     'phoneme that it took in, once, with its language and the index prefix + '
     'place, and a phoneme that it refuses is unchanged; after sync_atomics every '
     'atomic has the features of its symbol, and every supplement has an Or of '
     'exactly its members; updating descriptive features changes their aspects '
     'and no others; a copy has the features of the original, and stands alone.',
     'all sequences of operations, all features',
     'The atomics copy the features and indices of the phonemes at the time when '
     'they are made; what changes later depends on the order.',
     [NT + 'phonology/phonological_symbol.py', NT + 'utils/symbol.py'],
     [('Phon.Inventory', NT + 'phonology/phonological_symbol.py'),
      ('add_features', NT + 'utils/symbol.py')],
     technique=SYM,
     note=RUN + 'Which operation, on which phoneme and with which feature, is '
     'symbolic; up to 3 operations.')
