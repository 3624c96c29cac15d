SETUP = 'full'
NOTES = ('Every check enumerates a bounded space completely, runs each case on '
	'the real code of /repo and compares it with an independent model; '
	'see DESIGN.md.  checks/Cxx.py --replay FILE repeats a counterexample.')
TRUST = ('Exhaustive within the stated bounds (small-scope argument beyond '
	'them); the reference model in the check is trusted. ')

p('C01', 'Bit vector primitives agree with finite sets of integers',
	'For every bit vector, whether a Python integer or an array of machine '
	'words, counting bits, finding the next set or unset bit from a position, '
	'testing, setting and taking unions or intersections give exactly what '
	'the same operation gives on the set of positions it stands for. This '
	'includes vectors that end on, or cross, a machine word boundary.',
	'inputs', 'all bit patterns in windows at word boundaries, all unions of a '
	'few intervals; 1 to 3 words',
	'The one unit test tries a handful of constants; errors sit at word '
	'boundaries and at the first and last bit.',
	'bit.pyx bit.pxd', ['bit vector @ set of sentence positions or labels @ '
	'bit.pyx'], ['next set / unset bit, population count @ bit.pyx and bit.pxd'],
	['return values of the functions of the bit module'],
	'enumeration of all small bit patterns against Python sets',
	TRUST + 'The compiled functions are called through a small Cython driver.')

p('C02', 'Parented trees stay consistent under any sequence of edits',
	'After any sequence of list-like edits, re-attachments, prunings and '
	'splicings of parented trees, every child that is a tree has exactly one '
	'parent, appears in it at its reported position, has the left and right '
	'siblings, root and tree position that follow from it, and nodes that were '
	'removed have no parent. The contents equal what the same edits do to plain '
	'nested lists, and an edit that raises an error changes nothing.',
	'histories', 'all sequences of edits up to a depth from several forests',
	'The tests build a few trees; what breaks pointers is a combination of two '
	'or three edits (a node in use elsewhere, a slice with a step, a failing '
	'edit halfway).', 'tree.py',
	['parent pointer @ the node a subtree is attached to @ tree.py'],
	['list operations that set and delete parents @ tree.py, ParentedTree'],
	['parent, siblings, root, treepositions and contents after each edit'],
	'breadth-first enumeration of operation sequences on real trees in '
	'lock-step with a list model',
	TRUST + 'A node is never inserted below itself.')

p('C03', 'Immutable trees never change; equality, hashes and copies agree',
	'No list operation, on any node, changes an immutable tree: it raises an '
	'error. Equal immutable trees have equal hashes and trees are equal exactly '
	'when they have the same kind, label and children. A copy, frozen or '
	'converted tree has the contents of the original and never shares '
	'modifiable parts with it when a deep copy is asked for.',
	'inputs histories', 'all trees up to a size, all mutating operations, all '
	'pairs of small trees',
	'Tests look at one or two trees; hashing, equality and aliasing are '
	'relations over pairs of trees and subsequent edits.', 'tree.py',
	['cached hash and text @ computed once for an immutable tree @ tree.py'],
	['immutable classes and conversions @ tree.py'],
	['exceptions, contents, ==, hash()'],
	'enumeration of all small trees x operations, and all pairs',
	TRUST + 'Attributes are not assigned to directly.')

p('C04', 'Queries on trees agree with their structure',
	'Leaves, subtrees, pre- and post-order, positions, the path to a leaf, '
	'spanning nodes, height, part-of-speech pairs and indexing by '
	'position agree with the structure of every tree, whatever its shape, '
	'and for every class of tree. Comparison of trees is a strict total order '
	'that is consistent with equality.',
	'inputs', 'all ordered trees up to a size with several labelings',
	'The doctests show one tree per query.', 'tree.py', [],
	['traversals @ tree.py, Tree'], ['results of the queries'],
	'enumeration of all small trees against a model on nested tuples', TRUST)

p('C05', 'Trees in bracket notation are read back as they were written',
	'Writing any tree, continuous or discontinuous, with any words and labels '
	'the notation can express, and reading it again gives the same tree and '
	'sentence, also when white space, line breaks and special characters '
	'(brackets, equals signs, empty words) are involved; a string that is not '
	'a well-formed tree is rejected with an error. A corpus of one or several '
	'files contains exactly the trees in them, in order, numbered from one, and '
	'a range of it exactly those trees.',
	'inputs', 'all trees over a few words, all strings up to a length, all '
	'words up to a length over the special characters, all small corpora',
	'Tests round-trip one corpus of ordinary sentences; the special characters, '
	'blank lines, several files and malformed strings are not in it.',
	'tree.py treebank.py', [], ['parsing brackets and escaping @ tree.py',
	'bracket and discbracket readers and writers @ treebank.py'],
	['trees, sentences and keys returned by the readers'],
	'enumeration of all trees, strings and corpora within bounds', TRUST)

p('C06', 'Treebank files in export and XML formats keep trees and annotation',
	'A tree written in the export, TigerXML or Alpino XML format and read '
	'again has the same constituents, labels, function labels, morphology '
	'tags, lemmas, words, comments and secondary edges, as far as that format '
	'can hold them. The options to add, replace, remove or insert function '
	'labels, morphology and lemmas put them where the documentation says, and a '
	'file is divided into exactly the sentences that it contains. In bracketed '
	'trees, the function in a label such as NP-SBJ-1 is recognized without its '
	'index. Compressed files (.gz, .zst) are read as the files they contain, '
	'completely or with an error.', 'inputs configurations', 'all trees over a few words with all kinds of '
	'annotation, all combinations of the options, all sequences of lines',
	'Tests round-trip one corpus with one setting; the combinations of options '
	'and annotation are not tried.', 'treebank.py util.py', [],
	['export, TigerXML and Alpino readers and writers @ treebank.py',
	'handling of functions and morphology @ treebank.py'],
	['trees, sentences, keys, and attributes of nodes after reading'],
	'enumeration of all trees and option combinations within bounds', TRUST
	+ 'Words that contain white space or look like markup of the format are '
	'excluded.')

p('C07', 'Incremental reading finds exactly the trees in a stream',
	'Reading a stream of trees, in bracket, discontinuous bracket, export or '
	'Alpino notation, piece by piece yields each tree in it once, in order, '
	'with its sentence and the other text that precedes it, no matter where '
	'lines are broken or which other text stands between the trees.',
	'inputs histories', 'all streams of chunks up to a length; all trees with '
	'all placements of line breaks',
	'Tests read well-formed files with one tree per line.', 'treebank.py',
	['partial tree @ text read so far and number of open brackets @ '
	'treebank.py'], ['segmentation of the stream @ treebank.py'],
	['trees, sentences and other text returned'],
	'enumeration of all input streams up to a length against an independent '
	'recognizer', TRUST)

p('C08', 'Binarization loses nothing and follows its options',
	'Binarizing any tree, with any combination of the options for direction, '
	'markovization, markers, head information and thresholds, gives a tree with '
	'at most two children per node and the original words; undoing it restores '
	'the original tree exactly. The label of each artificial node shows '
	'precisely the context (horizontal, vertical, head, siblings) that the '
	'options ask for; collapsed unary nodes are restored likewise.',
	'inputs configurations', 'all combinations of options on a few trees, all '
	'small trees with selected options',
	'Tests use a few settings on one corpus; there are about a hundred thousand '
	'combinations.', 'treetransforms.py', [],
	['binarize, unbinarize, collapse and expand unary nodes @ '
	'treetransforms.py'], ['trees and labels after the transformation'],
	'enumeration of all option combinations and all small trees against a '
	'reference binarization',
	TRUST + 'One known finding (label of left-factored nodes).')

p('C09', 'Optimal binarizations are optimal and lose nothing',
	'Among all binarizations of a constituent the optimal binarization has the '
	'least parsing complexity (or fan-out), for every arrangement of '
	'discontinuous children; restricted to head-driven binarizations it is the '
	'best of those. Undoing it restores the tree, and the reported fan-out, '
	'complexity and yield functions are those of the actual spans.',
	'inputs', 'all partitions of up to nine positions into up to six children, '
	'every choice of head; all small trees',
	'The tests show one production; optimality compares with all alternatives.',
	'treetransforms.py', [], ['search for the optimal binarization @ '
	'treetransforms.py'], ['the binarized trees'],
	'comparison with an exhaustive enumeration of all binarizations', TRUST)

p('C10', 'Splitting discontinuous nodes is reversible; raising keeps heads',
	'Splitting the discontinuous nodes of a tree gives a continuous tree in '
	'which every part of a node is marked, with head and number of the part if '
	'requested, and merging the parts gives the original tree, provided no two '
	'nodes with the same label compete for parts. Raising discontinuous nodes '
	'gives a continuous tree over the same words in which phrases only lose '
	'children that are not contiguous with their head.',
	'inputs configurations', 'all trees over a few words with all choices of '
	'heads',
	'Tests split and merge a handful of treebank sentences.',
	'treetransforms.py', [], ['splitdiscnodes, mergediscnodes, raisediscnodes '
	'@ treetransforms.py'], ['trees after the transformation'],
	'enumeration of all small trees and head assignments against reference '
	'transformations', TRUST)

p('C11', 'Clean-up transformations change what they should and nothing else',
	'Putting a tree in canonical order only reorders children (by their first '
	'word) and never changes the spans; removing terminals or empty nodes '
	'removes exactly those and the nodes that become empty, and renumbers the '
	'remaining words; fan-out markers state the number of contiguous parts of '
	'a constituent and are removed without affecting other labels; node spans '
	'cached as bit vectors equal the actual spans; and reducing the context of '
	'infrequent labels after binarization affects only labels under the '
	'threshold.',
	'inputs configurations', 'all trees over a few words, all orders of '
	'children, all subsets of words, all thresholds',
	'Tests exercise one treebank sample in canonical order.',
	'treetransforms.py', [], ['canonicalize, removeterminals, '
	'removeemptynodes, fan-out markers, bit sets, markovthreshold @ '
	'treetransforms.py'], ['trees after the transformation'],
	'enumeration of all small trees and subsets against reference '
	'transformations', TRUST)

p('C12', 'Punctuation strategies keep words and move only punctuation',
	'Every method to move or attach punctuation keeps the words in place and '
	'leaves the structure over the other words as it was; each puts '
	'punctuation where it says: at the root, at the sibling word, in the lowest '
	'or highest '
	'constituent for which it causes no extra discontinuity, with matching '
	'marks balanced. Removing or pruning punctuation drops exactly the intended '
	'tokens, and renumbers the rest. This also holds for trees with no words '
	'left, and with only punctuation.',
	'inputs configurations', 'all trees over a few words and all sequences of '
	'punctuation and other tokens',
	'Tests apply each method to a corpus and look at a few results.',
	'punctuation.py treebank.py', [], ['punctuation methods @ punctuation.py'],
	['trees and sentences after applying a method'],
	'enumeration of all small trees and token sequences against reference '
	'definitions', TRUST)

p('C13', 'Heads follow the rules, and dependencies follow from the heads',
	'The head of a constituent is the child that the head rules for its label '
	'select, in the order and direction that the rules give, whatever the case '
	'of the label; heads given by the annotation take precedence; modifier '
	'rules mark exactly the children that they describe. The dependencies of a '
	'tree link each word to the head word of the smallest constituent in which '
	'it is not the head, form a tree, and are written faithfully; statistics '
	'over them count each once. Heads can be recovered from head-outward '
	'binarization.',
	'inputs configurations', 'all sequences of a few child labels with all '
	'small rule sets; all trees over a few words with all head assignments',
	'Tests use one rule file and one corpus.', 'heads.py treebank.py', [],
	['head rules, modifier rules, recovering heads @ heads.py',
	'dependencies @ treebank.py'],
	['head and modifier marks on nodes; dependencies and their serialization'],
	'enumeration of all label sequences, rule sets and head assignments against '
	'a reference implementation of the rules', TRUST)

p('C14', 'A treebank grammar has exactly the rules and counts of its trees',
	'The productions read off a tree with its sentence are the rewriting of '
	'each constituent by its children, with the yield function that follows '
	'from the positions of the words: combining them gives the tree back. '
	'The grammar of a treebank has each production once, with its number of '
	'occurrences over the number of occurrences of its left-hand side, so '
	'that weights sum to one per label; every way of ordering or reducing '
	'the rules keeps their weights. A default parse of tags covers each tag once. '
	'The statistics of a grammar count its labels, rules and fan-outs.',
	'inputs', 'all trees over a few words with all discontinuities, frontier '
	'non-terminals and small treebanks',
	'Tests extract grammars from one corpus and cannot tell wrong yield '
	'functions or counts from right ones.', 'grammar.py', [],
	['lcfrsproductions, treebankgrammar, sortgrammar, defaultparse @ '
	'grammar.py'], ['list of rules and weights'],
	'enumeration of all small trees and treebanks against a reference '
	'extraction with exact fractions', TRUST)

p('C15', 'The DOP reduction gives every tree the probability of the DOP model',
	'The grammar made by the DOP reduction assigns to each tree the sum over '
	'all its derivations from fragments of the treebank of the products of '
	'their relative frequencies, for trees in and outside the treebank, '
	'discontinuous or not, with recursive labels, and for the other '
	'estimators as defined. Addresses distinguish nodes: two '
	'nodes have the same address if and only if they have equal subtrees where '
	'the packed variant promises that.',
	'inputs configurations', 'all treebanks of two or three small trees; all '
	'trees derivable from them',
	'Tests check that parsing works with the reduction; only enumeration of '
	'the fragments themselves shows whether probabilities are right.',
	'grammar.py', [], ['dopreduction, nodefreq, TreeDecorator @ grammar.py'],
	['weights of rules; sum over derivations of a tree'],
	'enumeration of all small treebanks against brute-force enumeration of '
	'fragments and derivations', TRUST)

p('C16', 'Fragments survive the conversion to grammar rules and back',
	'Flattening a fragment to rules with unique identifiers and undoing it '
	'with the template for reconstruction gives the fragment with the '
	'parts substituted in the right place; different fragments never share a '
	'rule; and the tree-substitution grammar compiled '
	'from a set of fragments gives each derivation of a tree the product of the '
	'weights of its fragments, for all estimators and words, including '
	'words with characters that have a meaning in the notation.',
	'inputs configurations', 'all fragments of all trees over a few words, all '
	'small treebanks',
	'Tests compile a few fragments by hand; errors show with discontinuity, '
	'repeated words, or two fragments with the same frontier.',
	'grammar.py', [], ['flatten, dopgrammar, compiletsg @ grammar.py'],
	['rules, weights and reconstruction templates'],
	'enumeration of all fragments of small trees and treebanks against '
	'reference substitution and derivation', TRUST)

p('C18', 'Tree edit distance is the cost of the cheapest edit script',
	'The tree edit distance of two trees is the least cost of a mapping '
	'between their nodes that respects order and dominance, so it is zero '
	'only for equal trees, symmetric, and obeys the triangle inequality; '
	'both implementations agree; the edit script that is reported is a valid '
	'one with that cost.',
	'inputs', 'all pairs of small trees in several families',
	'The test compares two examples; the dynamic program has many cases that '
	'only differ for particular shapes.', 'treedist.py', [],
	['treedist, newtreedist @ treedist.py'],
	['the distance and the edit script'],
	'enumeration of all pairs of small trees against brute-force enumeration '
	'of all mappings', TRUST)

p('C19', 'Priority queue, merging and ordered sets equal their simple models',
	'The agenda behaves as a dictionary from which the smallest value '
	'(first come, first served for equal ones) is taken, under any sequence of '
	'insertions, changes, deletions, peeks and copies. Merging sorted '
	'sequences gives the sorted whole; ordered sets keep the order of '
	'insertion without repetition; slices, ranges and tokenization of '
	'bracketed text are exactly those of the definition.',
	'histories inputs', 'all sequences of operations up to a length, all small '
	'sequences',
	'Tests run one sequence of operations on an agenda; lazy deletion and '
	'ties go wrong after particular histories.', 'util.py grammar.py',
	['heap with removed entries @ dictionary points to the live entry @ '
	'util.py, PyAgenda'], ['PyAgenda, merge, OrderedSet, slice_bounds @ '
	'util.py'], ['return values and contents after each operation'],
	'enumeration of operation sequences in lock-step with simple models', TRUST)

p('C17', 'Grammar files: weights, merging and statistics lose nothing',
	'A grammar that is written to a grammar and lexicon file and read back has '
	'the same rules, words and weights, for either file format and for '
	'integral, fractional, decimal and hexadecimal weights; whether a number '
	'is a weight follows from its position only, never from labels or words '
	'that look like one. Merging sorted grammars or lexicons sums the weights '
	'of equal rules and keeps all others, and the reported statistics are '
	'those of the rules.',
	'inputs', 'all small grammars over look-alike labels and words, all weight '
	'notations, all pairs of small sorted files',
	'Tests read well-behaved files; text formats go wrong for labels and words '
	'that look like numbers or separators and for equal neighbours.',
	'grammar.py _grammar.pxi',
	['rule @ weight in the file is the weight of the rule'],
	['writegrammar, merge, sumrules, grammarstats @ grammar.py'],
	['text of files, values and rules read back'],
	'enumeration of all small grammars and weight notations against a plain '
	'dictionary of weights', TRUST)

p('C20', 'Generating sentences samples the derivations of the grammar',
	'A sentence generated from a PCFG is the yield of a derivation of the '
	'grammar and is reported with the probability of that derivation. Each rule '
	'is chosen exactly for the interval of random numbers that its weight '
	'has among rules of the same left-hand side, so that every derivation '
	'comes out with its own probability, for grammars from files in either '
	'format.',
	'inputs schedules', 'all small grammars; all boundaries between intervals '
	'of the random number generator, to a bounded depth of the derivation',
	'Random generation cannot be tested by samples: a bias, a missing lexical '
	'rule or a boundary error needs all outcomes of the generator.', 'gen.py '
	'grammar.py', ['cumulative weights @ intervals of the unit interval'],
	['generate, chooserule, read_bitpar_grammar @ gen.py'],
	['the sentence, the derivation and its probability'],
	'enumeration of all choices of the random number generator (controlled '
	'scheduler) against all derivations of the grammar', TRUST)

p('C21', 'A drawing of a tree shows exactly that tree',
	'Every tree, continuous or discontinuous, can be drawn; words appear in '
	'their order on the bottom row, every node above and linked to exactly its '
	'own children, nodes and horizontal branches never overlap, and the tree '
	'can be read back from the picture. ASCII, Unicode, ANSI, HTML, SVG and '
	'TikZ forms show the same layout and labels; wrapping, highlighting and '
	'abbreviation change neither structure nor letters; the same tree given '
	'as object, string or with words draws the same. Secondary edges are '
	'marked at both ends, interactive HTML tells the parts and span of each '
	'node, and drawings of dependencies have one arrow per dependency, with '
	'arrows above those they span.',
	'inputs', 'all trees up to 6 (7) leaves, all label styles, all highlighted '
	'nodes, all lengths of parts of labels',
	'Layout of crossing branches depends on the combination of several '
	'discontinuous constituents: rare shapes overlap or cannot be placed.',
	'tree.py', ['grid of coordinates @ nodes placed above their children'],
	['DrawTree, frontier @ tree.py'],
	['text, SVG, TikZ output and coordinates'],
	'enumeration of all trees; a decoder follows the lines of the picture back '
	'to the parent of each node', TRUST)

p('C28', 'Evaluation counts exactly what matches',
	'For every pair of gold and candidate trees, evaluation compares exactly '
	'the labeled brackets (multisets of label and covered tokens, also '
	'discontinuous) and tags that remain after applying the parameter file; '
	'recall, precision, F-measure, exact match, POS accuracy, function tags, '
	'leaf-ancestor and tree-distance scores follow from these counts, per '
	'sentence, per category and for any sequence of sentences and length '
	'cutoff, as do the tables of errors. Dependency accuracy is the fraction '
	'of words of the candidate that are attached to the right word. Tokens deleted by the parameters may be missing from the '
	'candidate; other differences between sentences are reported as errors.',
	'inputs histories', 'all pairs of small trees under all parameter '
	'settings; all short sequences of sentences; all short parameter files',
	'A wrong score looks like a plausible score; the existing test compares '
	'a treebank with itself. Counting errors show in duplicate brackets, '
	'deleted tokens, empty results and discontinuity.', 'eval.py',
	['counts @ multisets of brackets of transformed trees'],
	['TreePairResult, Evaluator, EvalAccumulator, readparam, main @ eval.py'],
	['scores, counts and printed summaries'],
	'enumeration of all pairs of trees and parameters against a direct count '
	'over nested tuples', TRUST)

p('C29', 'Treebank transforms keep words, say what they annotate, and undo',
	'Every treebank transform (state splits, structural transforms, presets) '
	'keeps the words, their order and a well-formed tree, and changes exactly '
	'what it is for: a state split appends an annotation preceded by ^ to '
	'exactly the nodes whose context (parent, children, head, function, word) '
	'calls for it, a structural transform only adds or relabels the '
	'constituents it introduces. reversetransform restores the labels, '
	'structure, functions, lemmas and morphology, for the transformed tree as '
	'well as for a parse tree with the same labels. The relational-'
	'realizational transform can be undone without loss, and label collapsing '
	'maps labels only. The D-level of a Dutch tree is the highest for which '
	'there is evidence.',
	'inputs', 'all trees up to 3 words over the labels, tags, functions and '
	'words that matter for each transform, all presets',
	'Transforms interact with shape, functions and heads of neighboring nodes; '
	'tests try three transforms on one treebank.', 'treebanktransforms.py',
	['labels @ annotations after ^, appended functions and morphology',
	'source @ function, lemma, morphology of a node'],
	['transform, reversetransform, rrtransform, collapselabels @ '
	'treebanktransforms.py'],
	['labels, structure and attributes of the transformed tree'],
	'enumeration of all annotated trees over the alphabet of each transform '
	'against an independent definition of its effect', TRUST)

p('C22', 'A Grammar object represents exactly the rules it was given',
	'A grammar given as tuples, as text in either format, compressed, as a '
	'binary file, pickled, or extended with rules afterwards, contains exactly '
	'the given rules, numbered in order, with duplicate rules added up and '
	'weights normalized per left-hand side; rules, labels, POS tags and words '
	'can be looked up, and only those. Alternative weights can be switched '
	'back and forth; labels and rules map to those of a coarser grammar or '
	'KeyError is raised. A malformed line anywhere in a file is an error '
	'rather than a different grammar.',
	'inputs histories', 'all grammars with up to 3 (4) rules in all forms, all '
	'ways to split a grammar in initial and added rules, all malformed lines',
	'The indices of a Grammar (by LHS, by left and right child, by word) are '
	'built by sorting and pointing into shared arrays; which entry is wrong '
	'depends on the combination of rules. Tests load two fixed grammars.',
	'_grammar.pxi containers.pyx containers.pxd grammar.py',
	['rules @ counts, masses and probabilities per rule',
	'index @ rules by LHS, child, word; numbers of rules; labels'],
	['Grammar.addrules, switch, frombinfile, getmapping @ _grammar.pxi'],
	['printed grammar, lookups, parses'],
	'enumeration of all small grammars and of all sequences of additions '
	'against relative frequencies of a list of rules', TRUST)

p('C23', 'The parsers find exactly the derivations of the grammar',
	'For every binarized PCFG or PLCFRS and every sentence, the parser finds '
	'a parse if and only if the grammar has a derivation of the sentence, and '
	'the parse forest contains exactly the derivations of the grammar with '
	'their probabilities: also for discontinuous rules and long sentences, '
	'cyclic unary rules, given POS tags, unknown and capitalized words, '
	'blocked rules, alternative weights, and a white list that allows '
	'everything. A beam only removes derivations.',
	'inputs', 'all grammars with up to 3 (5) rules from a pool of 8 '
	'context-free and 12 discontinuous ones, all sentences up to 4 (6) words',
	'A parser that misses a derivation or mixes up a span still produces '
	'plausible trees; errors depend on the combination of rules, the order of '
	'items in the agenda, and positions of bits. Tests parse a handful of '
	'sentences.', 'pcfg.pyx plcfrs.pyx containers.pyx containers.pxd '
	'_grammar.pxi bit.pyx',
	['chart @ items and edges found so far', 'agenda @ items to be combined'],
	['parse, concat, applyunaryrules, populatepos @ pcfg.pyx, plcfrs.pyx'],
	['all derivations in the parse forest with probabilities'],
	'enumeration of all small grammars and sentences; the parse forest is '
	'compared with a brute force enumeration of derivations', TRUST)

p('C24', 'K-best derivations are the k best, and the chart tells what it has',
	'For every parse forest and k, the k-best derivations are k distinct '
	'derivations that are at least as probable as all others, in order, with '
	'correct probability; also with ties and cycles, and whatever was asked '
	'before of the same chart. The chart lists each item and edge exactly '
	'once with its best probability, finds items by label and span and tells '
	'their span, and filtering keeps exactly what is part of a complete '
	'derivation. Without a parse, the chart is partitioned in the largest '
	'parseable parts.', 'inputs histories',
	'all grammars with up to 3 (4) rules, or 5 (7) mostly unary ones; all '
	'sentences up to 4 (5) words; sequences of values of k; three types of '
	'chart; all spans in sentences of up to 257 (300) words',
	'Lazy enumeration expands neighbors of ranked edges on demand; an omitted '
	'neighbor or duplicate edge is only visible for some shapes of parse '
	'forest and some k.', 'kbest.pyx containers.pyx pcfg.pyx plcfrs.pyx',
	['queues @ candidate and ranked edges per item'],
	['lazykbest, partitionincompletechart @ kbest.pyx; itemid, filter @ '
	'pcfg.pyx, plcfrs.pyx, containers.pyx'],
	['ranked derivations, printed chart, IDs of items'],
	'enumeration of all small parse forests and all k, against a brute force '
	'enumeration of derivations and fixpoint of items', TRUST)

p('C25', 'Coarse-to-fine pruning removes exactly what it should',
	'Given a coarse chart and k, the items allowed in a finer grammar are '
	'exactly those in the k best coarse derivations, or with posterior '
	'probability above the threshold; mapped correctly to the labels of the '
	'fine grammar, whatever the mapping (refined labels, split discontinuous '
	'components, labels that are never pruned). Parsing with it finds exactly '
	'the fine derivations whose items are all allowed, with their correct '
	'probabilities; items are required or blocked exactly as requested; '
	'stages can be chained, and sentences can be long.', 'inputs',
	'all coarse grammars with up to 3 (4) rules, refinements of their labels, '
	'several kinds of label mapping, values of k and sentences up to 4 words; '
	'discontinuous grammars with their PCFG approximation',
	'A wrong whitelist makes the parser silently slower or silently lose '
	'parses; which one depends on the shape of the forest and on k.',
	'coarsetofine.pyx pcfg.pyx plcfrs.pyx containers.pyx kbest.pyx',
	['whitelist @ set of items allowed per label of the fine grammar'],
	['prunechart, posteriorthreshold, bottomup, '
	'getinside, getoutside @ coarsetofine.pyx'],
	['derivations found with the fine grammar'],
	'enumeration of pairs of small coarse and fine grammars, sentences and '
	'values of k, against exact k-best items and posteriors and a filtered '
	'fixpoint of fine derivations', TRUST)

p('C34', 'A treebank in compact, indexed form is the same treebank',
	'After any sequence of operations on a compact treebank (adding batches of '
	'trees, using its vocabulary for other trees, writing it to files and '
	'reading it for further additions) and when read from files or a pickle, '
	'each tree, subtree and sentence can be retrieved as it was added; the '
	'counts of trees, nodes and words are exact; the index lists exactly the '
	'trees with each production; and productions and labels keep their '
	'numbers. A vocabulary read from a file knows exactly what it has seen. '
	'Fragments extracted are the same as from a treebank created at once.',
	'histories inputs',
	'all sequences of up to 3 (4) of 15 operations, 5 of 5 operations, all '
	'binary trees of up to 5 (6) words, up to 600 trees or 300 words',
	'Node numbers, offsets and index refer to each other through raw memory '
	'that is reallocated and mapped from files; mistakes show only after '
	'certain sequences.',
	'containers.pyx _fragments.pyx treesearch.py parser.py',
	['store @ list of trees and list of productions'],
	['Ctrees, Vocabulary, FixedVocabulary @ containers.pyx; getctrees @ '
	'_fragments.pyx'],
	['trees, sentences, counts, index, productions, fragments'],
	'exhaustive exploration of operation sequences up to a depth on the real '
	'store in lock-step with a model (lists)', TRUST)

p('C35', 'Dividing work over processes changes no result',
	'Whichever worker process takes which part of the work, and in whatever '
	'order the workers finish, the result is the same as with a single '
	'process: fragments and their counts or indices (discodop fragments, '
	'double-DOP and osTAG grammars), parse trees, probabilities and '
	'evaluation of an experiment, each assigned to the right sentence, the '
	'output of discodop parser in the order of the input, and the results of '
	'treebank queries per file. Each tree is part of exactly one portion of '
	'the work, and an error in a worker is reported as an error.',
	'schedules histories configurations',
	'2 or 3 workers: all assignments of tasks to workers, and all orders of '
	'completion; treebanks of up to 3 (4) of 6 trees; up to 3 (4) sentences '
	'with 5 parsers; 21 queries on 3 files and histories of 3 queries; '
	'division of work for up to 79 (399) trees and 16 workers',
	'Workers have their own copy of treebanks, vocabularies, caches and '
	'parsers, made at different moments; mistakes depend on which worker '
	'gets which task, and what it did before.',
	'fragments.py parser.py runexp.py treesearch.py grammar.py',
	['tasks taken @ for each worker, the tasks it has executed',
	'completed @ results received by the main process'],
	['regular, recurringfragments, workload @ fragments.py; doparsing @ '
	'parser.py, runexp.py; CorpusSearcher._submit, _map, _as_completed @ '
	'treesearch.py'],
	['fragments with counts; files with parse trees and statistics; results '
	'of queries'],
	'stateless exploration of all schedules of the real code, with forked '
	'workers under a controlled scheduler; compared with the sequential run',
	TRUST)

p('C36', 'Outside estimates are admissible, and do not change the best parse',
	'Outside estimates never exceed the actual outside cost of an item, for '
	'all items in all sentences of up to the length they were computed for; '
	'parsing with estimates, also for longer sentences, finds a parse when '
	'there is one, with the same best derivation and same probability, '
	'whether parsing is exhaustive or stops with the first parse.', 'inputs',
	'all grammars with up to 3 (4) rules, also with gaps and with yield '
	'functions in any order; sentences of up to 5 (6) words, estimates for '
	'up to 4 (5) words; both kinds of estimate',
	'An inadmissible estimate only changes the result when the overestimated '
	'item is part of the best parse and is dequeued too late.',
	'estimates.pyx plcfrs.pyx',
	['table @ estimate for each label, length, context and number of gaps'],
	['getestimates, simpleinside, inside, outsidelr, pcfgoutsidesx @ '
	'estimates.pyx'],
	['estimates of all items; derivations found with them'],
	'enumeration of small grammars and sentences; exact outside costs of all '
	'items by fixpoint', TRUST)

p('C37', 'Tree-adjoining grammars: induction, reduction and derivations',
	'Elementary trees are split in pairs of an initial and an auxiliary tree '
	'which give the original when adjoined, and those without a recursive '
	'part are kept. The rules made from initial and auxiliary trees derive, '
	'for any sentence, exactly the trees that can be '
	'made with substitution and adjunction (except at nodes on the path '
	'to the foot), with the number of derivations and probability that '
	'follow from the weights; the elementary trees reported for a parse are '
	'those of one of its best derivations. Trees of the treebank from which a '
	'grammar was extracted can be derived.', 'inputs configurations',
	'all small elementary trees; sets of up to 3 (4) initial and auxiliary '
	'trees, all sentences of up to 4 words; treebanks of 2 trees; with and '
	'without sharing of equal subtrees',
	'Adjunction is encoded in labels; a wrong address or spine gives '
	'derivations that look right, with some trees missing or impossible.',
	'grammar.py disambiguation.pyx runexp.py',
	['addresses of nodes, adjunction sites @ ostagreduction'],
	['inducetagfromtsg, ostagreduction, doubleostagfromtsg @ grammar.py',
	'marginalize, ostagderivation @ disambiguation.pyx'],
	['elementary trees, rules, derived trees, probabilities, fragments'],
	'enumeration of sets of elementary trees and sentences, against reference '
	'substitution and adjunction', TRUST)

p('C30', 'Treebank search gives exactly the matches, whatever was asked before',
	'Searching with tree fragments or regular expressions gives exactly the '
	'occurrences in the requested files and sentences: their counts, sentence '
	'numbers, breakdown, sentences, trees and highlighted words and nodes '
	'all describe the same matches, at most as many as asked for, and '
	'batches of queries give the results of each query in order. The result '
	'does not depend on earlier queries of the same searcher, on '
	'keeping files in memory, or on index files left by earlier searches '
	'when files, or the list of files, have changed since. discodop '
	'treesearch prints these matches as its options say.',
	'histories inputs configurations',
	'16 regular expressions over 9 texts and 17 slices; fragments in and not '
	'in 10 treebanks of 3 formats; all pairs (triples) of queries; all '
	'sequences of up to 3 (4) openings of sets of files and changes to files; '
	'combinations of command line options; sequences of 6 (7) cache '
	'operations',
	'Stale caches and indexes only show after particular sequences of '
	'queries and changes; slices only fail at the borders of files.',
	'treesearch.py _fragments.pyx containers.pyx',
	['cache @ results of previous queries of a searcher',
	'index files @ productions and line numbers stored next to the treebanks'],
	['counts, trees, sents, batchcounts, batchsents, extract, getinfo @ '
	'RegexSearcher, FragmentSearcher; main @ treesearch.py'],
	['counts, sentence numbers, sentences, trees, highlights; output'],
	'enumeration of queries, slices, and histories of queries and file '
	'changes; against a reference search over all nodes and lines', TRUST)
p('C31', 'Every word can be tagged: unknown word models and external taggers',
	'Rare words are replaced by the signature of the chosen model and common '
	'words are kept, in training and test sentences alike; every '
	'sentence of the training data keeps its tags, each word of a new '
	'sentence has a tag in the grammar, whatever its characters, and '
	'the model read back from a grammar gives the same results. Thresholds '
	'count as documented. An external tagger gets each sentence once and '
	'its tags are returned in order, apart from the requested overrides.',
	'inputs configurations',
	'all tagged corpora of up to 3 (4) tokens from an alphabet of 9; 4 models; '
	'thresholds; all words of up to 4 characters from 7, suffixes x stems; '
	'all sequences of up to 3 sentences for the stand-in taggers',
	'Signatures are a cascade of tests on characters and suffixes; '
	'thresholds and fallbacks interact, and the result is an unparsable '
	'sentence only for a particular word.',
	'lexicon.py runexp.py parser.py pcfg.pyx plcfrs.pyx grammar.py',
	['signatures, lexicon, closed class words @ getunknownwordmodel',
	'probabilities of unseen words @ smoothlexicon, simplesmoothlexicon'],
	['getunknownwordmodel, replaceraretrainwords, replaceraretestwords, '
	'unknownword4/6/base/ftb, externaltagging @ lexicon.py; getposmodel, '
	'getgrammars @ runexp.py; readgrammars @ parser.py'],
	['signatures, replaced sentences, lexical rules, parses of new words'],
	'enumeration of corpora and words against a reference written from '
	'the description of the models', TRUST)

p('C32', 'From treebank to parse trees: stages of the parser agree with the model',
	'A parser trained on a treebank gives for each sentence the most probable '
	'tree of its last stage according to that treebank and model (rules, all '
	'fragments, recurring fragments), without traces of binarization or '
	'state splits, whichever earlier stages filter the chart; with given '
	'tags, the best tree with these tags. A sentence without a parse is '
	'divided into its longest parsable parts, each with its best tree. '
	'Every sentence gets a tree with exactly its words, under the root label. '
	'Grammars read back from files give the same trees and probabilities. An '
	'experiment writes these trees for exactly the selected sentences.',
	'inputs configurations',
	'families of all trees of up to 4 words; treebanks of one or two trees; '
	'17 sequences of stages; 6 binarizations; all sentences of up to 3 '
	'words, some of 4; all tag sequences; 3 unknown word settings',
	'The stages are joined by labels: names for split, binarized, addressed or '
	'collapsed nodes must be mapped in both directions, and a mistake '
	'prunes the best tree for some treebank only.',
	'parser.py runexp.py coarsetofine.pyx disambiguation.pyx grammar.py '
	'treetransforms.py containers.pyx kbest.pyx',
	['grammars of the stages @ getgrammars, readgrammars',
	'charts and best trees of previous stages @ Parser.parse'],
	['startexp, loadtraincorpus, getgrammars @ runexp.py; Parser.parse, '
	'readgrammars, doparsing @ parser.py'],
	['trees, probabilities, absence of parse for each stage; output files'],
	'enumeration of treebanks, sentences and stages; reference: all '
	'derivations of the treebank model by brute force', TRUST)

p('C33', 'The command line tools do what their options say',
	'treetransforms reads the selected trees of a treebank with the given '
	'options, applies the given transformations in the given order with '
	'their parameters, and writes each tree once in the requested format and '
	'encoding, to file or standard output; or fails. treedraw shows the '
	'first n trees of each file (or standard input, detecting the format) '
	'in the requested style. grammar writes the grammar, lexicon and '
	'templates for the requested model and estimator, possibly compressed, '
	'in the right format. Input may be compressed (.gz, .zst). Invalid '
	'options or numbers of files are errors, with usage, without output '
	'files; the main command runs the command that was named.',
	'inputs configurations',
	'each option, pair and many triples of options; sequences of up to 3 '
	'actions; formats, encodings and ways to pass in- and output; 5 trees, '
	'4 treebanks, 4 lists of fragments',
	'Options are parsed and passed on by name; a typo or missing combination '
	'goes unnoticed, because ignored options give no error.',
	'cli.py treebank.py treetransforms.py grammar.py',
	['options @ as given on the command line'],
	['treetransforms, treedraw, grammar @ cli.py'],
	['contents of output files, standard output, errors'],
	'enumeration of combinations of options, against a composition of '
	'library functions for each', TRUST)

p('C26', 'DOP parsing: derivations, fragments and objectives are exact',
	'For any treebank, parsing with the DOP reduction, Double-DOP or all '
	'fragments gives the same parse trees with the same probabilities as '
	'summing over all ways to build the tree from fragments, with the '
	'fragments of each derivation recovered. Given the list of derivations '
	'each objective picks what it promises: most probable derivation or '
	'parse, shortest derivation, simplicity-likelihood, most constituents '
	'correct; under required and blocked constituents, and with whatever '
	'probability model is used for ties.', 'inputs configurations',
	'all treebanks of 1 or 2 small (discontinuous) trees from several '
	'families; all sentences of the same words; DOP models, estimators and '
	'objectives; all sets of up to 2 required or blocked spans',
	'Fragments are only visible in derivations after conversion; wrong '
	'aggregation still gives plausible trees, with the wrong one on top.',
	'disambiguation.pyx treeparsing.pyx _grammar.pyx kbest.pyx grammar.py',
	['derivations @ ranked list with probabilities, per model'],
	['getderivations, marginalize, maxconstituentsparse, sldop, '
	'recoverfragments @ disambiguation.pyx'],
	['parse trees, probabilities and fragments'],
	'enumeration of small treebanks, sentences, models and objectives, '
	'against brute force enumeration of all derivations', TRUST)

p('C27', 'Fragment extraction finds all common fragments, with exact counts',
	'The fragments extracted from one or two treebanks are exactly the '
	'largest common fragments of all pairs of trees (or adjacent ones; or '
	'those with two words, one with a matching tag); and all fragments up to '
	'a given depth and number of substitution sites are found when asked '
	'for. Counts and locations are exact, also in slices, with a maximum, '
	'for given fragments, discontinuous ones, and whatever the number of '
	'nodes. Bracketed trees are read and binarized correctly, or refused. '
	'discodop fragments reports the fragments, counts, indices, relative '
	'frequencies as its options say.', 'inputs configurations',
	'all treebanks of 2 (3) trees over 2-4 (5) words from 7 families, all '
	'fragments of one tree in another, pairs of trees with around 1, 64, '
	'128, 192 nodes, all bracketed trees of up to 6 (7) words, all sets of '
	'up to 3 (4) options with 1-3 treebanks in 3 formats',
	'Whether two trees share a fragment depends on repeated productions and '
	'nesting; bitsets go wrong only for certain numbers of nodes.',
	'_fragments.pyx fragments.py containers.pyx bit.pyx',
	['bit matrix @ nodes with the same production in a pair of trees',
	'bitset @ nodes in a fragment'],
	['extractfragments, exactcounts, exactcountsslice, allfragments, '
	'completebitsets, readtree @ _fragments.pyx; main @ fragments.py'],
	['fragments, counts, indices, node numbers; output files'],
	'enumeration of small treebanks, and of options; against brute force '
	'enumeration of fragments and their occurrences', TRUST)
