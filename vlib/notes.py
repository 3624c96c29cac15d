"""What each check specifies, its oracle, and what it does not judge."""
ORACLE = {
'C01': 'Python sets of integers. Both representations (Python int; array of '
	'unsigned longs of 1 to 3 words) of each pattern go through each function.',
'C02': 'A forest as plain nested lists with the same edits; after each edit '
	'every pointer (parent, parent_index, siblings, root, treeposition) of '
	'every node is recomputed from the lists. An edit that raises must leave the '
	'forest as it was.',
'C03': 'Contents before and after each operation on nested tuples; equality of '
	'tuples for all pairs of trees; aliasing is tested by editing copies.',
'C04': 'Direct recursive definitions on nested tuples.',
'C05': 'The tree and words themselves (round trip), and for arbitrary strings an '
	'independent recognizer of the notation, which says if the string is a tree '
	'and which.',
'C06': 'The annotated tree that was written (round trip), independent writers for '
	'export, TigerXML, Alpino and FTB files which are given to the readers, and '
	'for options (functions, morphology, lemmas, head rules, selection of '
	'sentences, line order) the effect on tuples.',
'C07': 'The list of trees put in the stream; for arbitrary streams of chunks '
	'a small independent automaton that cuts it up.',
'C08': 'A reference binarization on tuples for each of the options (direction, '
	'h, v, head-outward, dot, markers), and unbinarize must give back the tree. '
	'Labels are compared with the context that option defines.',
'C09': 'All binarizations of a constituent, with their complexity by each '
	'criterion; the result must be among the best.',
'C10': 'Reference split/merge/raise on sets of positions; merge(split(t)) = t.',
'C11': 'Reference definition of each transformation on tuples; nothing else '
	'may differ.',
'C12': 'Definition of each strategy on tuples: which tokens are punctuation, '
	'where each may attach; removal and restoration are inverse.',
'C13': 'Independent implementation of head rules from their description; '
	'dependencies recomputed from heads.',
'C14': 'Independent extraction of rules with yield functions from sets of '
	'positions, relative frequencies as fractions.',
'C15': 'Sum of weights of all DOP derivations by brute force, for each tree of '
	'the treebank and each tree that can be derived from its fragments.',
'C16': 'Reference substitution of fragments; each derivation of the grammar '
	'must recover the tree, each fragment be represented once, weights as '
	'fractions.',
'C17': 'A dictionary from rule to weight; merging adds up; text read with an '
	'independent reader.',
'C18': 'Minimum over all valid mappings between two trees (brute force), and the '
	'edit script itself is applied.',
'C19': 'Lists, sorted(), dict.',
'C20': 'All derivations with exact probabilities; the random number generator is '
	'replaced by one which is told what to return, at all interval boundaries.',
'C21': 'A decoder reads the picture (text, HTML, SVG, LaTeX source) and follows '
	'lines from each node to its parent; the decoded tree must equal the tree.',
'C22': 'List of rules with relative frequencies as fractions; behaviour of the '
	'Grammar object through all its access functions and tables.',
'C23': 'Fixpoint of items and set of derivations, by brute force over all '
	'rules and spans; bitpar-style output and blocking/beam options likewise.',
'C24': 'Sorted list of all derivations; set of all items and edges.',
'C25': 'Exact k-best items or posterior probabilities of the coarse grammar; '
	'filtered fixpoint of the fine grammar.',
'C26': 'All derivations of the DOP model for each sentence; each objective by '
	'definition (MPP, MPD, shortest, SL-DOP, MCP, reranking).',
'C27': 'All fragments of each tree; intersection of sets of fragments, maximal '
	'ones, and occurrences counted one by one.',
'C28': 'Bracketings as Counters with the parameter settings applied in the order '
	'of the description; the formulas with exact decimals.',
'C29': 'Independent definition of each transform on tuples with tags, functions '
	'and morphology; reverse transform must give back the tree.',
'C30': 'Reference search: all nodes of all trees, all lines; results must not '
	'depend on the cache or on earlier queries; changed files must be noticed.',
'C31': 'Model written from the description: signatures, thresholds, probability '
	'of unknown words for each tag sum.',
'C32': 'All derivations of the treebank model (reference binarization, reference '
	'DOP models, C15, C26), stage by stage; experiment: files written by runexp '
	'read back and compared.',
'C33': 'Composition of the library functions that each option stands for, which '
	'the other checks judge.',
'C34': 'Lists of trees and words; state after each operation compared with '
	'the same operation on lists; files read back by another object.',
'C35': 'The result with a single process. Pools are replaced (vlib/sched.py) '
	'by forked processes under a scheduler that enumerates, depth-first, which '
	'worker takes each task and which one finishes next; six cases are also '
	'run with the real pools.',
'C36': 'Exact outside cost of each item by fixpoint; estimate must not exceed '
	'it; parse must have the same cost.',
'C37': 'Recursive enumeration of derivations over spans of the sentence, with '
	'substitution and adjunction as defined, on elementary trees as tuples.',
}
LIMITS = """\
labels of left-factored contexts and head-outward contexts (C08)
an empty label directly before a leaf in bracket notation (C05)
words such as #500 or %% in export files; more than 500 phrasal nodes (C06)
function tags 'add'/'replace' combined with lemmas 'between' (C06)
Tiger roots other than VROOT (C06); several formats in one stream (C07)
nodes that mix tokens with and without preterminal in writers (C05, C06)
merging when siblings with the same label are themselves discontinuous (C10)
contents of contsets with integer children; trees whose root is a preterminal (C09)
non-integral weights in bitpar files which do not sum to 1 (C17, C20)
labels both in DELETE_LABEL and EQ_LABEL (C28)
splitIN and splitIN4, only that they append annotation (C29)
derivations deeper than MAX_DEPTH = 200 (C24); posterior pruning of cyclic charts (C25)
LCFRS coarse stage for a CFG fine stage (C25); given tags with whitelist
value of the score of MCP parses; cyclic grammars with DOP (C26)
fragments: approximate counts combined with other options, maxdepth 0 (C27)
treesearch: maximum number of results over several files; zero-width matches (C30)
punctuation and transformations in experiments; '-' as input with output file (C32)
grammar param with RETAGGING (C32); functiontags (needs sklearn)
auxiliary trees whose foot is a preterminal; objectives other than mpp with osTAG (C37)
fragments of osTAG derivations with a foot after a sibling with its label (C37)
punctuation strategies on trees whose children are not in word order (C12)
compact Alpino files whose last sentence lacks a newline (C34)
""".splitlines()
