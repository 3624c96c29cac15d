From 53dc8e530822c925d398d45ce9a1f549feb62e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 001/173] fix: keep parent pointers consistent when a subtree
 is repeated or re-used

Passing the same subtree twice to the constructor of ParentedTree or to a slice
assignment raised an exception halfway, leaving wrong parent pointers; slice
assignment of children that are being replaced (e.g., reversing) was refused.
---
 discodop/tree.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 56d2899..3192952 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -683,6 +683,7 @@ class ParentedTree(Tree):
 		super().__init__(label_or_str, children)
 		# iterate over self.children, *not* children,
 		# because children might be an iterator.
+		self._checkunique(self.children)
 		for i, child in enumerate(self.children):
 			if isinstance(child, Tree):
 				self._setparent(child, i, dry_run=True)
@@ -783,6 +784,14 @@ class ParentedTree(Tree):
 		if not dry_run:
 			child._parent = self
 
+	def _checkunique(self, children):
+		"""Check that no subtree occurs more than once in a list of children.
+
+		:raises ValueError: if the same Tree object occurs multiple times."""
+		ids = [id(child) for child in children if isinstance(child, Tree)]
+		if len(set(ids)) != len(ids):
+			raise ValueError('Cannot insert the same subtree more than once.')
+
 	# === Methods that add/remove children ======================
 	# Every method that adds or removes a child must make
 	# appropriate calls to _setparent() and _delparent().
@@ -820,8 +829,11 @@ class ParentedTree(Tree):
 				value = list(value)
 			# Check for any error conditions, so we can avoid ending
 			# up in an inconsistent state if an error does occur.
+			# Children which are being replaced may be re-used.
+			self._checkunique(value)
+			replaced = [id(child) for child in self.children[start:stop]]
 			for i, child in enumerate(value):
-				if isinstance(child, Tree):
+				if isinstance(child, Tree) and id(child) not in replaced:
 					self._setparent(child, start + i, dry_run=True)
 			# clear the child pointers of all parents we're removing
 			for i in range(start, stop):
-- 
2.43.0


From 338720121a80613dd496418b08db3c191fd43ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 002/173] fix: make insert() raise on immutable trees like the
 other list operations

---
 discodop/tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/discodop/tree.py b/discodop/tree.py
index 3192952..5a40a2e 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -642,6 +642,9 @@ class ImmutableTree(Tree):
 	def extend(self, _):
 		raise ValueError('ImmutableTrees may not be modified')
 
+	def insert(self, _index, _child):
+		raise ValueError('ImmutableTrees may not be modified')
+
 	def pop(self, _=None):
 		raise ValueError('ImmutableTrees may not be modified')
 
-- 
2.43.0


From 362ca1b99b807d0c1061a9d3e85e6a212d5ba8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 003/173] fix: make comparison of trees a consistent order

The comparison operators combined label and children with 'or', such that
a < b and b < a could both hold.
---
 discodop/tree.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 5a40a2e..f3bc2a0 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -125,26 +125,26 @@ class Tree(object):
 	def __lt__(self, other):
 		if not isinstance(other, Tree):
 			return False
-		return (self.label < other.label
-				or self.children < other.children)
+		return ((self.label, self.children)
+				< (other.label, other.children))
 
 	def __le__(self, other):
 		if not isinstance(other, Tree):
 			return False
-		return (self.label <= other.label
-				or self.children <= other.children)
+		return ((self.label, self.children)
+				<= (other.label, other.children))
 
 	def __gt__(self, other):
 		if not isinstance(other, Tree):
 			return True
-		return (self.label > other.label
-				or self.children > other.children)
+		return ((self.label, self.children)
+				> (other.label, other.children))
 
 	def __ge__(self, other):
 		if not isinstance(other, Tree):
-			return False
-		return (self.label >= other.label
-				or self.children >= other.children)
+			return True
+		return ((self.label, self.children)
+				>= (other.label, other.children))
 
 	# === Delegated list operations ==============================
 	def append(self, child):
-- 
2.43.0


From 0150c53ba6291c2dbb82d872bf065646f5de292e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 004/173] fix: number trees over all files of a bracket corpus
 and skip blank lines

---
 discodop/treebank.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 43375d5..b639c06 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -217,9 +217,13 @@ class BracketCorpusReader(CorpusReader):
 		return OrderedDict(self._read_blocks())
 
 	def _read_blocks(self):
+		n = 0  # NB: count over all files, so that keys are unique
 		for filename in self._filenames:
 			with openread(filename, encoding=self._encoding) as inp:
-				yield from enumerate((line for line in inp if line), 1)
+				for line in inp:
+					if line.strip():
+						n += 1
+						yield n, line
 
 	def _parse(self, block):
 		c = count()
-- 
2.43.0


From 3bd1484d1592e58006b8c42e12b2789e6055a4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 005/173] fix: undo the escaping of words when reading a
 bracket corpus

---
 discodop/treebank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index b639c06..b684517 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -9,7 +9,7 @@ from itertools import count, chain, islice
 from collections import defaultdict
 import xml.etree.ElementTree as ElementTree
 from collections import OrderedDict
-from .tree import (Tree, ParentedTree, brackettree, escape, unescape,
+from .tree import (Tree, ParentedTree, brackettree, unescape,
 		writebrackettree, writediscbrackettree, SUPERFLUOUSSPACERE, HEAD)
 from .treetransforms import removeemptynodes
 from .punctuation import applypunct
@@ -244,7 +244,7 @@ class BracketCorpusReader(CorpusReader):
 								'=0123456789')
 					if self.functions == 'remove':
 						node.label = node.label[:x]
-		sent = [escape(token) for token in LEAVESRE.findall(block)]
+		sent = [unescape(token) for token in LEAVESRE.findall(block)]
 		return Item(tree, sent, None, block)
 
 
-- 
2.43.0


From 04c1033f5d36b42254f3f7825cde0bfb15880a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 006/173] fix: detect discbracket notation despite space
 between closing brackets

---
 discodop/tree.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index f3bc2a0..27b770a 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1903,6 +1903,7 @@ def brackettree(treestr, detectdisc=True):
 	:param detectdisc: if True, enable discbracket detection;
 		if False, force bracket format.
 	:returns: (tree, sent) tuple of ParentedTree and list of str."""
+	treestr = SUPERFLUOUSSPACERE.sub(')', treestr)
 	# bracket: terminals are not all indices
 	if not detectdisc or STRTERMRE.search(treestr):
 		sent, cnt = [], count()
@@ -1912,8 +1913,8 @@ def brackettree(treestr, detectdisc=True):
 			sent.append(unescape(x))
 			return next(cnt)
 
-		tree = ParentedTree.parse(FRONTIERNTRE.sub(' #FRONTIER#)',
-				SUPERFLUOUSSPACERE.sub(')', treestr)),
+		tree = ParentedTree.parse(
+				FRONTIERNTRE.sub(' #FRONTIER#)', treestr),
 				parse_leaf=substleaf)
 	else:  # discbracket: terminals have indices
 		sent = {}
@@ -1925,9 +1926,7 @@ def brackettree(treestr, detectdisc=True):
 			sent[idx] = unescape(word)
 			return idx
 
-		tree = ParentedTree.parse(
-				SUPERFLUOUSSPACERE.sub(')', treestr),
-				parse_leaf=substleaf)
+		tree = ParentedTree.parse(treestr, parse_leaf=substleaf)
 		sent = [sent.get(n, None) for n in range(max(sent) + 1)]
 	return tree, sent
 
-- 
2.43.0


From 3aa5383e122cd8dd636b3d9ee1b1103d753565d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 007/173] fix: keep function labels in TigerXML when a parent
 precedes its children

---
 discodop/treebank.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index b684517..8dbac0b 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -401,7 +401,9 @@ class TigerXMLCorpusReader(CorpusReader):
 				ntid = nt.get('id').split('_')[-1]
 				fields[WORD] = '#' + ntid
 				fields[TAG] = nt.get('cat')
-				fields[LEMMA] = fields[MORPH] = fields[FUNC] = '--'
+				fields[LEMMA] = fields[MORPH] = '--'
+				if fields[FUNC] is None:  # NB: parent may come first
+					fields[FUNC] = '--'
 			for edge in nt:
 				idref = edge.get('idref')
 				nodes.setdefault(idref, 6 * [None])
-- 
2.43.0


From beb49713cb37da6c23e204bf1997e1c1e11e3749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:30 +0000
Subject: [PATCH 008/173] fix: accept text in front of a tree on the same line

---
 discodop/treebank.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 8dbac0b..52931cc 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -1116,7 +1116,8 @@ def segmentbrackets(strict=False, robust=True):
 					rest, prev = line[start:a], line[a:]
 					if result:
 						tryparse(result, rest)
-						result, start = '', a
+						result = ''
+					start = a
 				parens += 1
 				depth = max(depth, parens)
 				a = line.find(lb, a + 1)
-- 
2.43.0


From 3533b8956a370d19fe77079cb7417882e691771f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 009/173] fix: let unbinarize() recognize nodes with a tail
 marker

---
 discodop/treetransforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 8faa5af..79c90d2 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -232,7 +232,8 @@ def binarize(tree, factor='right', horzmarkov=999, vertmarkov=1,
 				mark = '<%s>%s' % (siblings, parents)
 				if ids is not None:  # numeric identifier
 					mark = '<%s>' % ids[mark]
-				newnode.label = ''.join((origlabel, childchar, marktail, mark))
+				# NB: keep '|<' intact so that unbinarize() recognizes this node
+				newnode.label = ''.join((origlabel, childchar, mark, marktail))
 				curnode = newnode
 				# switch direction upon encountering the head
 				if headoutward and i == headidx:
-- 
2.43.0


From 4faa27f17108d6bbc0c1b465d50399f2981b90ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 010/173] fix: collapse and expand unary nodes of trees with
 parent pointers

---
 discodop/treetransforms.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 79c90d2..b0d74a6 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -300,8 +300,10 @@ def unbinarize(tree, _sent=None, expandunary=True,
 				if expandunary:
 					unaryindex = node.label.find(unarychar)
 					if unaryindex != -1:
+						children = list(node)
+						node[:] = []
 						newnode = treeclass(
-								node.label[unaryindex + 1:], node[:])
+								node.label[unaryindex + 1:], children)
 						node.label = node.label[:unaryindex]
 						node[:] = [newnode]
 				parent = node  # non-binarized node, move on to next parent
@@ -329,7 +331,9 @@ def collapseunary(tree, collapsepos=False, collapseroot=False, joinchar='+'):
 			if (len(node) == 1 and isinstance(node[0], Tree)
 					and (collapsepos or isinstance(node[0, 0], Tree))):
 				node.label += joinchar + node[0].label
-				node[0:] = [child for child in node[0]]
+				grandchildren = list(node[0])
+				node[0][:] = []
+				node[:] = grandchildren
 				# since we assigned the child's children to the current node,
 				# evaluate the current node again
 				agenda.append(node)
-- 
2.43.0


From f9c2f241f07b7fac1ba523da8a57ab7c1e159e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 011/173] fix: keep head information when splitting
 discontinuous nodes

The list of children had been emptied before looking for the head child, so
that no part of a discontinuous head was marked as head.
---
 discodop/treetransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index b0d74a6..a2cd7a1 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -516,7 +516,7 @@ def splitdiscnodes(tree, markorigin=False):
 					newchild = treeclass(newlabel, childsubset)
 					newchild.source = child.source
 					if (child.type == HEAD
-							and any(a.type == HEAD for a in child)):
+							and any(a.type == HEAD for a in newchild)):
 						newchild.type = HEAD
 					node.append(newchild)
 			else:
-- 
2.43.0


From 517a119d972ae9b49dcd218ce1f37467d946797f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 012/173] fix: do not repeat the bracket of the parent context
 in markovthreshold()

The matched group includes the delimiters, so that S|<A>^<P> was turned into
S|<A,>^<^<P>>.
---
 discodop/treetransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index a2cd7a1..12f9d93 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -472,7 +472,7 @@ def markovthreshold(trees, n, horzmarkov, vertmarkov):
 					','.join(match.group(3).split(',')[:horzmarkov]))
 			if match.group(4):
 				newlabel += '^<%s>' % ','.join(
-						match.group(4).split(',')[:vertmarkov])
+						match.group(4)[2:-1].split(',')[:vertmarkov])
 			newlabels[label] = newlabel + match.group(5)
 	for tree in trees:
 		for node in tree.subtrees(lambda n: n.label in newlabels):
-- 
2.43.0


From 4fe5d3b1051c28926278990e93f4b3b0a7422156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 013/173] fix: removefanoutmarkers() should only remove fan-out
 markers

Labels that contain an underscore for another reason were truncated.
---
 discodop/treetransforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 12f9d93..8410568 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -26,6 +26,7 @@ from .util import OrderedSet, PyAgenda
 
 # e.g., 'VP_2*0' group 1: 'VP_2'; group 2: '0'; group 3: ''
 SPLITLABELRE = re.compile(r'(.*)\*(?:([0-9]+)([^!]+![^!]+)?)?$')
+FANOUTRE = re.compile(r'_[0-9]+$')
 MARKOVRE = re.compile(r'^(.*)\|<(.*;)?(.*)>(\^<.*>)?(.*)?$')
 
 
@@ -633,7 +634,7 @@ def addfanoutmarkers(tree):
 def removefanoutmarkers(tree):
 	"""Remove fanout marks."""
 	for a in tree.subtrees(lambda x: '_' in x.label):
-		a.label = a.label.rsplit('_', 1)[0]
+		a.label = FANOUTRE.sub('', a.label)
 	return tree
 
 
-- 
2.43.0


From 01e78dc23c45cd7aa49eea6ce4fb9f84d0144bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 014/173] fix: recognize parent context of labels in
 markovthreshold()

The horizontal context was matched greedily, so that the parent context was
taken to be part of it and cut off or kept along with it.
---
 discodop/treetransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 8410568..93a69c6 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -27,7 +27,7 @@ from .util import OrderedSet, PyAgenda
 # e.g., 'VP_2*0' group 1: 'VP_2'; group 2: '0'; group 3: ''
 SPLITLABELRE = re.compile(r'(.*)\*(?:([0-9]+)([^!]+![^!]+)?)?$')
 FANOUTRE = re.compile(r'_[0-9]+$')
-MARKOVRE = re.compile(r'^(.*)\|<(.*;)?(.*)>(\^<.*>)?(.*)?$')
+MARKOVRE = re.compile(r'^(.*)\|<(.*;)?(.*?)>(\^<.*>)?(.*)?$')
 
 
 def binarize(tree, factor='right', horzmarkov=999, vertmarkov=1,
-- 
2.43.0


From d777a5813edbefce61aa5b9a9c6f8c791d789a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 015/173] fix: punctprune() of an empty sentence

The index was compared with the length instead of zero.
---
 discodop/punctuation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/punctuation.py b/discodop/punctuation.py
index 2b7995b..abfb027 100644
--- a/discodop/punctuation.py
+++ b/discodop/punctuation.py
@@ -66,7 +66,7 @@ def punctprune(tree, sent):
 		sent[i] = None
 		i += 1
 	i = len(sent) - 1
-	while i < len(sent) and sent[i] in PRUNEPUNCT:
+	while i >= 0 and sent[i] in PRUNEPUNCT:
 		sent[i] = None
 		i -= 1
 	if tree is None:
-- 
2.43.0


From 72eedc56bcdbdd2c32316f4d4ca7c104f55d4393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 016/173] fix: do not lose punctuation in punctlower()

Punctuation was dropped when no constituent to the right of it was found, and
with several punctuation marks the positions were no longer valid after the
first had been moved.
---
 discodop/punctuation.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/discodop/punctuation.py b/discodop/punctuation.py
index abfb027..23ca3d3 100644
--- a/discodop/punctuation.py
+++ b/discodop/punctuation.py
@@ -100,22 +100,26 @@ def punctlower(tree, sent):
 
 		Recurses top-down on suitable candidates."""
 		num = node.leaves()[0]
-		for i, child in enumerate(sorted(candidate, key=lambda x: x.leaves())):
-			if not child or isinstance(child[0], int):
-				continue
-			termdom = child.leaves()
-			if num < min(termdom):
-				candidate.insert(i + 1, node)
-				break
-			elif num < max(termdom):
-				lower(node, child)
-				break
-
-	for a in tree.treepositions('leaves'):
-		if ispunct(sent[tree[a]], tree[a[:-1]]):
-			b = tree[a[:-1]]
-			del tree[a[:-1]]
-			lower(b, tree)
+		for child in sorted(candidate, key=lambda n: n.leaves()):
+			if child and isinstance(child[0], Tree):
+				termdom = child.leaves()
+				if min(termdom) < num < max(termdom):
+					lower(node, child)
+					return
+		candidate.append(node)
+		candidate.children.sort(key=lambda n: n.leaves())
+
+	for a in sorted((a for a in tree.subtrees() if a and isinstance(a[0], int)
+			and ispunct(sent[a[0]], a)), key=lambda n: n.leaves()):
+		node = a
+		while node is not tree and len(node.parent) == 1:
+			node = node.parent
+		if node is tree:
+			continue
+		node.parent.pop(node.parent_index)
+		if node is not a:
+			a.parent.pop(a.parent_index)
+		lower(a, tree)
 
 
 def punctraise(tree, sent, rootpreterms=False):
-- 
2.43.0


From aeeefc4d2e6ba2de6bf6f4032b776527b2c63c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:08 +0000
Subject: [PATCH 017/173] fix: do not ignore head rules that only specify a
 direction

Rules such as 'FRAG right' (used in the head rules that are included) were
skipped when reading the file.
---
 discodop/heads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/heads.py b/discodop/heads.py
index d16d494..e108527 100644
--- a/discodop/heads.py
+++ b/discodop/heads.py
@@ -47,7 +47,7 @@ def readheadrules(filename):
 	with io.open(filename, encoding='utf8') as inp:
 		for line in inp:
 			line = line.strip().upper()
-			if line and not line.startswith("%") and len(line.split()) > 2:
+			if line and not line.startswith("%") and len(line.split()) > 1:
 				try:
 					label, direction, heads = HEADRULERE.match(line).groups()
 				except AttributeError:
-- 
2.43.0


From 5da9ac42df25a4a5aac69350e29db86ce48e1708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:19 +0000
Subject: [PATCH 018/173] fix: match labels of constituents with head rules
 regardless of case

The rules are converted to upper case when read, and the labels of children
when matching them, but the label of the constituent was not, so that rules
for labels with lower case letters (e.g., Alpino) never applied.
---
 discodop/heads.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/heads.py b/discodop/heads.py
index e108527..656a80a 100644
--- a/discodop/heads.py
+++ b/discodop/heads.py
@@ -92,7 +92,7 @@ def headfinder(tree, headrules, headlabels=frozenset({'HD'})):
 	# apply heuristic rules:
 	head = None
 	children = tree
-	for direction, heads in headrules.get(tree.label, []):
+	for direction, heads in headrules.get(tree.label.upper(), []):
 		if direction.startswith('LEFT'):
 			children = tree
 		elif direction.startswith('RIGHT'):
@@ -153,7 +153,8 @@ def markmodifiers(tree, modifierrules):
 		if child.type == HEAD:
 			continue
 		child.type = COMPLEMENT
-		applicablerules = modifierrules.get(tree.label.split('-', 1)[0], []
+		applicablerules = modifierrules.get(
+				tree.label.split('-', 1)[0].upper(), []
 				) + modifierrules.get('*', [])
 		for mod in applicablerules:
 			if ((child.label.split('-', 1)[0].upper() == mod.split('-', 1)[0]
-- 
2.43.0


From f592e4413f46054742f243451a23e42402ede360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:19 +0000
Subject: [PATCH 019/173] fix: infer heads from binarization with a tail marker

The artificial node with the marker was marked as head, instead of the head
that it dominates, which was lost when that node was removed.
---
 discodop/heads.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discodop/heads.py b/discodop/heads.py
index 656a80a..f5b840b 100644
--- a/discodop/heads.py
+++ b/discodop/heads.py
@@ -172,8 +172,10 @@ def markmodifiers(tree, modifierrules):
 def saveheads(tree, tailmarker):
 	"""Infer head from binarization and store."""
 	if tailmarker:
-		for node in tree.subtrees(lambda n: tailmarker in n.label):
-			node.type = HEAD
+		# the marked node is artificial and dominates the head.
+		for node in tree.subtrees(lambda n: '|<' in n.label
+				and tailmarker in n.label[n.label.rindex('>'):]):
+			node[-1].type = HEAD
 	else:
 		# assume head-outward binarization; the last binarized node has the head.
 		for node in tree.subtrees(lambda n: '|<' in n.label
-- 
2.43.0


From e718dccccf5554c399b4fc7751aadd70e2f01d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:19 +0000
Subject: [PATCH 020/173] fix: do not count dependencies on the root in
 dependency length

The label of these dependencies is 'root', not 'ROOT'; there may also be more
than one.
---
 discodop/treebank.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 52931cc..c447e43 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -930,9 +930,8 @@ def deplen(deps):
 	"""Compute dependency length from result of ``dependencies()``.
 
 	:returns: tuple ``(totaldeplen, numdeps)``."""
-	total = sum(abs(a - b) for a, label, b in deps
-			if label != 'ROOT')
-	return (total, float(len(deps) - 1))  # discount ROOT
+	lengths = [abs(a - b) for a, _label, b in deps if b]  # discount root
+	return (sum(lengths), float(len(lengths)))
 
 
 def handlefunctions(action, tree, pos=True, root=False, morphology=None):
-- 
2.43.0


From ecd9ecfe0a90c7b6f6120387c901b58f5b365e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 021/173] fix: do not repeat elements in OrderedSet

---
 discodop/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/util.py b/discodop/util.py
index 917ebfb..d033ed8 100644
--- a/discodop/util.py
+++ b/discodop/util.py
@@ -154,7 +154,7 @@ class OrderedSet(Set):
 
 	def __init__(self, iterable=None):
 		if iterable:
-			self.seq = tuple(iterable)
+			self.seq = tuple(dict.fromkeys(iterable))
 			self.theset = frozenset(self.seq)
 		else:
 			self.seq = ()
-- 
2.43.0


From 1c21d5a5dad88296082f72eba138af7834a3f826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 022/173] fix: let slice_bounds() accept a step; slice objects
 are read-only

---
 discodop/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/util.py b/discodop/util.py
index d033ed8..ae60342 100644
--- a/discodop/util.py
+++ b/discodop/util.py
@@ -122,15 +122,15 @@ def slice_bounds(seq, slice_obj, allow_step=False):
 		If it does, then return a tuple (start, stop, step)."""
 	start, stop = (slice_obj.start, slice_obj.stop)
 	if allow_step:
-		slice_obj.step = 1 if slice_obj.step is None else slice_obj.step
+		step = 1 if slice_obj.step is None else slice_obj.step
 		# Use a recursive call without allow_step to find the slice
 		# bounds. If step is negative, then the roles of start and
 		# stop (in terms of default values, etc), are swapped.
-		if slice_obj.step < 0:
+		if step < 0:
 			start, stop, _ = slice_bounds(seq, slice(stop, start))
 		else:
 			start, stop, _ = slice_bounds(seq, slice(start, stop))
-		return start, stop, slice_obj.step
+		return start, stop, step
 	elif slice_obj.step not in (None, 1):
 		raise ValueError('slices with steps are not supported by %s' %
 				seq.__class__.__name__)
-- 
2.43.0


From 71f26742ba5ca69bfa7b883d69fc3eed89bff31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 023/173] fix: do not lose items with PyAgenda.peekitem()

---
 discodop/util.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/discodop/util.py b/discodop/util.py
index ae60342..dcf82c4 100644
--- a/discodop/util.py
+++ b/discodop/util.py
@@ -246,15 +246,11 @@ class PyAgenda:
 
 	def peekitem(self):
 		"""Get the current best (key, value) pair; keep it on the agenda."""
-		n = len(self.heap)
-		if n == 0:
+		while self.heap and self.heap[0].count == INVALID:
+			heappop(self.heap)
+		if not self.heap:
 			raise IndexError("peek at empty heap")
 		entry = self.heap[0]
-		while entry.count == 0:
-			if n == 1:
-				raise IndexError("peek at empty heap")
-			entry = heappop(self.heap)
-			n -= 1
 		return entry.key, entry.value
 
 	# standard dict() methods
-- 
2.43.0


From 523d72c65161704847e1f7d88f1d4cdd1d3f579d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 024/173] fix: reset length in PyAgenda.clear()

---
 discodop/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discodop/util.py b/discodop/util.py
index dcf82c4..5a1ae49 100644
--- a/discodop/util.py
+++ b/discodop/util.py
@@ -284,6 +284,7 @@ class PyAgenda:
 	def clear(self):
 		"""Remove all items from agenda."""
 		self.counter = 1
+		self.length = 0
 		del self.heap[:]
 		self.mapping.clear()
 
-- 
2.43.0


From 78af793d2ab5a188d7ff75717e4a076713591c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:48 +0000
Subject: [PATCH 025/173] fix: keep the order of equal items in PyAgenda after
 changes

---
 discodop/util.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/discodop/util.py b/discodop/util.py
index 5a1ae49..0202fea 100644
--- a/discodop/util.py
+++ b/discodop/util.py
@@ -194,9 +194,6 @@ class OrderedSet(Set):
 		return self._from_iterable(value for value in self if value in other)
 
 
-INVALID = 0
-
-
 class Entry(object):
 	"""A PyAgenda entry."""
 	def __init__(self, key, value, count):
@@ -216,8 +213,10 @@ class Entry(object):
 class PyAgenda:
 	"""Priority Queue implemented with array-based heap.
 
-	Implements decrease-key and remove operations by marking entries as
-	invalid. Provides dictionary-like interface.
+	Implements decrease-key and remove operations by leaving obsolete entries
+	in the heap; an entry is valid iff it is the one in the mapping. (Marking
+	entries by changing ``count`` would violate the heap property.)
+	Provides dictionary-like interface.
 
 	Can be initialized with an iterable; equivalent values are preserved in
 	insertion order and the best priorities are retained on duplicate keys."""
@@ -234,7 +233,6 @@ class PyAgenda:
 					oldentry = self.mapping[k]
 					if entry < oldentry:
 						entry.count = oldentry.count
-						oldentry.count = INVALID
 						self.mapping[k] = entry
 						self.heap.append(entry)
 				else:
@@ -244,9 +242,13 @@ class PyAgenda:
 			self.length = len(self.mapping)
 			heapify(self.heap)
 
+	def _isvalid(self, entry):
+		"""Test whether entry from heap is current."""
+		return self.mapping.get(entry.key) is entry
+
 	def peekitem(self):
 		"""Get the current best (key, value) pair; keep it on the agenda."""
-		while self.heap and self.heap[0].count == INVALID:
+		while self.heap and not self._isvalid(self.heap[0]):
 			heappop(self.heap)
 		if not self.heap:
 			raise IndexError("peek at empty heap")
@@ -259,7 +261,6 @@ class PyAgenda:
 		if key is None:
 			return self.popitem()[1]
 		entry = self.mapping.pop(key)
-		entry.count = INVALID
 		self.length -= 1
 		return entry.value
 
@@ -267,7 +268,7 @@ class PyAgenda:
 		""":returns: best scoring (key, value) pair; removed from agenda."""
 		entry = None
 		entry = heappop(self.heap)
-		while not entry.count:
+		while not self._isvalid(entry):
 			entry = heappop(self.heap)
 		del self.mapping[entry.key]
 		self.length -= 1
@@ -299,7 +300,6 @@ class PyAgenda:
 		if key in self.mapping:
 			oldentry = self.mapping[key]
 			entry.count = oldentry.count
-			oldentry.count = INVALID
 		else:
 			self.length += 1
 			self.counter += 1
@@ -308,13 +308,12 @@ class PyAgenda:
 
 	def __delitem__(self, key):
 		"""Remove key from heap."""
-		self.mapping[key].count = INVALID
-		self.length -= 1
 		del self.mapping[key]
+		self.length -= 1
 
 	def __repr__(self):
 		return '%s({%s})' % (self.__class__.__name__, ", ".join(
-				['%r: %r' % (a.key, a.value) for a in self.heap if a.count]))
+				['%r: %r' % (a.key, a.value) for a in self.heap if self._isvalid(a)]))
 
 	def __str__(self):
 		return self.__repr__()
-- 
2.43.0


From a96fef4ef5180bd46d01d2f53fe2a2d53cbd862e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:42 +0000
Subject: [PATCH 026/173] fix: count root nodes once for the weights of the DOP
 reduction

---
 discodop/grammar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index fca7136..5d5f4e1 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -805,7 +805,9 @@ def nodefreq(tree, dectree, subtreefd, nonterminalfd):
 	>>> fd == Counter({'S': 4, 'NP': 1, 'VP': 1, 'NP@1-0': 1, 'VP@1-1': 1})
 	True"""
 	nonterminalfd[tree.label] += 1
-	nonterminalfd[dectree.label] += 1
+	# NB: the root node receives no ID and should not be counted twice
+	if dectree.label != tree.label:
+		nonterminalfd[dectree.label] += 1
 	if isinstance(tree[0], Tree):
 		n = reduce(mul, (nodefreq(x, ux, subtreefd, nonterminalfd) + 1
 			for x, ux in zip(tree, dectree)))
-- 
2.43.0


From 5a13f72ebb8d17fcda95c1ef82c0ae10bff2c971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:05 +0000
Subject: [PATCH 027/173] fix: distinguish discontinuous trees in which words
 are in another order

---
 discodop/tree.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 27b770a..17a743a 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -974,11 +974,14 @@ class DiscTree(ImmutableTree):
 	def __eq__(self, other):
 		"""Test whether two discontinuous trees are equivalent.
 
-		Assumes canonicalized() ordering."""
+		Nodes, words, and the relative positions of the words should be equal,
+		but indices may be different. Assumes canonicalized() ordering."""
 		if not isinstance(other, Tree):
 			return False
 		if self.label != other.label or len(self) != len(other):
 			return False
+		if _relativepositions(self) != _relativepositions(other):
+			return False
 		for a, b in zip(self.children, other.children):
 			istree = isinstance(a, Tree)
 			if istree != isinstance(b, Tree):
@@ -999,6 +1002,18 @@ class DiscTree(ImmutableTree):
 				super().__repr__(), self.sent)
 
 
+def _relativepositions(tree):
+	"""Return indices of tree renumbered such that any gap has size one."""
+	leaves = tree.leaves()
+	mapping, new = {}, 0
+	for n, idx in enumerate(sorted(leaves)):
+		if idx - 1 not in mapping and n:
+			new += 1
+		mapping[idx] = new
+		new += 1
+	return [mapping[idx] for idx in leaves]
+
+
 class DrawTree(object):
 	"""Visualize a discontinuous tree in various formats.
 
-- 
2.43.0


From cb7aeeb5d9c6d2a5a1e8cdb5467da4b4695576ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:29 +0000
Subject: [PATCH 028/173] fix: recognize all weights in grammar files, and only
 weights

---
 discodop/grammar.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index 5d5f4e1..4a47610 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -13,10 +13,15 @@ from .treebank import LEAVESRE
 from .util import openread, merge as utilmerge
 from functools import reduce  # pylint: disable=redefined-builtin
 
+# a decimal or hexadecimal number
+NUMBER = (r'[-+]?(?:0x[0-9a-f.]+p[-+]?[0-9]+'
+		r'|(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:e[-+]?[0-9]+)?)')
+# PLCFRS: rule, yield function, weight; or bitpar: weight, rule
 RULERE = re.compile(
-		r'(?P<RULE1>(?P<LHS1>[^ \t]+).*)\t'
-		r'(?P<WEIGHT1>(?P<FREQ1>[-.e0-9]+)(?:\/[0-9]+)?)$'
-		r'|(?P<FREQ2>[-.e0-9]+)\t(?P<RULE2>(?P<LHS2>[^ \t]+).*)$')
+		r'(?P<RULE1>(?P<LHS1>[^ \t]+)\t.*\t[0-9,]+)\t'
+		r'(?P<WEIGHT1>(?P<FREQ1>%s)(?:\/%s)?)$'
+		r'|(?P<FREQ2>%s)\t(?P<RULE2>(?P<LHS2>[^ \t]+).*)$' % (
+		(NUMBER, ) * 3))
 FRONTIERORTERM = re.compile(r"\(([^ ]+) (([0-9]+)=([^ ()]*)(?: [0-9]+=)*)\)")
 REMOVEDEC = re.compile('[@[][^ ()]+')
 
-- 
2.43.0


From a366acc9462440372804f48c5328c5f142efe3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:29 +0000
Subject: [PATCH 029/173] fix: sumrules() gave the sum of weights of a rule to
 the next rule

---
 discodop/grammar.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index 4a47610..c461fb0 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -1214,25 +1214,21 @@ def sumrules(iterable, n):
 	"""Given a sorted iterable of rules, sum weights of identical rules."""
 	prev = None
 	w1 = 0.0
+	bitpar = False
 	for line in iterable:
 		match = RULERE.match(line)
 		rule = match.group('RULE1') or match.group('RULE2')
 		if rule != prev:
 			if prev is not None:
-				if match.group('RULE1') is None:
-					yield '%g\t%s\n' % (w1 / n, rule)
-				else:
-					yield '%s\t%g\n' % (rule, w1 / n)
+				yield (('%g\t%s\n' % (w1 / n, prev)) if bitpar
+						else ('%s\t%g\n' % (prev, w1 / n)))
 			prev = rule
 			w1 = 0.0
-		if match.group('RULE1') is None:
-			w1 += convertweight(match.group('FREQ2'))
-		else:
-			w1 += convertweight(match.group('WEIGHT1'))
-	if match.group('RULE1') is None:
-		yield '%g\t%s\n' % (w1 / n, rule)
-	else:
-		yield '%s\t%g\n' % (rule, w1 / n)
+		bitpar = match.group('RULE1') is None
+		w1 += convertweight(match.group('FREQ2' if bitpar else 'WEIGHT1'))
+	if prev is not None:
+		yield (('%g\t%s\n' % (w1 / n, prev)) if bitpar
+				else ('%s\t%g\n' % (prev, w1 / n)))
 
 
 def sumlex(iterable, n):
-- 
2.43.0


From 5cfa843e5145a7ae7f4dcba04f021b3d3ce0f750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:29 +0000
Subject: [PATCH 030/173] fix: merge grammars that are only sorted by LHS

---
 discodop/grammar.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index c461fb0..03feba8 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -1270,11 +1270,15 @@ def sumfrags(iterable, n):
 
 def merge(filenames, outfilename, sumfunc, key):
 	"""Interpolate weights of given files."""
-	openfiles = [iter(openread(filename)) for filename in filenames]
+	# the files of a grammar are not sorted by key; e.g., only by LHS
+	contents = []
+	for filename in filenames:
+		with openread(filename) as inp:
+			contents.append(sorted(inp, key=key))
 	with codecs.getwriter('utf8')((gzip.open if outfilename.endswith('.gz')
 			else open)(outfilename, 'wb')) as out:
 		out.writelines(sumfunc(
-				utilmerge(*openfiles, key=key), len(openfiles)))
+				utilmerge(*contents, key=key), len(contents)))
 
 
 def addindices(frag):
-- 
2.43.0


From eac24cdf5be9195302e870f65e12d1581312a8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:29 +0000
Subject: [PATCH 031/173] fix: merge lexicons with words that contain white
 space

---
 discodop/cli.py     | 2 +-
 discodop/grammar.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index d0c573f..cef1c4b 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -429,7 +429,7 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 		if args[1] == 'rules':
 			merge(args[2:-1], args[-1], sumrules, stripweight)
 		elif args[1] == 'lexicon':
-			merge(args[2:-1], args[-1], sumlex, lambda x: x.split(None, 1)[0])
+			merge(args[2:-1], args[-1], sumlex, lambda x: x.split('\t', 1)[0])
 		elif args[1] == 'fragments':
 			merge(args[2:-1], args[-1], sumfrags, lambda x: x.rsplit('\t', 1)[0])
 		return
diff --git a/discodop/grammar.py b/discodop/grammar.py
index 03feba8..b3cbaa2 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -1235,7 +1235,7 @@ def sumlex(iterable, n):
 	"""Given a sorted lexicon iterable, sum weights of word/tag pairs."""
 	prev = tags = None
 	for line in iterable:
-		word, rest = line.split(None, 1)
+		word, rest = line.split('\t', 1)
 		rest = rest.split()
 		if word != prev:
 			if tags:
-- 
2.43.0


From 00d227c8002412e2657dc049c999ef635f70f4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:29 +0000
Subject: [PATCH 032/173] fix: grammarstats() for text files and with
 non-integral weights

---
 discodop/grammar.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index b3cbaa2..81fc7a3 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -1162,16 +1162,17 @@ def grammarstats(filename):
 	"""Print statistics for PLCFRS/bitpar grammar (sorted by LHS)."""
 	print('LHS\t# rules\tfreq. mass')
 	label = cnt = freq = None
-	for line in codecs.getreader('utf8')((gzip.open if filename.endswith('.gz')
-			else open)(filename)):
+	with openread(filename) as inp:
+		lines = inp.readlines()
+	for line in lines:
 		match = RULERE.match(line)
 		if (match.group('LHS1') or match.group('LHS2')) != label:
 			if label is not None:
-				print('%s\t%d\t%d' % (label, int(cnt), int(freq)))
+				print('%s\t%d\t%g' % (label, cnt, freq))
 			cnt = freq = 0
 			label = (match.group('LHS1') or match.group('LHS2'))
 		cnt += 1
-		freq += float((match.group('FREQ1') or match.group('FREQ2')))
+		freq += convertweight(match.group('FREQ1') or match.group('FREQ2'))
 	if label is not None:
 		print('%s\t%d\t%g' % (label, cnt, freq))
 
-- 
2.43.0


From 22486cf35260084a0ec672963d28399fbe7efd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:52 +0000
Subject: [PATCH 033/173] fix: addindices() of fragments with frontier
 non-terminals

---
 discodop/grammar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index 81fc7a3..d2be57b 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -1285,7 +1285,8 @@ def merge(filenames, outfilename, sumfunc, key):
 def addindices(frag):
 	"""Convert fragment in bracket to discbracket format."""
 	cnt = count()
-	return LEAVESRE.sub(lambda m: ' %d=%s' % (next(cnt), m.group(1)), frag)
+	return LEAVESRE.sub(lambda m: ' %d=%s' % (next(cnt), m.group(1) or ''),
+			frag)
 
 
 __all__ = ['lcfrsproductions', 'treebankgrammar', 'dopreduction', 'doubledop',
-- 
2.43.0


From a0830fcb48777efd3197cdc78cc6475f8d598089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:26 +0000
Subject: [PATCH 034/173] fix: arguments and files of the gen command

---
 discodop/gen.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/discodop/gen.py b/discodop/gen.py
index 8e8a213..c0c0894 100644
--- a/discodop/gen.py
+++ b/discodop/gen.py
@@ -2,16 +2,15 @@
 
 Reads grammar from a text file."""
 import sys
-import gzip
-import codecs
 from collections import namedtuple, defaultdict
 from array import array
 from random import random
+from .util import openread
 
 SHORTUSAGE = '''Generate random sentences with a PLCFRS or PCFG.
 Reads grammar from a text file in PLCFRS or bitpar format.
-Usage: %(cmd)s [--verbose] <rules> <lexicon>
-or: %(cmd)s --test
+Usage: %(cmd)s gen [-s START] [--verbose] <rules> <lexicon>
+or: %(cmd)s gen --test
 
 Grammar is assumed to be in UTF-8; may be gzip'ed (.gz extension).
 ''' % dict(cmd=sys.argv[0])
@@ -244,24 +243,26 @@ def test():
 
 def main():
 	"""Load a grammar from a text file and generate 20 sentences."""
-	if "--test" in sys.argv:
+	args = sys.argv[2:]
+	if "--test" in args:
 		test()
 		return
 	start = "ROOT"
-	if "-s" in sys.argv:
-		i = sys.argv.index("-s")
-		start = sys.argv.pop(i + 1)
-		sys.argv[i:i + 2] = []
-	verbose = "--verbose" in sys.argv
+	if "-s" in args:
+		i = args.index("-s")
+		start = args.pop(i + 1)
+		args.pop(i)
+	verbose = "--verbose" in args
 	if verbose:
-		sys.argv.remove('--verbose')
-	if len(sys.argv) != 3:
-		print("incorrect number of arguments:", sys.argv[1:], file=sys.stderr)
+		args.remove('--verbose')
+	if len(args) != 2:
+		print("incorrect number of arguments:", args, file=sys.stderr)
 		print(SHORTUSAGE)
 		sys.exit(2)
-	rules = (gzip.open if sys.argv[1].endswith(".gz") else open)(sys.argv[1])
-	lexicon = codecs.getreader('utf-8')((gzip.open
-			if sys.argv[2].endswith(".gz") else open)(sys.argv[2]))
+	with openread(args[0]) as inp:
+		rules = inp.readlines()
+	with openread(args[1]) as inp:
+		lexicon = inp.readlines()
 	try:
 		xgrammar = read_lcfrs_grammar(rules, lexicon)
 	except ValueError:
-- 
2.43.0


From 7a38f70288dcb1185b979929c82369ab2827dc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:26 +0000
Subject: [PATCH 035/173] fix: read_bitpar_grammar() lost the lexicon

---
 discodop/gen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/gen.py b/discodop/gen.py
index c0c0894..aa74865 100644
--- a/discodop/gen.py
+++ b/discodop/gen.py
@@ -135,13 +135,13 @@ def read_bitpar_grammar(rules, lexicon):
 		a = a.split()
 		word = a[0]
 		tags, weights = a[1::2], a[2::2]
-		weights = map(float, weights)
+		weights = list(map(float, weights))
 		if integralweights:
 			if all(int(w) == w for w in weights):
-				weights = map(int, weights)
+				weights = list(map(int, weights))
 			else:
 				integralweights = False
-		tags = zip(tags, weights)
+		tags = list(zip(tags, weights))
 		for t, p in tags:
 			ntfd[t] += p
 		grammar.extend((((t, 'Epsilon'), (word,)), p) for t, p in tags)
-- 
2.43.0


From c749113c227e643dc8ee4fe457a1ef0fabb07676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:26 +0000
Subject: [PATCH 036/173] fix: generate words with labels which also have
 phrasal rules

---
 discodop/gen.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/discodop/gen.py b/discodop/gen.py
index aa74865..f8c6b51 100644
--- a/discodop/gen.py
+++ b/discodop/gen.py
@@ -33,10 +33,11 @@ def gen(grammar, start=1, discount=0.75, prodcounts=None, verbose=False):
 	"""
 	if prodcounts is None:
 		prodcounts = [1] * grammar.numrules
-	if not grammar.bylhs[start]:
-		terminal = chooserule(grammar.lexicalbylhs[start], discount, prodcounts)
-		return (terminal.prob, [[terminal.word]])
-	rule = chooserule(grammar.bylhs[start], discount, prodcounts)
+	# NB: a label may occur both as phrasal label and as POS tag
+	rule = chooserule(grammar.bylhs[start]
+			+ grammar.lexicalbylhs.get(start, []), discount, prodcounts)
+	if isinstance(rule, LexicalRule):
+		return (rule.prob, [[rule.word]])
 	prodcounts[rule.no] += 1
 	p1, l1 = gen(grammar, rule.rhs1, discount, prodcounts, verbose)
 	assert l1
-- 
2.43.0


From a366d66e0786444abae3f50ea13527f303bbabda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:26 +0000
Subject: [PATCH 037/173] fix: rounding error when choosing a rule to generate
 a sentence

---
 discodop/gen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discodop/gen.py b/discodop/gen.py
index f8c6b51..592326c 100644
--- a/discodop/gen.py
+++ b/discodop/gen.py
@@ -64,7 +64,9 @@ def chooserule(rules, discount, prodcounts):
 		position -= w
 		if position < 0:
 			return r
-	raise ValueError('random selection out of range.')
+	if not rules:
+		raise ValueError('random selection out of range.')
+	return rules[-1]  # position was not exact due to rounding
 
 
 def compose(rule, left, right, verbose):
-- 
2.43.0


From 8f74efa624018996cbbcd05b8b95debcccce1193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 038/173] fix: normalize weights of grammar used to generate
 sentences

---
 discodop/gen.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/discodop/gen.py b/discodop/gen.py
index 592326c..203e6a6 100644
--- a/discodop/gen.py
+++ b/discodop/gen.py
@@ -99,7 +99,9 @@ def parsefrac(a):
 
 
 def read_lcfrs_grammar(rules, lexicon):
-	"""Read a grammar produced by grammar.writegrammar from two file objects."""
+	"""Read a grammar produced by grammar.writegrammar from two file objects.
+
+	Weights are treated as (pseudo)counts and normalized."""
 	rules = (a.strip().split('\t') for a in rules)
 	grammar = [((tuple(a[:-2]), tuple(tuple(map(int, b))
 			for b in a[-2].split(","))), parsefrac(a[-1])) for a in rules]
@@ -107,7 +109,10 @@ def read_lcfrs_grammar(rules, lexicon):
 	grammar += [(((t, 'Epsilon'), (lexentry[0],)), parsefrac(p))
 			for lexentry in (a.strip().split() for a in lexicon)
 			for t, p in zip(lexentry[1::2], lexentry[2::2])]
-	return grammar
+	ntfd = defaultdict(float)
+	for (rule, _), p in grammar:
+		ntfd[rule[0]] += p
+	return [((rule, yf), p / ntfd[rule[0]]) for (rule, yf), p in grammar]
 
 
 def read_bitpar_grammar(rules, lexicon):
-- 
2.43.0


From d12b5a726aa3539b23e6bff51193a014b2cdfcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:59 +0000
Subject: [PATCH 039/173] fix: draw trees with words as leaves or empty nodes

---
 discodop/tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 17a743a..946c6fa 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1083,7 +1083,7 @@ class DrawTree(object):
 				self.tree = Tree.parse(tree, parse_leaf=int)
 		if sent is None:
 			leaves = self.tree.leaves()
-			if (leaves and all(self.tree.subtrees())
+			if (leaves and all(len(a) for a in self.tree.subtrees())
 					and all(isinstance(a, int) for a in leaves)):
 				self.sent = ['%d' % a for a in leaves]
 			else:
@@ -1092,7 +1092,7 @@ class DrawTree(object):
 				self.tree = self.tree.copy(True)
 				self.sent = []
 				for a in self.tree.subtrees():
-					if a:
+					if len(a) == 0:
 						a.append(len(self.sent))
 						self.sent.append(None)
 					elif any(not isinstance(b, Tree) for b in a):
-- 
2.43.0


From ab93d49aae263115b31750c329a099ac89a993a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 040/173] fix: words in tikzqtree() output

---
 discodop/tree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 946c6fa..d936e72 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1784,7 +1784,12 @@ class DrawTree(object):
 		"""
 		reserved_chars = re.compile('([#$%&~_{}])')
 
-		pprint = self.tree.pprint(indent=6, brackets=('[.', ' ]'))
+		tree = Tree.convert(self.tree)
+		for node in tree.subtrees():
+			node[:] = [a if isinstance(a, Tree) else
+					'...' if self.sent[a] is None else self.sent[a]
+					for a in node]
+		pprint = tree.pprint(indent=6, brackets=('[.', ' ]'))
 		escaped = re.sub(reserved_chars, r'\\\1', pprint)
 		return '\n'.join([
 			'% ' + writebrackettree(self.tree, self.sent).rstrip(),
-- 
2.43.0


From e889ae8b1e649aacd69f4568fc8f95e634b2338f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 041/173] fix: escape function tags in svg()

---
 discodop/tree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index d936e72..29e22f7 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1432,8 +1432,9 @@ class DrawTree(object):
 					color, htmlescape(cat)))
 			if func:
 				result[-1] += '%s<tspan style="fill: %s; ">%s</tspan>' % (
-							funcsep, funccolor if n in self.highlightfunc
-							else 'black', func)
+							htmlescape(funcsep),
+							funccolor if n in self.highlightfunc
+							else 'black', htmlescape(func))
 			result[-1] += '</text>'
 		result += ['</svg>']
 		return '\n'.join(result)
-- 
2.43.0


From fff63a215d77714f4ce4ce2e7f34750d149a5e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:34 +0000
Subject: [PATCH 042/173] fix: draw trees without limit on width of labels

---
 discodop/tree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 29e22f7..d7cb021 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1583,8 +1583,9 @@ class DrawTree(object):
 		maxchildcol = {}
 		childcols = defaultdict(set)
 		labels = {}
-		wrapre = re.compile('(.{%d,%d}\\b\\W*|.{%d})' % (
-				maxwidth - 4, maxwidth, maxwidth))
+		if maxwidth:
+			wrapre = re.compile('(.{%d,%d}\\b\\W*|.{%d})' % (
+					maxwidth - 4, maxwidth, maxwidth))
 		# collect labels and coordinates
 		for a in self.nodes:
 			row, column = self.coords[a]
-- 
2.43.0


From 85a6bb64ab7521bd201192045b266c9bba59a096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 043/173] fix: draw words and empty nodes in their order

---
 discodop/tree.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index d7cb021..256227f 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1091,15 +1091,14 @@ class DrawTree(object):
 				# and multiple/mixed terminals under non-terminals.
 				self.tree = self.tree.copy(True)
 				self.sent = []
-				for a in self.tree.subtrees():
-					if len(a) == 0:
+				for pos in self.tree.treepositions():
+					a = self.tree[pos]
+					if not isinstance(a, Tree):
+						self.tree[pos] = len(self.sent)
+						self.sent.append('%s' % a)
+					elif len(a) == 0:
 						a.append(len(self.sent))
 						self.sent.append(None)
-					elif any(not isinstance(b, Tree) for b in a):
-						for n, b in enumerate(a):
-							if not isinstance(b, Tree):
-								a[n] = len(self.sent)
-								self.sent.append('%s' % b)
 		if abbr:
 			if self.tree is tree:
 				self.tree = self.tree.copy(True)
-- 
2.43.0


From b4ad4caaa21101930562d3c5a1f37914979c5913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 044/173] fix: draw brackets with function tags highlighted

---
 discodop/tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 256227f..f70ee89 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1558,7 +1558,8 @@ class DrawTree(object):
 				else:
 					newtext.append('')
 				if func or (funcsep and line.endswith(funcsep)
-						and isinstance(node, Tree)):
+						and isinstance(node, Tree)
+						and node.label not in PTBPUNC):
 					if not seensep:
 						newtext[-1] += funcsep
 						seensep = True
-- 
2.43.0


From 038654fe2794f839b88befa4ba70c1f798007541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:48 +0000
Subject: [PATCH 045/173] fix: overlapping branches in drawings of trees

---
 discodop/tree.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index f70ee89..5722ca3 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1177,7 +1177,10 @@ class DrawTree(object):
 							else None for a in matrix[-1]])
 				row = matrix[rowidx]
 				i = j = center
-				if len(children[m]) == 1:  # place unaries directly above child
+				if any(minidx <= b and a <= maxidx
+						for a, b in branches[rowidx]):
+					continue
+				elif len(children[m]) == 1:  # place unaries directly above child
 					return rowidx, next(iter(children[m]))[1]
 				elif all(a is None or a == vertline for a
 						in row[min(candidates):max(candidates) + 1]):
@@ -1227,6 +1230,7 @@ class DrawTree(object):
 		maxdepth = max(map(len, positions)) + 1
 		childcols = defaultdict(set)
 		matrix = [[None] * (len(sent) * scale)]
+		branches = defaultdict(list)  # horizontal lines on each row
 		nodes = {}
 		ids = {a: n for n, a in enumerate(positions)}
 		self.highlight = {n for a, n in ids.items()
@@ -1284,6 +1288,8 @@ class DrawTree(object):
 				# block positions where children of this node branch out
 				for _, x in childcols[m]:
 					matrix[rowidx][x] = corner
+				cols = [i] + [x for _, x in childcols[m]]
+				branches[rowidx].append((min(cols), max(cols)))
 				# assert m == () or matrix[rowidx][i] in (None, corner), (
 				# 		matrix[rowidx][i], m, str(tree), ' '.join(sent))
 				# node itself
-- 
2.43.0


From f51ed978a596d97cad83f033d9ccf91ae5ab4795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:57 +0000
Subject: [PATCH 046/173] fix: draw trees in which a node only fits above its
 child

---
 discodop/tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/tree.py b/discodop/tree.py
index 5722ca3..025dab0 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1196,6 +1196,8 @@ class DrawTree(object):
 								return rowidx, j
 							i += scale
 							j -= scale
+					# all other columns in use; place above first child
+					return rowidx, minidx
 			raise ValueError('could not find a free cell for:\n%s\n%s'
 					'min=%d; max=%d' % (tree[m], dumpmatrix(), minidx, maxidx))
 
-- 
2.43.0


From 27b83c34fd95903e920b06f9980a984fbea7112d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:12 +0000
Subject: [PATCH 047/173] fix: evaluation of different trees with same
 leaf-ancestor paths

---
 discodop/eval.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index 5719589..c9a6422 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -396,8 +396,6 @@ class TreePairResult(object):
 		if self.param['DEP']:
 			self.cdep = dependencies(self.ctree)
 			self.gdep = dependencies(self.gtree)
-		assert self.lascore != 1 or self.gbrack == self.cbrack, (
-				'leaf ancestor score 1.0 but no exact match: (bug?)')
 		self.pgbrack = parentedbracketings(self.gtree, labeled=True,
 				dellabel=self.param['DELETE_LABEL'],
 				disconly=self.param['DISC_ONLY'])
-- 
2.43.0


From e9e178e61cb87c20725a697c350d04bf2325eb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:12 +0000
Subject: [PATCH 048/173] fix: align equivalent words and tokens below root in
 evaluation

---
 discodop/eval.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index c9a6422..d1a5b47 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -350,12 +350,21 @@ class TreePairResult(object):
 				if b not in self.param['DELETE_LABEL_FOR_LENGTH'])
 		grootpos = {child[0] for child in gtree
 				if child and isinstance(child[0], int)}
+		# map indices of candidate to those of gold sentence
+		eqword = self.param['EQ_WORD']
+		align = alignsent([eqword.get(a, a) for a in self.csent],
+				[eqword.get(a, a) for a in self.gsent],
+				range(len(self.gsent)))
+		if len(align) != len(self.csent):
+			raise ValueError('candidate & gold sentences do not match:\n'
+					'%r // %r' % (' '.join(csent), ' '.join(gsent)))
+		gpos = dict(self.gpos)
 		# massage the data (in-place modifications)
 		self.ctree = transform(ctree, self.csent, self.cpos,
-				alignsent(self.csent, self.gsent, dict(self.gpos)),
-				self.param, grootpos)
+				{n: gpos[m] for n, m in align.items()},
+				self.param, {n for n, m in align.items() if m in grootpos})
 		self.gtree = transform(gtree, self.gsent, self.gpos,
-				dict(self.gpos), self.param, grootpos)
+				gpos, self.param, grootpos)
 		if len(self.csent) != len(self.gsent):
 			raise ValueError('sentence length mismatch. sents:\n%s\n%s' % (
 					' '.join(self.csent), ' '.join(self.gsent)))
-- 
2.43.0


From 67f19963444ca4db1f3cf131d8a5dbda2fcc78d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 049/173] fix: summary of evaluation without length cutoff

---
 discodop/eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index d1a5b47..aa4e04f 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -244,7 +244,7 @@ class Evaluator(object):
 		gdiscbrackets = sum(1 for _, (_, a) in acc.goldb.elements()
 				if bitfanout(a) > 1)
 
-		if acc.maxlenseen <= self.param['CUTOFF_LEN']:
+		if acc40 is None or acc.maxlenseen <= self.param['CUTOFF_LEN']:
 			msg = ['%s' % ' Summary (ALL) '.center(35, '_'),
 				'number of sentences:       %6d' % (acc.sentcount),
 				'longest sentence:          %6d' % (acc.maxlenseen)]
-- 
2.43.0


From 7bc1e1de941e7e8fa87334283e72bb74c3fa5761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:40 +0000
Subject: [PATCH 050/173] fix: table of categories without gold brackets

---
 discodop/eval.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index aa4e04f..c151cd5 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -150,9 +150,10 @@ class Evaluator(object):
 			if cat is None:
 				print(39 * ' ', end='')
 			else:
-				print('%s  %6.2f  %s  %s  %s' % (
+				print('%s  %s  %s  %s  %s' % (
 					cat.rjust(7),
-					100 * sum(acc.goldbcat[cat].values()) / len(acc.goldb),
+					nozerodiv(lambda: sum(acc.goldbcat[cat].values())
+							/ len(acc.goldb)),
 					nozerodiv(lambda: recall(
 							acc.goldbcat[cat], acc.candbcat[cat])),
 					nozerodiv(lambda: precision(
-- 
2.43.0


From be241c195e2fce5bddef0ea151e3217d003e1490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:40 +0000
Subject: [PATCH 051/173] fix: count all brackets with same label and span in
 summary

---
 discodop/eval.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index c151cd5..15c25b7 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -153,7 +153,7 @@ class Evaluator(object):
 				print('%s  %s  %s  %s  %s' % (
 					cat.rjust(7),
 					nozerodiv(lambda: sum(acc.goldbcat[cat].values())
-							/ len(acc.goldb)),
+							/ sum(acc.goldb.values())),
 					nozerodiv(lambda: recall(
 							acc.goldbcat[cat], acc.candbcat[cat])),
 					nozerodiv(lambda: precision(
@@ -189,7 +189,7 @@ class Evaluator(object):
 				print('%s  %s  %s  %s  %s' % (
 					cat.rjust(7),
 					nozerodiv(lambda: sum(acc.goldbfunc[cat].values())
-							/ len(acc.goldfun)),
+							/ sum(acc.goldfun.values())),
 					nozerodiv(lambda: recall(
 							acc.goldbfunc[cat], acc.candbfunc[cat])),
 					nozerodiv(lambda: precision(
@@ -251,12 +251,12 @@ class Evaluator(object):
 				'longest sentence:          %6d' % (acc.maxlenseen)]
 			if gdiscbrackets or discbrackets:
 				msg.extend(['gold brackets (disc.):     %6d (%d)' % (
-							len(acc.goldb), gdiscbrackets),
+							sum(acc.goldb.values()), gdiscbrackets),
 						'cand. brackets (disc.):    %6d (%d)' % (
-							len(acc.candb), discbrackets)])
+							sum(acc.candb.values()), discbrackets)])
 			else:
-				msg.extend(['gold brackets:             %6d' % len(acc.goldb),
-					'cand. brackets:            %6d' % len(acc.candb)])
+				msg.extend(['gold brackets:             %6d' % sum(acc.goldb.values()),
+					'cand. brackets:            %6d' % sum(acc.candb.values())])
 			msg.extend([
 					'labeled recall:            %s' % (
 						nozerodiv(lambda: recall(acc.goldb, acc.candb))),
@@ -293,9 +293,9 @@ class Evaluator(object):
 			'longest sentence:          %6d     %6d' % (
 					acc40.maxlenseen, acc.maxlenseen),
 			'gold brackets:             %6d     %6d' % (
-					len(acc40.goldb), len(acc.goldb)),
+					sum(acc40.goldb.values()), sum(acc.goldb.values())),
 			'cand. brackets:            %6d     %6d' % (
-					len(acc40.candb), len(acc.candb))]
+					sum(acc40.candb.values()), sum(acc.candb.values()))]
 		if gdiscbrackets or discbrackets:
 			msg.extend(['disc. gold brackets:       %6d     %6d' % (
 					gdiscbrackets40, gdiscbrackets),
-- 
2.43.0


From b6f44a85b529947643c34e1aef8c2442d11c76bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:57 +0000
Subject: [PATCH 052/173] fix: leaf-ancestor and tree distance with sentences
 of only punctuation

---
 discodop/eval.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index 15c25b7..02be5f7 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -9,6 +9,7 @@ distance, unlabeled dependencies), as well as facilities for error analysis.
 # pylint: disable=cell-var-from-loop
 import io
 import sys
+from math import isnan
 from getopt import gnu_getopt, GetoptError
 from decimal import Decimal, InvalidOperation
 from collections import defaultdict, Counter  # == multiset
@@ -573,9 +574,9 @@ class EvalAccumulator(object):
 		self.candpos.extend(pair.cpos)
 		self.goldfun.update((pair.n, a) for a in pair.goldfun.elements())
 		self.candfun.update((pair.n, a) for a in pair.candfun.elements())
-		if pair.lascore is not None:
+		if not isnan(pair.lascore):
 			self.lascores.append(pair.lascore)
-		if pair.ted is not None:
+		if not isnan(pair.ted):
 			self.dicenoms += pair.ted
 			self.dicedenoms += pair.denom
 		if pair.gdep is not None:
-- 
2.43.0


From ab81184ea8d713eab4842666b785e338151cdeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:24 +0000
Subject: [PATCH 053/173] fix: equivalent labels of root nodes in evaluation

---
 discodop/eval.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/eval.py b/discodop/eval.py
index 02be5f7..62d4b5e 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -784,6 +784,8 @@ def transform(tree, sent, pos, gpos, param, grootpos):
 	:returns: an immutable, transformed copy of ``tree``."""
 	leaves = list(range(len(sent)))
 	posnodes = []
+	if tree.label not in param['DELETE_LABEL']:
+		tree.label = param['EQ_LABEL'].get(tree.label, tree.label)
 	for a in reversed(list(tree.subtrees(
 			lambda n: n and isinstance(n[0], Tree)))):
 		for n, b in list(zip(count(), a))[::-1]:
-- 
2.43.0


From ea04a94d1a8bc582ab90be954f3a5bddbf87f9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:58 +0000
Subject: [PATCH 054/173] fix: SBAR transform and its reverse moved children
 without detaching them

---
 discodop/treebanktransforms.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index af597be..70b7db9 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -316,7 +316,9 @@ def negratransforms(name, tree, sent):
 		for s in list(tree.subtrees(lambda n: n.label == 'S'
 				and function(n[0]) in sbarfunc and len(n) > 1)):
 			s.label = 'SBAR'
-			s[:] = [s[0], ParentedTree('S', s[1:])]
+			rest = s[1:]
+			s[1:] = []
+			s.append(ParentedTree('S', rest))
 	elif name == 'NEST':  # introduce nested structures for modifiers
 		# (iterated adjunction instead of sister adjunction)
 		adjunctable = {'NP'}  # PP AP VP
@@ -1195,10 +1197,10 @@ def reversetransform(tree, sent, transformations):
 					or (n.label == 'S' and len(n) == 2
 						and labels(n) == ['PTKANT', 'S']))):
 				sbar.label = 'S'
-				if sbar[0].label == 'S':
-					sbar[:] = sbar[1:] + sbar[0][:]
-				else:
-					sbar[:] = sbar[:1] + sbar[1][:]
+				for n, child in enumerate(sbar):
+					if child.label == 'S':
+						child[:], sbar[n:n + 1] = [], child[:]
+						break
 		elif name == 'VP-FIN_NEGRA':
 			def mergevp(s):
 				"""Merge finite VP with S level."""
-- 
2.43.0


From 70f7703ea8a0619332d8a53cf12182df7df75655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 055/173] fix: NEST transform and its reverse moved children
 without detaching them

---
 discodop/treebanktransforms.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 70b7db9..48cf7ad 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -327,10 +327,11 @@ def negratransforms(name, tree, sent):
 			modifiers = [x for x in a if function(x) == 'MO']
 			if min(n for n, x in enumerate(a) if function(x) == 'MO') == 0:
 				modifiers[:] = modifiers[::-1]
-			while modifiers:
+			while modifiers and len(a) > 1:
 				modifier = modifiers.pop()
-				a[:] = [ParentedTree(a.label,
-						[x for x in a if x != modifier]), modifier]
+				rest = [x for x in a if x is not modifier]
+				a[:] = [modifier]
+				a.insert(0, ParentedTree(a.label, rest))
 				a = a[0]
 	# The following transformations as described in Fraser et al (CL, 2013)
 	# http://aclweb.org/anthology/J13-1005
@@ -1180,12 +1181,12 @@ def reversetransform(tree, sent, transformations):
 					'CNP', 'PWAT', 'PDS', 'VP', 'CS', 'CARD', 'ART', 'PWS',
 					'PPER'}
 			probably_nk = {'AP', 'PIS'} | nkonly
-			for n in tree.subtrees():
+			for n in list(tree.postorder()):
 				if (len(n) == 2 and n.label == 'NP'
 						and [x.label for x in n].count('NP') == 1
 						and not set(labels(n)) & probably_nk):
 					n.children.sort(key=lambda n: n.label == 'NP')
-					n[:] = n[:1] + n[1][:]
+					n[1][:], n[1:] = [], n[1][:]
 		elif name == 'PP-NP':  # flatten PPs
 			for pp in tree.subtrees(lambda n: n.label == 'PP'):
 				if 'NP' in labels(pp) and 'NN' not in labels(pp):
-- 
2.43.0


From 70049df098fbd3ba1eaf173f1f756ed963884ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 056/173] fix: POS-PART transform and its reverse moved
 children without detaching them

---
 discodop/treebanktransforms.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 48cf7ad..2a2b566 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -296,18 +296,19 @@ def negratransforms(name, tree, sent):
 		for a in toplevel_s:
 			finitevp(a)
 	elif name == 'POS-PART':  # introduce POS tag for particle verbs
-		for a in tree.subtrees(
-				lambda n: any(function(x) == 'SVP' for x in n)):
+		for a in list(tree.subtrees(lambda n: any(isinstance(x, Tree)
+				and function(x) == 'SVP' for x in n))):
 			svp = [x for x in a if function(x) == 'SVP'].pop()
 			# apparently there can be a _verb_ particle without a verb.
 			# headlines? annotation mistake?
 			if any(isinstance(x, Tree) and x.type == HEAD for x in a):
 				hd = [x for x in a
 						if isinstance(x, Tree) and x.type == HEAD].pop()
-				if hd.label != a.label:
-					particleverb = ParentedTree(hd.label, [hd, svp])
-					a[:] = [particleverb if x.type == HEAD else x
-										for x in a if function(x) != 'SVP']
+				if hd.label != a.label and hd is not svp:
+					svp.detach()
+					n = hd.parent_index
+					hd.detach()
+					a.insert(n, ParentedTree(hd.label, [hd, svp]))
 	elif name == 'SBAR':  # introduce SBAR level
 		sbarfunc = 'CP'.split()
 		# in the annotation, complementizers belong to the first S
@@ -1229,7 +1230,7 @@ def reversetransform(tree, sent, transformations):
 						and 'PTKVZ' in (c.label for c in b
 							if isinstance(c, Tree))
 						and any(c.label == b.label for c in b)):
-						a[n:n + 1] = b[:]
+						b[:], a[n:n + 1] = [], b[:]
 		elif name == 'addUnary':
 			# remove phrasal projections for single tokens
 			# e.g. S => NP => NN becomes S => NN
-- 
2.43.0


From c87e44b85d9104821c675b06d0881d9aa73b28b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 057/173] fix: VP-FIN_NEGRA transform should introduce VPs

---
 discodop/treebanktransforms.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 2a2b566..28efdc5 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -279,15 +279,17 @@ def negratransforms(name, tree, sent):
 				vp = [a for a in s if function(a) in addtovp]
 				# introduce a VP unless it would lead to a unary
 				# VP -> VP production
-				if len(vp) != 1 or vp[0].label != 'VP':
-					s[:] = [a.detach() for a in s if function(a) not in addtovp
-							] + [a.detach() for a in vp]
+				if vp and (len(vp) != 1 or vp[0].label != 'VP'):
+					s[:] = [a for a in s if function(a) not in addtovp]
+					s.append(ParentedTree('VP', vp))
 		toplevel_s = []
 		if 'S' in labels(tree):
 			toplevel_s = [a for a in tree if a.label == 'S']
 			for s in toplevel_s:
-				while function(s[0]) in newlevel:
-					s[:] = [s[0], ParentedTree('S', s[1:])]
+				while function(s[0]) in newlevel and len(s) > 1:
+					rest = s[1:]
+					s[1:] = []
+					s.append(ParentedTree('S', rest))
 					s = s[1]
 					toplevel_s = [s]
 		elif 'CS' in labels(tree):
-- 
2.43.0


From b62e2f2c17328426c116bfa602f8836e3498f277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 058/173] fix: VP-FIN_WSJ transform passed a node as index

---
 discodop/treebanktransforms.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 28efdc5..527b985 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -488,15 +488,16 @@ def ptbtransforms(name, tree, sent):
 	elif name == 'VP-FIN_WSJ':  # add disc. finite VP when verb is under S
 		# this counters the flattening when a VP is not possible because of
 		# non-standard word order; e.g. is John happy
-		for s in tree.postorder(lambda n: n.label == 'S'):
+		for s in list(tree.postorder(lambda n: n.label == 'S')):
 			if not any(a.label.startswith('VP') for a in s):
 				vp = ParentedTree('VP', [])
 				for child in list(s):
 					# FIXME: check which functions should not go in the VP
 					# (pre)modifiers unclear.
 					if 'SBJ' not in functions(child):
-						vp.append(s.pop(child))
-				s.append(vp)
+						vp.append(child.detach())
+				if vp:
+					s.append(vp)
 	elif name == 'MARK-UNARY':  # add -U to unary nodes to avoid cycles
 		for unary in tree.subtrees(lambda n: len(n) == 1
 				and isinstance(n[0], Tree)):
-- 
2.43.0


From a13d349711ba67491122be344d7f70f6a2398565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 059/173] fix: APPEND-MORPH transform called a non-existent
 method; make reversible

---
 discodop/treebanktransforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 527b985..66b7c55 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -153,11 +153,11 @@ def transform(tree, sent, transformations):
 							[a.pop() for _ in range(len(a))][::-1])]
 					a.label = '-' + '-'.join(func)
 		elif name == 'APPEND-MORPH':  # Append morph. features to POS tag
-			for a in tree.subtree(lambda n: n and isinstance(n[0], int)):
+			for a in tree.subtrees(lambda n: n and isinstance(n[0], int)):
 				morph = '--'
 				if a.source:
 					morph = a.source[MORPH].replace('(', '[').replace(')', ']')
-				a.label += STATESPLIT + morph
+				a.label += '/' + morph
 		elif name == 'MORPH-NODE':  # insert node w/morph. features above POS
 			for a in tree.postorder(lambda n: n and isinstance(n[0], int)):
 				morph = '--'
-- 
2.43.0


From 5b0cf3e21d59cbb0d42280fcb6f8cf4461ccac0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 060/173] fix: MORPH-NODE should insert node above tag; do not
 lose other attributes

---
 discodop/treebanktransforms.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 66b7c55..63e44ae 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -149,8 +149,7 @@ def transform(tree, sent, transformations):
 			for a in tree.postorder():
 				func = functions(a)
 				if func and not a.label.endswith('-'):  # -LRB-
-					a[:] = [a.__class__(a.label,
-							[a.pop() for _ in range(len(a))][::-1])]
+					insertchild(a, a.label)
 					a.label = '-' + '-'.join(func)
 		elif name == 'APPEND-MORPH':  # Append morph. features to POS tag
 			for a in tree.subtrees(lambda n: n and isinstance(n[0], int)):
@@ -163,15 +162,14 @@ def transform(tree, sent, transformations):
 				morph = '--'
 				if a.source:
 					morph = a.source[MORPH].replace('(', '[').replace(')', ']')
-				a[:] = [a.__class__(morph,
-						[a.pop() for _ in range(len(a))][::-1])]
+				insertchild(a, a.label)
+				a.label = morph
 		elif name == 'LEMMA-NODE':  # insert node w/lemma above terminal
 			for a in tree.postorder(lambda n: n and isinstance(n[0], int)):
 				lemma = '--'
 				if a.source:
 					lemma = escape(a.source[LEMMA])
-				a[:] = [a.__class__(lemma,
-						[a.pop() for _ in range(len(a))][::-1])]
+				insertchild(a, lemma)
 		elif name == 'MARK-YEAR':  # mark POS label of year terminals
 			for node in tree.subtrees(lambda n: n and isinstance(n[0], int)
 					and YEARRE.match(sent[n[0]])):
@@ -1310,21 +1308,21 @@ def reversetransform(tree, sent, transformations):
 			for a in list(tree.postorder(lambda n: n.label.startswith('-')
 					and not n.label.endswith('-')  # -LRB-
 					and n and isinstance(n[0], Tree))):
-				a.source = ['--'] * 6
+				a.source = a[0].source or a.source or ['--'] * 6
 				a.source[FUNC] = a.label[1:]
 				a.source[TAG] = a.label = a[0].label
 				a[:] = [a[0].pop() for _ in range(len(a[0]))][::-1]
 		elif name == 'MORPH-NODE':  # nodes with morph. above preterminals
 			for a in list(tree.postorder(lambda n: n and isinstance(n[0], Tree)
 					and n[0] and isinstance(n[0][0], int))):
-				a.source = ['--'] * 6
-				a.source[MORPH] = a.label
+				a.source = a[0].source or a.source or ['--'] * 6
+				a.source[MORPH] = a.label.replace('[', '(').replace(']', ')')
 				a.source[TAG] = a.label = a[0].label
 				a[:] = [a[0].pop() for _ in range(len(a[0]))][::-1]
 		elif name == 'LEMMA-NODE':  # nodes with lemmas above words
 			for a in list(tree.postorder(lambda n: n and isinstance(n[0], Tree)
 					and n[0] and isinstance(n[0][0], int))):
-				a.source = ['--'] * 6
+				a.source = a[0].source or a.source or ['--'] * 6
 				a.source[LEMMA] = unescape(a[0].label)
 				a.source[TAG] = a.label
 				a[:] = [a[0].pop() for _ in range(len(a[0]))][::-1]
@@ -1629,6 +1627,17 @@ def getftbcompounds(trees, sents, cachedfile):
 		raise ValueError('need training trees or cached file.')
 
 
+def insertchild(node, label):
+	"""Introduce a node with given label between a node and its children.
+
+	The new node has the same attributes (functions, &c.) as its parent."""
+	child = node.__class__(label,
+			[node.pop() for _ in range(len(node))][::-1])
+	if node.source:
+		child.source = list(node.source)
+	node[:] = [child]
+
+
 def rindex(seq, value):
 	"""Like list.index(), but go from right to left."""
 	return len(seq) - 1 - seq[::-1].index(value)
-- 
2.43.0


From 233e61b538bb4a1f4c64c3330e7f309c3b2e928b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 061/173] fix: splitTMP compared a node with a label

---
 discodop/treebanktransforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 63e44ae..434118b 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -633,13 +633,13 @@ def ptbtransforms(name, tree, sent):
 		for node in tree.postorder(lambda n: 'TMP' in functions(n)):
 			child = node
 			hd = None
-			while node and isinstance(node[0], Tree):
+			while child and isinstance(child[0], Tree):
 				try:
 					i, hd = next((n, a) for n, a in enumerate(child)
 							if isinstance(a, Tree) and a.type == HEAD)
 				except StopIteration:
 					break
-				if strip(hd) == 'POS' and i > 0:
+				if strip(hd.label) == 'POS' and i > 0:
 					hd = child[i - 1]
 				child = hd
 			if 'TMP' in functions(node):
-- 
2.43.0


From f6df6b72725786c516a3a8b8cddc14246a1ba35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 062/173] fix: rrtransform used function of previous sibling
 for next sibling

---
 discodop/treebanktransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 434118b..6b15f47 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -1467,7 +1467,7 @@ def rrtransform(tree, morphlevels=0, percolatefeatures=None,
 				and child.source[FUNC] not in ignorefunctions
 				and child.label not in ignorecategories):
 			nextfunc = child.source[FUNC]
-		childfuncsr.insert(0, prevfunc)
+		childfuncsr.insert(0, nextfunc)
 	funcstr = ','.join(sorted(child.source[FUNC] for child in tree
 			if isinstance(child, Tree) and child.source[FUNC]
 					and child.source[FUNC] != adjunctionlabel
-- 
2.43.0


From d0a2f019a439828b37cea190776b6e9fb16ac664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 063/173] fix: default arguments of rrtransform

---
 discodop/treebanktransforms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 6b15f47..449a2ab 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -1434,6 +1434,9 @@ def rrtransform(tree, morphlevels=0, percolatefeatures=None,
 	:param percolatefeatures: if a sequence is given, percolate only these
 			morphological features; by default all features are used.
 	:returns: a new, transformed tree."""
+	ignorefunctions = ignorefunctions or ()
+	ignorecategories = ignorecategories or ()
+
 	def realize(child, prevfunc, nextfunc):
 		"""Generate realization of a child node by recursion."""
 		newchild, morph, lvl = rrtransform(child, morphlevels,
-- 
2.43.0


From e4a1a0123231bb3e5d546f7a43c7f56a4b870500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:47 +0000
Subject: [PATCH 064/173] fix: PP-NP transform called undefined function

---
 discodop/treebanktransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 449a2ab..fb2fb88 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -247,7 +247,7 @@ def negratransforms(name, tree, sent):
 			# (annotation mistake?), or there is a PN and we want to avoid
 			# a cylic unary of NP -> PN -> NP.
 			if ac and nk and (len(nk) > 1
-					or nk[0].label not in s('NP', 'PN')):
+					or nk[0].label not in {'NP', 'PN'}):
 				pp[:] = []
 				pp[:] = ac + [ParentedTree('NP', nk)]
 	elif name == 'DP':  # introduce determiner phrases (DPs)
-- 
2.43.0


From 8dd867ea91dfa64275b420d3f21dd165e318c7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:47 +0000
Subject: [PATCH 065/173] fix: splitSGapped should consider each S node
 separately

---
 discodop/treebanktransforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index fb2fb88..c46d30b 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -613,9 +613,9 @@ def ptbtransforms(name, tree, sent):
 						node.label += STATESPLIT + strip(child.label)
 					break
 	elif name == 'splitSGapped':  # Stanford Parser splitSGapped=3
-		seenPredCat = seenCC = seenS = False
-		seenNP = 0
 		for node in tree.subtrees(lambda n: base(n, 'S')):
+			seenPredCat = seenCC = seenS = False
+			seenNP = 0
 			for child in node:
 				cat2 = child.label
 				if cat2.startswith('NP'):
-- 
2.43.0


From 3f209be00e5c0b5dde71ad7eb564cd7b4ba748b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:59 +0000
Subject: [PATCH 066/173] fix: transforms that consider (grand)parents when
 these do not exist

---
 discodop/treebanktransforms.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index c46d30b..f756038 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -196,7 +196,7 @@ def transform(tree, sent, transformations):
 				node.label += STATESPLIT + strip(node.parent.label)
 		elif name == 'NP-PP':  # mark PPs under NPs
 			for pp in tree.subtrees(lambda n: n.label == 'PP'
-					and n.parent.label == 'NP'):
+					and n.parent and n.parent.label == 'NP'):
 				pp.label += STATESPLIT + 'NP'
 		elif (negratransforms(name, tree, sent)
 				or lassytransforms(name, tree, sent)
@@ -530,7 +530,8 @@ def ptbtransforms(name, tree, sent):
 					and (base(node.parent.parent, 'N')
 						or base(node.parent.parent, 'ADJP'))):
 				node.label += STATESPLIT + 'Q'
-			elif node.parent.parent.label[0] == 'S' and not base(
+			elif node.parent.parent and node.parent.parent.label.startswith(
+					'S') and not base(
 					node.parent.parent, 'SBAR'):
 				if base(node.parent, 'SBAR'):
 					node.label += STATESPLIT + 'SCC'
@@ -730,8 +731,8 @@ def ftbtransforms(name, tree, sent):
 						break
 	elif name == 'markp1':
 		for t in tree.subtrees(lambda n: strip(n.label) == "P"
-				and strip(n.parent.label) == "PP"
-				and strip(n.parent.parent.label) == "NP"):
+				and base(n.parent, "PP")
+				and base(n.parent.parent, "NP")):
 			t.label += STATESPLIT + "n"
 	elif name == 'mwadvs':
 		for t in tree.subtrees(lambda n: strip(n.label) == "MWADV"
@@ -1653,7 +1654,7 @@ def labels(tree):
 
 def base(node, match):
 	"""Test whether ``node.label`` equals ``match`` after stripping features."""
-	return (node.label == match
+	return node is not None and (node.label == match
 			or node.label.startswith(match + STATESPLIT)
 			or node.label.startswith(match + '-'))
 
-- 
2.43.0


From d2515cf308016a77a8bceb30b66aaf8a012c2c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:59 +0000
Subject: [PATCH 067/173] fix: coordinated adjectives in undone FTB compounds

---
 discodop/treebanktransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index f756038..7c3e8f2 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -970,7 +970,7 @@ def ftbtransforms(name, tree, sent):
 					sbtrs = sbtrs[1:]
 				elif sbtrs[0].label == 'A':
 					if (len(sbtrs) > 2 and sbtrs[1].label == 'C'
-							and sbtrs[2] == 'A'):
+							and sbtrs[2].label == 'A'):
 						ap = make_AP(sbtrs[0:3], 'A C A')
 						np.append(ap)
 						sbtrs = sbtrs[3:]
-- 
2.43.0


From 8793ea872ceee258dbe430860a9927eed8e1434f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:00 +0000
Subject: [PATCH 068/173] fix: ftbraisecompl should not introduce empty nodes

---
 discodop/treebanktransforms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 7c3e8f2..9926aab 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -870,6 +870,7 @@ def ftbtransforms(name, tree, sent):
 		# http://www.lrec-conf.org/proceedings/lrec2010/pdf/392_Paper.pdf
 		for sbtree in tree.subtrees():
 			if (strip(sbtree.label) in ('VPinf', 'VPpart')
+					and len(sbtree) > 1
 					and strip(sbtree[0].label) in ('P', 'P+D', 'MWP')):
 				# raising the PPs of the VPinf constituents:
 				# (VPinf (P pour) (VN (VINF manger)))
-- 
2.43.0


From e153ace3de0b6fb25e9984b2e7d0629a8f5d0052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 069/173] fix: ftbraisecompl with Ssub consisting only of
 punctuation

---
 discodop/treebanktransforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index 9926aab..c27fcdd 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -895,8 +895,8 @@ def ftbtransforms(name, tree, sent):
 				# ==> (Ssub (C-S si) (Sint (NP (NPP Paul) (VN (V dort)) )))
 				# ignore punctuation
 				i = 2 if sbtree[0].label in PUNCTTAGS else 1
-				if (strip(sbtree[i - 1].label) in ('C', 'CC', 'CS', 'MWC')
-						and len(sbtree) > i):
+				if (len(sbtree) > i and strip(sbtree[i - 1].label)
+						in ('C', 'CC', 'CS', 'MWC')):
 					# store children to the right of C node, then remove them
 					children = sbtree[i:]
 					sbtree[i:] = []
-- 
2.43.0


From baee9df4cbe45c03409e772f61c5d5f60e7f9486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:01 +0000
Subject: [PATCH 070/173] fix: detect format of grammar files whose first label
 starts like a number

---
 discodop/_grammar.pxi | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index defd779..298b507 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -9,8 +9,13 @@ YFUNARYRE = re.compile(rb'^0(?:,0)*$')
 LCFRS_NONINT = re.compile(b'\t(?:0x)?[0-9]+[./][0-9]+(?:p-[0-9]+)?\n')
 BITPAR_NONINT = re.compile(b'(?:^|\n)[0-9]+\\.[0-9]+[ \t]')
 LEXICON_NONINT = re.compile(b'[ \t][0-9]+[./][0-9]+[ \t\n]')
-# Detect rule format of bitpar
-BITPARRE = re.compile(rb'^[-.e0-9]+\b')
+# Detect rule format of bitpar: a rule starts with a weight and does not end
+# with a yield function and a weight.
+NUMBER = (rb'[-+]?(?:0x[0-9a-f.]+p[-+]?[0-9]+'
+		rb'|(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:e[-+]?[0-9]+)?)')
+BITPARRE = re.compile(
+		rb'\n*(?![^\t\n]+(?:\t[^\t\n]+){1,2}\t[01,]+\t%s(?:/%s)?(?:\n|$))'
+		rb'%s(?:/%s)?\t' % ((NUMBER, ) * 4))
 # Match syntactic category and function tag, without any state splits,
 # for labels that were not introduced by the binarization:
 # e.g., given NN-HD/Acc^name group 1 will be NN-HD/Acc
@@ -81,7 +86,7 @@ cdef class Grammar:
 			self.ruletuples = None
 			rules = readbytes(rule_tuples_or_filename)
 			lexicon = readbytes(lexiconfile)
-			self.bitpar = BITPARRE.match(rules)
+			self.bitpar = BITPARRE.match(rules) is not None
 		elif rule_tuples_or_filename and isinstance(
 				rule_tuples_or_filename[0], tuple):
 			# convert tuples to strings with text format
-- 
2.43.0


From 3a9bbe6d562d4fa3c64ea87ae2acf938f52f6623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:01 +0000
Subject: [PATCH 071/173] fix: do not ignore last line of grammar file without
 end of line

---
 discodop/_grammar.pxi | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index 298b507..1531c25 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -1083,13 +1083,14 @@ cdef inline const char *readfields(const char *buf, vector[string] &result):
 		result is extended with the tokens encountered."""
 	cdef const char *endofline = strchr(buf, b'\n')
 	cdef const char *tmp
-	if endofline is NULL:
-		# NB: if last last line has no end of line, its tokens will be ignored.
-		return NULL
+	if endofline is NULL:  # last line without end of line?
+		if buf[0] == 0:
+			return NULL
+		endofline = buf + strlen(buf)
 	tmp = strchr(buf, b'\t')
 	while tmp is not NULL and tmp < endofline:
 		result.push_back(string(buf, tmp - buf))
 		buf = tmp + 1
 		tmp = strchr(buf, b'\t')
 	result.push_back(string(buf, endofline - buf))
-	return endofline + 1
+	return endofline + 1 if endofline[0] else endofline
-- 
2.43.0


From e31a1f62a0ae1af2c4a82a943e9321eff8272bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:01 +0000
Subject: [PATCH 072/173] fix: crashes on malformed lines in grammar files

---
 discodop/_grammar.pxi   | 24 +++++++++++++++++-------
 discodop/containers.pyx |  2 +-
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index 1531c25..e4ed227 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -414,8 +414,11 @@ cdef class Grammar:
 			buf = readfields(buf, fields)
 			if buf is NULL:
 				break
-			elif fields.size() == 0:
+			elif fields.size() == 1 and fields[0].empty():  # blank line
 				continue
+			elif fields.size() < 3:
+				raise ValueError('Not enough fields:\n%r'
+						% prev[:buf - prev].decode('utf8'))
 			if self.bitpar:
 				weight = fields[0]
 				fields.erase(fields.begin())
@@ -436,9 +439,18 @@ cdef class Grammar:
 				rhs1fanout = rhs2fanout = 0
 				for a in yf:
 					if a == b',':
+						if m == 0 or (cur.lengths >> (m - 1)) & 1:
+							raise ValueError('empty component in yield '
+									'function:\n%r'
+									% prev[:buf - prev].decode('utf8'))
 						cur.lengths |= 1 << (m - 1)
 						fanout += 1
 						continue
+					elif m + 1 >= 8 * sizeof(cur.args):
+						raise ValueError(
+								'Parsing complexity too high (max %d).\n'
+								'Rule: %r' % (8 * sizeof(cur.args) - 1,
+								prev[:buf - prev].decode('utf8')))
 					elif a == b'0':
 						rhs1fanout += 1
 					elif a == b'1':
@@ -449,12 +461,10 @@ cdef class Grammar:
 								' (not in set [01,])\n%r' % (
 								a, prev[:buf - prev].decode('utf8')))
 					m += 1
+				if m == 0 or (cur.lengths >> (m - 1)) & 1:
+					raise ValueError('empty component in yield function:\n%r'
+							% prev[:buf - prev].decode('utf8'))
 				cur.lengths |= 1 << (m - 1)
-				if m >= (8 * sizeof(cur.args)):
-					raise ValueError(
-							'Parsing complexity (%d) too high (max %d).\n'
-							'Rule: %r' % (m, (8 * sizeof(cur.args)),
-							prev[:buf - prev].decode('utf8')))
 				if rule.size() == 2:
 					# if not YFUNARYRE.match(yf):
 					if rhs1fanout == 0 or rhs2fanout != 0:
@@ -590,7 +600,7 @@ cdef class Grammar:
 			buf = readfields(buf, fields)
 			if buf is NULL:
 				break
-			elif fields.size() == 0:
+			elif fields.size() == 1 and fields[0].empty():  # blank line
 				continue
 			elif fields.size() == 1:
 				raise ValueError('Expected: word<TAB>tag1<SPACE>weight1...'
diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index 80120c5..934ec1a 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -15,7 +15,7 @@ from .util import readbytes
 from .tree import Tree
 cimport cython
 from cython.operator cimport dereference
-from libc.string cimport strchr
+from libc.string cimport strchr, strlen
 from libc.stdio cimport FILE, fopen, fread, fclose
 
 cdef extern from "<algorithm>" namespace "std" nogil:
-- 
2.43.0


From 8a6bfd965e5fe32b998b509600eccea99de305a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:30 +0000
Subject: [PATCH 073/173] fix: detect conflicting fan-outs of labels on the
 right-hand side of rules

---
 discodop/_grammar.pxi | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index e4ed227..8fd6b66 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -504,6 +504,11 @@ cdef class Grammar:
 					self.maxfanout = rhs1fanout
 			else:
 				cur.rhs1 = dereference(it).second
+				if not self.bitpar and self.fanout[cur.rhs1] != rhs1fanout:
+					raise ValueError("conflicting fanouts for symbol "
+						"%r.\nprevious: %d; this non-terminal: %d. rule:\n%r"
+						% (rule[1], self.fanout[cur.rhs1], rhs1fanout,
+						prev[:buf - prev].decode('utf8')))
 			if cur.lhs == 0 or cur.rhs1 == 0:
 				raise ValueError('Epsilon symbol may only occur '
 						'in RHS of lexical rules:\n%r' %
@@ -521,6 +526,12 @@ cdef class Grammar:
 						self.maxfanout = rhs2fanout
 				else:
 					cur.rhs2 = dereference(it).second
+					if not self.bitpar and self.fanout[cur.rhs2] != rhs2fanout:
+						raise ValueError("conflicting fanouts for symbol "
+							"%r.\nprevious: %d; this non-terminal: %d. "
+							"rule:\n%r"
+							% (rule[2], self.fanout[cur.rhs2], rhs2fanout,
+							prev[:buf - prev].decode('utf8')))
 				if cur.rhs2 == 0:
 					raise ValueError('Epsilon symbol may only occur '
 							'in RHS of lexical rules:\n%r'
@@ -633,7 +644,7 @@ cdef class Grammar:
 					lexrule.lhs = dereference(it).second
 					if self.fanout[lexrule.lhs] != 1:
 						raise ValueError('POS tag %r has fan-out %d, may only'
-								' be 1.' % (self.fanout[lexrule.lhs], tag))
+								' be 1.' % (tag, self.fanout[lexrule.lhs]))
 				w = convertweight(weight.c_str())
 				if w <= 0:
 					raise ValueError('weights should be positive '
-- 
2.43.0


From 1b6ac49561a7c9a7521be99556f3537badb8e1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:30 +0000
Subject: [PATCH 074/173] fix: looking up number of unknown rule returned first
 rule

---
 discodop/_grammar.pxi | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index 8fd6b66..7524c68 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -978,25 +978,29 @@ cdef class Grammar:
 	cpdef noderuleno(self, node):
 		"""Get rule no given a node of a continuous tree."""
 		cdef Rule key
-		key.lhs = self.toid.ob[node.label.encode('utf8')]
-		key.rhs1 = self.toid.ob[node[0].label.encode('utf8')]
+		key.lhs = self.toid[node.label]
+		key.rhs1 = self.toid[node[0].label]
 		if len(node) > 1:
-			key.rhs2 = self.toid.ob[node[1].label.encode('utf8')]
+			key.rhs2 = self.toid[node[1].label]
 			key.args, key.lengths = 0b10, 0b10
 		else:
 			key.rhs2 = 0
 			key.args, key.lengths = 0b0, 0b1
-		return self.rulenos[key]
+		it = self.rulenos.find(key)
+		if it == self.rulenos.end():
+			raise KeyError('rule not in grammar')
+		return dereference(it).second
 
 	cpdef getruleno(self, tuple r, tuple yf):
 		"""Get rule no given a (discontinuous) production."""
 		cdef Rule key
-		cdef bytes lhs = r[0].encode('utf8')
-		cdef bytes rhs1 = r[1].encode('utf8')
-		key.lhs, key.rhs1 = self.toid.ob[lhs], self.toid.ob[rhs1]
-		key.rhs2 = self.toid.ob[r[2].encode('utf8')] if len(r) > 2 else 0
+		key.lhs, key.rhs1 = self.toid[r[0]], self.toid[r[1]]
+		key.rhs2 = self.toid[r[2]] if len(r) > 2 else 0
 		getyf(yf, &key.args, &key.lengths)
-		return self.rulenos[key]
+		it = self.rulenos.find(key)
+		if it == self.rulenos.end():
+			raise KeyError('rule not in grammar: %r %r' % (r, yf))
+		return dereference(it).second
 
 	def incrementrulecount(self, int ruleno, int freq):
 		"""Add freq to observed count of a rule.
-- 
2.43.0


From 30448eb5c8649085f3d920a93156bfe334228011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:30 +0000
Subject: [PATCH 075/173] fix: pickled grammar lost backtransform

---
 discodop/_grammar.pxi | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index 7524c68..78b2c08 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -1084,7 +1084,8 @@ cdef class Grammar:
 	def __reduce__(self):
 		"""Helper function for pickling."""
 		return (Grammar, (self.rulesfile or self.ruletuples, self.lexiconfile,
-				self.start, self.altweightsfile or self.models))
+				self.start, self.altweightsfile or self.models,
+				self.backtransform))
 
 
 cdef inline Prob convertweight(const char *weight):
-- 
2.43.0


From f58b1e8a7128067a0285902172ce57df3c304daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:30 +0000
Subject: [PATCH 076/173] fix: weights in grammar files lost precision

---
 discodop/grammar.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index d2be57b..f5e01cb 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -1081,7 +1081,7 @@ def writegrammar(grammar, bitpar=False):
 	rules, lexicon = [], []
 	lexical = OrderedDict()
 	for (r, yf), w in grammar:
-		w = '%g' % w
+		w = weightstr(w)
 		if len(r) == 2 and r[1] == 'Epsilon':
 			lexical.setdefault(yf[0], []).append((r[0], w))
 			continue
@@ -1099,6 +1099,19 @@ def writegrammar(grammar, bitpar=False):
 	return ''.join(rules), ''.join(lexicon)
 
 
+def weightstr(weight):
+	"""Convert a number to a string without loss of precision.
+
+	>>> print(weightstr(2), weightstr(0.5), weightstr(1 / 3.), weightstr(1e7))
+	2 0.5 0.3333333333333333 1e+07"""
+	result = '%g' % weight
+	if float(result) == weight:
+		return result
+	elif weight == int(weight):
+		return '%d' % weight
+	return repr(float(weight))
+
+
 def subsetgrammar(a, b):
 	"""Test whether grammar a is a subset of b."""
 	difference = set(map(itemgetter(0), a)) - set(map(itemgetter(0), b))
-- 
2.43.0


From 628e27126fa5adbf05da7b57c1cc9c5689483f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:16 +0000
Subject: [PATCH 077/173] fix: check number of nonterminals before using them

---
 discodop/_grammar.pxi | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index 78b2c08..c28cabe 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -479,6 +479,9 @@ cdef class Grammar:
 					# 	raise ValueError('mismatch between non-terminals and '
 					# 			'yield function: %r' %
 					# 			prev[:buf - prev].decode('utf8'))
+			if rule.size() < 2:
+				raise ValueError('Not enough nonterminals:\n%r'
+						% prev[:buf - prev].decode('utf8'))
 			it = self.toid.ob.find(rule[0])
 			if it == self.toid.ob.end():
 				cur.lhs = self.toid.ob[rule[0]] = self.tolabel.ob.size()
@@ -536,9 +539,6 @@ cdef class Grammar:
 					raise ValueError('Epsilon symbol may only occur '
 							'in RHS of lexical rules:\n%r'
 						% prev[:buf - prev].decode('utf8'))
-			elif rule.size() < 2:
-				raise ValueError('Not enough nonterminals:\n%r'
-						% prev[:buf - prev].decode('utf8'))
 			else:
 				raise ValueError('Grammar not binarized:\n%r\n%r'
 						% (list(rule), prev[:buf - prev].decode('utf8')))
-- 
2.43.0


From 12b94754cb728304d99d0e7c9730cd1e8105c39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:32 +0000
Subject: [PATCH 078/173] fix: probabilities of lexical rules when label is
 also LHS of phrasal rules

---
 discodop/coarsetofine.pyx   | 11 +----------
 discodop/containers.pxd     |  1 +
 discodop/containers.pyx     | 18 ++++++++++++------
 discodop/disambiguation.pyx |  6 +++++-
 discodop/kbest.pyx          |  5 +++--
 discodop/pcfg.pxd           |  2 ++
 discodop/pcfg.pyx           | 25 +++++++++++++++++--------
 discodop/plcfrs.pxd         |  2 +-
 discodop/plcfrs.pyx         | 14 +++++++++-----
 9 files changed, 51 insertions(+), 33 deletions(-)

diff --git a/discodop/coarsetofine.pyx b/discodop/coarsetofine.pyx
index a4205e6..91339cc 100644
--- a/discodop/coarsetofine.pyx
+++ b/discodop/coarsetofine.pyx
@@ -232,16 +232,7 @@ def getinside(Chart chart):
 		item = chart.getitemidx(n)
 		for edge in chart.parseforest[item]:
 			if edge.rule is NULL:
-				try:
-					prob = chart.lexprob(item, edge)
-				except ValueError:
-					# fall back to Viterbi score from chart
-					# if there is a single incoming edge this is correct
-					assert chart.parseforest[item].size() == 1
-					if chart.logprob:
-						prob = exp(-chart.probs[item])
-					else:
-						prob = chart.probs[item]
+				prob = chart.lexprob(item, edge)
 			elif edge.rule.rhs2 == 0:
 				leftitem = chart._left(item, edge)
 				prob = (edge.rule.prob
diff --git a/discodop/containers.pxd b/discodop/containers.pxd
index ea1743e..33538b2 100644
--- a/discodop/containers.pxd
+++ b/discodop/containers.pxd
@@ -577,6 +577,7 @@ cdef class Grammar:
 # 		to pack the parse forest?
 cdef class Chart:
 	cdef vector[Prob] probs
+	cdef sparse_hash_map[ItemNo, Prob] lexprobs  # probs of lexical edges
 	cdef vector[Prob] inside
 	cdef vector[Prob] outside
 	cdef vector[vector[Edge]] parseforest
diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index 934ec1a..1fa4bb7 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -124,6 +124,9 @@ cdef class Chart:
 		cdef Label label = self.label(itemidx)
 		cdef string word = self.sent[self.lexidx(edge)].encode('utf8')
 		it = self.grammar.lexicalbyword.find(word)
+		if it == self.grammar.lexicalbyword.end():
+			word = self.sent[self.lexidx(edge)].lower().encode('utf8')
+			it = self.grammar.lexicalbyword.find(word)
 		if it == self.grammar.lexicalbyword.end():
 			raise ValueError('unknown word: %r' % word)
 		# do binary search among rules for word for rule with given lhs
@@ -139,12 +142,15 @@ cdef class Chart:
 		raise ValueError('no lexical rule found for %r, %r' % (label, word))
 
 	cdef Prob lexprob(self, ItemNo itemidx, Edge edge) except -1:
-		"""Return lexical probability given a lexical edge."""
-		cdef int ruleno = self.lexruleno(itemidx, edge)
-		if ruleno >= 0:
-			prob = self.grammar.lexical[ruleno].prob
-			return exp(-prob) if self.logprob else prob
-		return 0 if self.logprob else 1
+		"""Return lexical probability given a lexical edge.
+
+		This is the probability that was used in parsing; i.e., it may
+		have been derived from a given POS tag or an unknown word model."""
+		it = self.lexprobs.find(itemidx)
+		if it == self.lexprobs.end():
+			raise ValueError('no lexical edge: %s' % self.itemstr(itemidx))
+		prob = dereference(it).second
+		return exp(-prob) if self.logprob else prob
 
 	def numitems(self):
 		"""Number of items in chart."""
diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 797faaa..45040a6 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -850,7 +850,11 @@ cdef Prob getderivprob(ItemNo v, RankedEdge deriv, Chart chart, list sent):
 	cdef Prob result
 	cdef ItemNo v1
 	if deriv.edge.rule is NULL:  # is terminal
-		return chart.lexprob(v, deriv.edge)
+		try:
+			return chart.grammar.lexical[
+					chart.lexruleno(v, deriv.edge)].prob
+		except ValueError:  # probability from given POS tag / unknown word
+			return chart.lexprobs[v]
 	result = deriv.edge.rule.prob
 	v1 = chart.left(v, deriv)
 	result += getderivprob(
diff --git a/discodop/kbest.pyx b/discodop/kbest.pyx
index 038c9da..f81c141 100644
--- a/discodop/kbest.pyx
+++ b/discodop/kbest.pyx
@@ -32,8 +32,9 @@ cdef RankedEdgeAgenda[Prob] getcandidates(Chart chart, ItemNo v, int k):
 	for e in chart.parseforest[v]:
 		if e.rule is NULL:
 			# there can only be one lexical edge for this combination of
-			# POS tag and terminal, use viterbi probability directly
-			prob = chart.subtreeprob(v)
+			# POS tag and terminal; NB: the viterbi probability may be that of
+			# another edge if the label also occurs as LHS of phrasal rules.
+			prob = chart.lexprobs[v]
 			left = right = -1
 		else:
 			left = right = 0
diff --git a/discodop/pcfg.pxd b/discodop/pcfg.pxd
index d4e193c..2a587f5 100644
--- a/discodop/pcfg.pxd
+++ b/discodop/pcfg.pxd
@@ -57,6 +57,7 @@ cdef class CFGChart(Chart):
 @cython.final
 cdef class DenseCFGChart(CFGChart):
 	cdef void addedge(self, uint64_t item, Idx mid, ProbRule *rule)
+	cdef void addlexedge(self, uint64_t item, Idx mid, Prob prob)
 	cdef bint updateprob(self, uint64_t item, Prob prob, Prob beam)
 	cdef Label _label(self, uint64_t item)
 	cdef Prob _subtreeprob(self, uint64_t item)
@@ -67,6 +68,7 @@ cdef class DenseCFGChart(CFGChart):
 cdef class SparseCFGChart(CFGChart):
 	cdef sparse_hash_map[uint64_t, ItemNo] itemindex
 	cdef void addedge(self, uint64_t item, Idx mid, ProbRule *rule)
+	cdef void addlexedge(self, uint64_t item, Idx mid, Prob prob)
 	cdef bint updateprob(self, uint64_t item, Prob prob, Prob beam)
 	cdef Label _label(self, uint64_t item)
 	cdef Prob _subtreeprob(self, uint64_t item)
diff --git a/discodop/pcfg.pyx b/discodop/pcfg.pyx
index 5766d79..f0ee407 100644
--- a/discodop/pcfg.pyx
+++ b/discodop/pcfg.pyx
@@ -91,6 +91,12 @@ cdef class DenseCFGChart(CFGChart):
 		edge.pos.lvec = mid
 		self.parseforest[item].push_back(edge)
 
+	cdef void addlexedge(self, uint64_t item, Idx mid, Prob prob):
+		"""Add lexical edge; prob should be probability of lexical rule."""
+		self.updateprob(item, prob, 0.0)
+		self.addedge(item, mid, NULL)
+		self.lexprobs[item] = prob
+
 	cdef bint updateprob(self, uint64_t item, Prob prob, Prob beam):
 		"""Update probability for item if better than current one.
 
@@ -278,6 +284,12 @@ cdef class SparseCFGChart(CFGChart):
 		edge.pos.mid = mid
 		self.parseforest[itemidx].push_back(edge)
 
+	cdef void addlexedge(self, uint64_t item, Idx mid, Prob prob):
+		"""Add lexical edge; prob should be probability of lexical rule."""
+		self.updateprob(item, prob, 0.0)
+		self.addedge(item, mid, NULL)
+		self.lexprobs[self.itemindex[item]] = prob
+
 	cdef bint updateprob(self, uint64_t item, Prob prob, Prob beam):
 		"""Update probability for item if better than current one.
 
@@ -668,9 +680,8 @@ cdef populatepos(CFGChart_fused chart, sent, tags,
 					continue
 				lhs = lexrule.lhs
 				if tag is None or tagre.match(grammar.tolabel[lhs]):
-					chart.updateprob(cell + lhs,
-							lexrule.prob + reserveprob, 0.0)
-					chart.addedge(cell + lhs, right, NULL)
+					chart.addlexedge(cell + lhs, right,
+							lexrule.prob + reserveprob)
 					recognized = True
 					if midfilter is not NULL:
 						updatemidfilter(midfilter[0], left, right, lhs, nts)
@@ -695,9 +706,8 @@ cdef populatepos(CFGChart_fused chart, sent, tags,
 						blocked[0] += 1
 						continue
 					lhs = lexrule.lhs
-					chart.updateprob(cell + lhs,
-							lexrule.prob - pylog(openclassfactor), 0.0)
-					chart.addedge(cell + lhs, right, NULL)
+					chart.addlexedge(cell + lhs, right,
+							lexrule.prob - pylog(openclassfactor))
 					recognized = True
 					if midfilter is not NULL:
 						updatemidfilter(midfilter[0], left, right, lhs, nts)
@@ -706,8 +716,7 @@ cdef populatepos(CFGChart_fused chart, sent, tags,
 		if not recognized and tag is not None:
 			for lhs in grammar.lexicallhs:
 				if tagre.match(grammar.tolabel[lhs]):
-					chart.updateprob(cell + lhs, 0.0, 0.0)
-					chart.addedge(cell + lhs, right, NULL)
+					chart.addlexedge(cell + lhs, right, 0.0)
 					recognized = True
 					if midfilter is not NULL:
 						updatemidfilter(midfilter[0], left, right, lhs, nts)
diff --git a/discodop/plcfrs.pxd b/discodop/plcfrs.pxd
index d08c1b6..8f00184 100644
--- a/discodop/plcfrs.pxd
+++ b/discodop/plcfrs.pxd
@@ -27,7 +27,7 @@ ctypedef fused LCFRSItem_fused:
 	FatChartItem
 
 cdef class LCFRSChart(Chart):
-	cdef void addlexedge(self, ItemNo itemidx, short wordidx)
+	cdef void addlexedge(self, ItemNo itemidx, short wordidx, Prob prob)
 	cdef void updateprob(self, ItemNo itemidx, Prob prob)
 	cdef void addprob(self, ItemNo itemidx, Prob prob)
 	cdef Prob _subtreeprob(self, ItemNo itemidx)
diff --git a/discodop/plcfrs.pyx b/discodop/plcfrs.pyx
index b41e078..eee1667 100644
--- a/discodop/plcfrs.pyx
+++ b/discodop/plcfrs.pyx
@@ -28,12 +28,13 @@ cdef class LCFRSChart(Chart):
 		self.logprob = logprob
 		self.viterbi = viterbi
 
-	cdef void addlexedge(self, ItemNo itemidx, short wordidx):
+	cdef void addlexedge(self, ItemNo itemidx, short wordidx, Prob prob):
 		"""Add lexical edge."""
 		cdef Edge edge
 		edge.rule = NULL
 		edge.pos.mid = wordidx + 1
 		self.parseforest[itemidx].push_back(edge)
+		self.lexprobs[itemidx] = prob
 
 	cdef void updateprob(self, ItemNo itemidx, Prob prob):
 		if prob < self.probs[itemidx]:
@@ -739,9 +740,8 @@ cdef populatepos(Grammar grammar,
 								lexrule.lhs, length, left + right, gaps]
 						if score > MAX_LOGPROB:
 							continue
-					# NB: do NOT add length of span to score, so that the
-					# scores of POS tags are all strictly smaller than any
-					# unaries on them.
+					else:  # length of span; cf. parse_main()
+						score += MAX_LOGPROB
 					newitem.label = lexrule.lhs
 					if LCFRSItem_fused is SmallChartItem:
 						newitem.vec = 1UL << wordidx
@@ -775,6 +775,8 @@ cdef populatepos(Grammar grammar,
 						memset(<void *>newitem.vec, 0, SLOTS * sizeof(uint64_t))
 						SETBIT(newitem.vec, wordidx)
 					score = lexrule.prob - pylog(openclassfactor)
+					if estimates is None:  # length of span; cf. parse_main()
+						score += MAX_LOGPROB
 					# process_lexedge checks that tag is not already in agenda
 					if process_lexedge[LCFRSItem_fused, LCFRSChart_fused](
 							newitem, lexrule.prob - pylog(openclassfactor),
@@ -798,6 +800,8 @@ cdef populatepos(Grammar grammar,
 						score += outside[lhs, length, left + right, gaps]
 						if score > MAX_LOGPROB:
 							continue
+					else:  # length of span; cf. parse_main()
+						score += MAX_LOGPROB
 					newitem.label = lhs
 					if LCFRSItem_fused is SmallChartItem:
 						newitem.vec = 1UL << wordidx
@@ -871,7 +875,7 @@ cdef inline int process_lexedge(LCFRSItem_fused newitem,
 	scoreprob.second = prob
 	agenda.setitem(itemidx, scoreprob)
 	# assert not agenda.empty(), agenda.size()
-	chart.addlexedge(itemidx, wordidx)
+	chart.addlexedge(itemidx, wordidx, prob)
 	return True
 
 
-- 
2.43.0


From c4c06e9bbdb9b966ef6d2752f8a98681c97249ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:12 +0000
Subject: [PATCH 079/173] fix: k-best derivations of different items were
 confused with each other

---
 discodop/kbest.pxd |  2 ++
 discodop/kbest.pyx | 20 +++++++++-----------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/discodop/kbest.pxd b/discodop/kbest.pxd
index 4546020..b14834b 100644
--- a/discodop/kbest.pxd
+++ b/discodop/kbest.pxd
@@ -9,6 +9,8 @@ from .pcfg cimport CFGChart, DenseCFGChart, SparseCFGChart
 from .plcfrs cimport LCFRSChart, SmallLCFRSChart, FatLCFRSChart
 
 ctypedef sparse_hash_map[ItemNo, RankedEdgeAgenda[Prob]] agendas_type
+# NB: a RankedEdge does not identify the vertex it belongs to
+ctypedef sparse_hash_map[ItemNo, RankedEdgeSet] explored_type
 
 cdef string getderiv(ItemNo v, RankedEdge ej, Chart chart)
 cdef collectitems(ItemNo v, RankedEdge& ej, Chart chart, itemset)
diff --git a/discodop/kbest.pyx b/discodop/kbest.pyx
index f81c141..b372fd1 100644
--- a/discodop/kbest.pyx
+++ b/discodop/kbest.pyx
@@ -54,12 +54,12 @@ cdef RankedEdgeAgenda[Prob] getcandidates(Chart chart, ItemNo v, int k):
 
 
 cdef lazykthbest(ItemNo v, int k, int k1, agendas_type& cand, Chart chart,
-		RankedEdgeSet& explored, int depthlimit):
+		explored_type& explored, int depthlimit):
 	""""Explore up to *k*-best derivations headed by vertex *v*.
 
 	:param k1: the global k, with ``k <= k1``
 	:param cand: contains a queue of edges to consider for each vertex
-	:param explored: a set of all edges already visited."""
+	:param explored: for each vertex, a set of all edges already visited."""
 	cdef pair[RankedEdge, Prob] entry
 	cdef RankedEdge ej, ej1
 	cdef int ji
@@ -96,11 +96,11 @@ cdef lazykthbest(ItemNo v, int k, int k1, agendas_type& cand, Chart chart,
 					# if it exists and is not in heap yet
 					if (chart.rankededges[ei].size() != 0
 							and ji < <int>chart.rankededges[ei].size()
-							and explored.count(ej1) == 0):
+							and explored[v].count(ej1) == 0):
 						# 	and cand[v]): gives duplicates
 						# add it to the heap
 						cand[v].setitem(ej1, getprob(chart, v, ej1))
-						explored.insert(ej1)
+						explored[v].insert(ej1)
 			# end of lazynext
 		if cand[v].empty():
 			break
@@ -136,7 +136,7 @@ cdef inline Prob getprob(Chart chart, ItemNo v, RankedEdge& ej) except -1:
 
 
 cdef int explorederivation(ItemNo v, RankedEdge& ej, Chart chart,
-		RankedEdgeSet& explored, int depthlimit) except -2:
+		int depthlimit) except -2:
 	"""Traverse derivation to ensure all 1-best RankedEdges are present.
 
 	:returns: True when ``ej`` is a valid, complete derivation."""
@@ -156,10 +156,9 @@ cdef int explorederivation(ItemNo v, RankedEdge& ej, Chart chart,
 				abort()
 			entry = tmp.pop()
 			chart.rankededges[leftitem].push_back(entry)
-			explored.insert(entry.first)
 		if not explorederivation(leftitem,
 				chart.rankededges[leftitem][ej.left].first,
-				chart, explored, depthlimit - 1):
+				chart, depthlimit - 1):
 			return False
 	if ej.right != -1:
 		rightitem = chart.right(v, ej)
@@ -171,10 +170,9 @@ cdef int explorederivation(ItemNo v, RankedEdge& ej, Chart chart,
 				abort()
 			entry = tmp.pop()
 			chart.rankededges[rightitem].push_back(entry)
-			explored.insert(entry.first)
 		return explorederivation(rightitem,
 				chart.rankededges[rightitem][ej.right].first,
-				chart, explored, depthlimit - 1)
+				chart, depthlimit - 1)
 	return True
 
 
@@ -272,7 +270,7 @@ def lazykbest(Chart chart, int k, bint derivs=True):
 
 	:param k: the number of derivations to enumerate."""
 	cdef agendas_type cand
-	cdef RankedEdgeSet explored
+	cdef explored_type explored
 	cdef pair[RankedEdge, Prob] entry
 	cdef vector[pair[RankedEdge, Prob]] tmp
 	cdef ItemNo root = chart.root()
@@ -283,7 +281,7 @@ def lazykbest(Chart chart, int k, bint derivs=True):
 	chart.rankededges.resize(chart.parseforest.size())
 	lazykthbest(root, k, k, cand, chart, explored, MAX_DEPTH)
 	for entry in chart.rankededges[root]:
-		if explorederivation(root, entry.first, chart, explored, MAX_DEPTH):
+		if explorederivation(root, entry.first, chart, MAX_DEPTH):
 			tmp.push_back(entry)
 		n += 1
 		if n >= k:
-- 
2.43.0


From 9b73714c0c3ab6eb6391ce5ec6826ead777e188e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:44 +0000
Subject: [PATCH 080/173] fix: PCFG parsing with whitelist used items from
 wrong cells

---
 discodop/pcfg.pyx | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/discodop/pcfg.pyx b/discodop/pcfg.pyx
index f0ee407..2cd3cb6 100644
--- a/discodop/pcfg.pyx
+++ b/discodop/pcfg.pyx
@@ -562,7 +562,7 @@ cdef parse_leftchildloop(sent, SparseCFGChart chart, tags,
 		short left, right, mid, span, lensent = len(sent)
 		CFGItem li
 		bint usemask = grammar.mask.size() != 0
-	cellindex.resize(cellidx(lensent - 1, lensent, lensent, 1) + 2, 0)
+	cellindex.resize(cellidx(lensent - 1, lensent, lensent, 1) + 1, 0)
 	if beam_beta:
 		chart.beambuckets.resize(
 				cellidx(lensent - 1, lensent, lensent, 1) + 1, INFINITY)
@@ -583,9 +583,12 @@ cdef parse_leftchildloop(sent, SparseCFGChart chart, tags,
 			for mid in range(left + 1, right):
 				rightcell = cellstruct(mid, right)
 				leftitemidx = cellindex[cellidx(left, mid, lensent, 1)]
-				leftitem = chart.items[leftitemidx]
-				li.dt = leftitem
-				while li.st.end == mid:
+				# NB: the items of a cell are contiguous; the cell may be empty
+				while leftitemidx < lastidx:
+					leftitem = chart.items[leftitemidx]
+					li.dt = leftitem
+					if li.st.start != left or li.st.end != mid:
+						break
 					leftprob = (<Chart>chart).subtreeprob(leftitemidx)
 					rhs1 = chart._label(leftitem)
 					n = 0
@@ -612,12 +615,9 @@ cdef parse_leftchildloop(sent, SparseCFGChart chart, tags,
 						n += 1
 						rule = &(grammar.lbinary[rhs1][n])
 					leftitemidx += 1
-					leftitem = chart.items[leftitemidx]
-					li.dt = leftitem
 
 			applyunaryrules(chart, left, right, cell, lastidx, unaryagenda,
 					NULL, &blocked, whitelist)
-			cellindex[ccell + 1] = chart.items.size()
 	msg = '%s%s, blocked %s' % (
 			'' if chart else 'no parse; ', chart.stats(), blocked)
 	return chart, msg
@@ -732,8 +732,6 @@ cdef populatepos(CFGChart_fused chart, sent, tags,
 		# unary rules on the span of this POS tag
 		applyunaryrules[CFGChart_fused](chart, left, right, cell, lastidx,
 				unaryagenda, midfilter, blocked, whitelist)
-	if cellindex is not NULL:
-		cellindex[0][ccell + 1] = chart.items.size()
 	return True, ''
 
 
-- 
2.43.0


From 01aafeeb8c304af2257540b2f3b08ff37f8df963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:15 +0000
Subject: [PATCH 081/173] fix: item IDs of non-contiguous spans, and of charts
 with white lists

---
 discodop/pcfg.pyx | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/discodop/pcfg.pyx b/discodop/pcfg.pyx
index 2cd3cb6..a633d55 100644
--- a/discodop/pcfg.pyx
+++ b/discodop/pcfg.pyx
@@ -202,12 +202,15 @@ cdef class DenseCFGChart(CFGChart):
 	def itemid1(self, Label labelid, indices, Whitelist whitelist=None):
 		cdef short left = min(indices)
 		cdef short right = max(indices) + 1
+		if len(indices) != right - left:  # not a contiguous span
+			return 0
 		item = cellidx(left, right, self.lensent,
 				self.grammar.nonterminals) + labelid
-		if whitelist is not None:
-			return whitelist.cfg[cellidx(left, right, self.lensent, 1)
-					].count(whitelist.mapping[labelid]) != 0 and item
-		return self.parseforest[item].size() != 0 and item
+		if whitelist is not None and whitelist.cfg[
+				cellidx(left, right, self.lensent, 1)
+				].count(whitelist.mapping[labelid]) == 0:
+			return 0
+		return item if self.parseforest[item].size() != 0 else 0
 
 	cdef SmallChartItem asSmallChartItem(self, ItemNo itemidx):
 		cdef CFGItem item
@@ -383,11 +386,14 @@ cdef class SparseCFGChart(CFGChart):
 	def itemid1(self, Label labelid, indices, Whitelist whitelist=None):
 		cdef short left = min(indices)
 		cdef short right = max(indices) + 1
-		item = cellstruct(left, right) + labelid
-		if whitelist is not None:
-			return whitelist.cfg[cellidx(left, right, self.lensent, 1)
-					].count(whitelist.mapping[labelid]) != 0 and item
-		return self.itemindex.find(item) != self.itemindex.end() and item
+		if len(indices) != right - left:  # not a contiguous span
+			return 0
+		if whitelist is not None and whitelist.cfg[
+				cellidx(left, right, self.lensent, 1)
+				].count(whitelist.mapping[labelid]) == 0:
+			return 0
+		it = self.itemindex.find(cellstruct(left, right) + labelid)
+		return dereference(it).second if it != self.itemindex.end() else 0
 
 	cdef SmallChartItem asSmallChartItem(self, ItemNo itemidx):
 		cdef CFGItem item
-- 
2.43.0


From 170aae8e620dce0ddc50b5a76a4f14b78e8e74d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:15 +0000
Subject: [PATCH 082/173] fix: spans of chart items in sentences of 256 words
 or more

---
 discodop/containers.pxd | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discodop/containers.pxd b/discodop/containers.pxd
index 33538b2..4f21c49 100644
--- a/discodop/containers.pxd
+++ b/discodop/containers.pxd
@@ -736,7 +736,8 @@ cdef inline short cellstart(size_t cell, short lensent,
 		Label nonterminals):
 	"""Retrieve start position for a given chart cell."""
 	cell = cell // nonterminals
-	cdef short start = 0, idx = 0
+	cdef short start = 0
+	cdef size_t idx = 0
 	while idx + lensent <= cell:
 		idx += lensent
 		lensent -= 1
@@ -758,7 +759,8 @@ cdef inline short cellend(size_t cell, short lensent,
 		Label nonterminals):
 	"""Retrieve end position for a given chart cell."""
 	cell = cell // nonterminals
-	cdef short start = 0, idx = 0
+	cdef short start = 0
+	cdef size_t idx = 0
 	while idx + lensent <= cell:
 		idx += lensent
 		lensent -= 1
-- 
2.43.0


From 31147721ce329adcccb8b3a627cb6809846b51c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:59 +0000
Subject: [PATCH 083/173] fix: memory corruption with sentences of 128 words or
 more

---
 discodop/plcfrs.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/discodop/plcfrs.pyx b/discodop/plcfrs.pyx
index eee1667..87578c5 100644
--- a/discodop/plcfrs.pyx
+++ b/discodop/plcfrs.pyx
@@ -351,6 +351,9 @@ def parse(sent, Grammar grammar, tags=None, bint exhaustive=True,
 				sent, grammar, tags, exhaustive, whitelist,
 				splitprune, markorigin, estimates, beam_beta, beam_delta,
 				postagging)
+	if <unsigned>len(sent) >= SLOTS * sizeof(unsigned long) * 8:
+		raise ValueError('sentence too long: %d words; maximum is %d.' % (
+				len(sent), SLOTS * sizeof(unsigned long) * 8 - 1))
 	chart = FatLCFRSChart(grammar, list(sent), start,
 			itemsestimate=itemsestimate)
 	return parse_main[FatLCFRSChart, FatChartItem](
-- 
2.43.0


From 28981dbbd97ade1c559de33db25f5848eb0e3dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:03 +0000
Subject: [PATCH 084/173] fix: duplicate edges for unary rules due to wrong
 priorities

---
 discodop/pcfg.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/pcfg.pyx b/discodop/pcfg.pyx
index a633d55..66186e5 100644
--- a/discodop/pcfg.pyx
+++ b/discodop/pcfg.pyx
@@ -761,7 +761,7 @@ cdef inline void applyunaryrules(
 	for itemidx in range(lastidx, chart.items.size()):
 		item = chart.items[itemidx]
 		unaryagenda.setifbetter(
-				chart._label(item), (<Chart>chart).subtreeprob(itemidx))
+				chart._label(item), chart._subtreeprob(item))
 	# 	unaryentry.first = chart._label(item)
 	# 	unaryentry.second = chart._subtreeprob(item)
 	# 	unaryentries.push_back(unaryentry)
-- 
2.43.0


From c495511302caaa021d977c8272adaeec1ab7c241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 085/173] fix: yield function of unary rules in bitpar format

---
 discodop/_grammar.pxi | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index c28cabe..96cace3 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -424,7 +424,7 @@ cdef class Grammar:
 				fields.erase(fields.begin())
 				rule = fields
 				# NB: leave yf at b'<none>'
-				if rule.size() > 1:
+				if rule.size() > 2:
 					cur.args, cur.lengths = 0b10, 0b10
 				else:
 					cur.args, cur.lengths = 0b0, 0b1
-- 
2.43.0


From 918660dc3170ab536bee2467aaaf429c5f38f821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 086/173] fix: rules missing from coarse grammar were mapped to
 first rule

---
 discodop/_grammar.pxi | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index 96cace3..265bfbc 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -968,7 +968,11 @@ cdef class Grammar:
 			key.rhs2 = coarse.toid[striplabelre.sub(
 					'', self.tolabel[rule.rhs2], 1)]
 			key.args, key.lengths = rule.args, rule.lengths
-			m = coarse.rulenos[key]
+			it = coarse.rulenos.find(key)
+			if it == coarse.rulenos.end():
+				raise KeyError('no rule in coarse grammar for %s' % (
+						self.rulestr(n)))
+			m = dereference(it).second
 			rulemapping[m].append(rule.no)
 		if self is coarse:
 			self.selfrulemapping = rulemapping
-- 
2.43.0


From cf3a7b00d9e51c932bfad5eed4d4dc71f5440bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 087/173] fix: report coarse labels without mapping only if
 there are any

---
 discodop/_grammar.pxi | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index 265bfbc..6c6151d 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -909,6 +909,7 @@ cdef class Grammar:
 				else:
 					try:
 						result[n] = coarse.toid[strlabel]
+						seen.add(result[n])
 						if not selfmap:
 							self.revmap[result[n]].push_back(n)
 					except KeyError:
-- 
2.43.0


From caa2e96a0383223e8c75e15ed23dc8f57d869aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:42 +0000
Subject: [PATCH 088/173] fix: probabilities of rules that occur more than once
 in a grammar

---
 discodop/_grammar.pxi | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/discodop/_grammar.pxi b/discodop/_grammar.pxi
index 6c6151d..c9774af 100644
--- a/discodop/_grammar.pxi
+++ b/discodop/_grammar.pxi
@@ -333,19 +333,23 @@ cdef class Grammar:
 
 		if init:  # slightly faster way of normalizing than switch()
 			for n in range(self.numrules):
-				self._bylhs[n].prob = fabs(log(self._bylhs[n].prob
+				self._bylhs[n].prob = fabs(log(
+						self.rulecounts[self._bylhs[n].no]
 						/ self.freqmass[self._bylhs[n].lhs]))
 			for n in range(self.numbinary):
-				self._lbinary[n].prob = fabs(log(self._lbinary[n].prob
+				self._lbinary[n].prob = fabs(log(
+						self.rulecounts[self._lbinary[n].no]
 						/ self.freqmass[self._lbinary[n].lhs]))
 			for n in range(self.numbinary):
-				self._rbinary[n].prob = fabs(log(self._rbinary[n].prob
+				self._rbinary[n].prob = fabs(log(
+						self.rulecounts[self._rbinary[n].no]
 						/ self.freqmass[self._rbinary[n].lhs]))
 			for n in range(self.numunary):
-				self._unary[n].prob = fabs(log(self._unary[n].prob
+				self._unary[n].prob = fabs(log(
+						self.rulecounts[self._unary[n].no]
 						/ self.freqmass[self._unary[n].lhs]))
 			for n in range(self.lexical.size()):
-				self.lexical[n].prob = fabs(log(self.lexical[n].prob
+				self.lexical[n].prob = fabs(log(self.lexcounts[n]
 						/ self.freqmass[self.lexical[n].lhs]))
 			self.currentmodel = 'default'
 
-- 
2.43.0


From 1e4df35fde1315dd9d79aff6d95b6eb3ddfdc465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:36 +0000
Subject: [PATCH 089/173] fix: pruning with split discontinuous nodes never
 pruned continuous items

---
 discodop/plcfrs.pyx | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/discodop/plcfrs.pyx b/discodop/plcfrs.pyx
index 87578c5..95c64d7 100644
--- a/discodop/plcfrs.pyx
+++ b/discodop/plcfrs.pyx
@@ -890,21 +890,19 @@ cdef inline bint checkwhitelist(LCFRSItem_fused newitem, Whitelist whitelist,
 	cdef int a, b
 	if whitelist is None:
 		return True
-	elif splitprune:  # disc. item to be treated as several split items?
+	# disc. item to be treated as several split items?
+	elif splitprune and (not markorigin
+			or whitelist.splitmapping[newitem.label].size() != 0):
 		b = 0
 		if markorigin:
 			cnt = 0
-			if whitelist.splitmapping[newitem.label].size() == 0:
-				return True
 		else:
-			if whitelist.mapping[newitem.label] != 0:
+			if whitelist.mapping[newitem.label] == 0:
 				return True
 			if LCFRSItem_fused is SmallChartItem:
-				COMPONENT.label = whitelist.splitmapping[
-						newitem.label][0]
+				COMPONENT.label = whitelist.mapping[newitem.label]
 			elif LCFRSItem_fused is FatChartItem:
-				FATCOMPONENT.label = whitelist.splitmapping[
-						newitem.label][0]
+				FATCOMPONENT.label = whitelist.mapping[newitem.label]
 		if LCFRSItem_fused is SmallChartItem:
 			a = nextset(newitem.vec, b)
 			while a != -1:
-- 
2.43.0


From c64ab2dd6389ae893fd7c815830b9a4190c968a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:36 +0000
Subject: [PATCH 090/173] fix: looking up items with labels that are never
 pruned

---
 discodop/pcfg.pyx   | 12 ++++++------
 discodop/plcfrs.pyx | 24 +++++++++++-------------
 2 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/discodop/pcfg.pyx b/discodop/pcfg.pyx
index 66186e5..fcea59a 100644
--- a/discodop/pcfg.pyx
+++ b/discodop/pcfg.pyx
@@ -206,9 +206,9 @@ cdef class DenseCFGChart(CFGChart):
 			return 0
 		item = cellidx(left, right, self.lensent,
 				self.grammar.nonterminals) + labelid
-		if whitelist is not None and whitelist.cfg[
-				cellidx(left, right, self.lensent, 1)
-				].count(whitelist.mapping[labelid]) == 0:
+		if (whitelist is not None and whitelist.mapping[labelid]
+				and whitelist.cfg[cellidx(left, right, self.lensent, 1)
+				].count(whitelist.mapping[labelid]) == 0):
 			return 0
 		return item if self.parseforest[item].size() != 0 else 0
 
@@ -388,9 +388,9 @@ cdef class SparseCFGChart(CFGChart):
 		cdef short right = max(indices) + 1
 		if len(indices) != right - left:  # not a contiguous span
 			return 0
-		if whitelist is not None and whitelist.cfg[
-				cellidx(left, right, self.lensent, 1)
-				].count(whitelist.mapping[labelid]) == 0:
+		if (whitelist is not None and whitelist.mapping[labelid]
+				and whitelist.cfg[cellidx(left, right, self.lensent, 1)
+				].count(whitelist.mapping[labelid]) == 0):
 			return 0
 		it = self.itemindex.find(cellstruct(left, right) + labelid)
 		return dereference(it).second if it != self.itemindex.end() else 0
diff --git a/discodop/plcfrs.pyx b/discodop/plcfrs.pyx
index 95c64d7..d59b600 100644
--- a/discodop/plcfrs.pyx
+++ b/discodop/plcfrs.pyx
@@ -151,12 +151,13 @@ cdef class SmallLCFRSChart(LCFRSChart):
 		cdef SmallChartItem tmp, tmp1
 		vec = sum(1 << n for n in indices)
 		tmp = SmallChartItem(labelid, vec)
-		if whitelist is not None:
+		if whitelist is not None and whitelist.mapping[labelid]:
 			tmp1.label = whitelist.mapping[labelid]
 			tmp1.vec = tmp.vec
-			return (whitelist.small[tmp1.label].count(tmp1)
-					and self.itemindex[tmp])
-		return self.itemindex[tmp]
+			if whitelist.small[tmp1.label].count(tmp1) == 0:
+				return 0
+		it = self.itemindex.find(tmp)
+		return dereference(it).second if it != self.itemindex.end() else 0
 
 	cdef SmallChartItem asSmallChartItem(self, ItemNo itemidx):
 		return self.items[itemidx]
@@ -279,16 +280,13 @@ cdef class FatLCFRSChart(LCFRSChart):
 			if n >= SLOTS * sizeof(unsigned long) * 8:
 				return 0
 			SETBIT(tmp.vec, n)
-		if whitelist is not None:
-			tmp1 = FatChartItem(labelid)
+		if whitelist is not None and whitelist.mapping[labelid]:
+			tmp1 = tmp
 			tmp1.label = whitelist.mapping[labelid]
-			for n in indices:
-				if n >= SLOTS * sizeof(unsigned long) * 8:
-					return 0
-				SETBIT(tmp1.vec, n)
-			return (whitelist.fat[tmp1.label].count(tmp1) != 0
-					and self.itemindex[tmp])
-		return self.itemindex[tmp]
+			if whitelist.fat[tmp1.label].count(tmp1) == 0:
+				return 0
+		it = self.itemindex.find(tmp)
+		return dereference(it).second if it != self.itemindex.end() else 0
 
 	cdef SmallChartItem asSmallChartItem(self, ItemNo itemidx):
 		raise ValueError
-- 
2.43.0


From 9ce885cfd115f7e604109f9e80b6999130b0ae08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:52 +0000
Subject: [PATCH 091/173] fix: inside and outside probabilities with items not
 added bottom up

---
 discodop/coarsetofine.pyx | 41 +++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/discodop/coarsetofine.pyx b/discodop/coarsetofine.pyx
index 91339cc..639f5d5 100644
--- a/discodop/coarsetofine.pyx
+++ b/discodop/coarsetofine.pyx
@@ -211,25 +211,47 @@ def posteriorthreshold(Chart chart, double threshold):
 	return posterior, msg
 
 
+cdef list bottomup(Chart chart):
+	"""Order items such that children precede parents (excepting cycles)."""
+	cdef ItemNo n, item
+	cdef Edge edge
+	cdef list result = [], stack
+	cdef set seen = set()
+	for n in range(1, chart.numitems() + 1):
+		# the second value is whether the children have been visited
+		stack = [(chart.getitemidx(n), False)]
+		while stack:
+			item, done = stack.pop()
+			if done:
+				result.append(item)
+			elif item not in seen:
+				seen.add(item)
+				stack.append((item, True))
+				for edge in chart.parseforest[item]:
+					if edge.rule is NULL:
+						continue
+					stack.append((chart._left(item, edge), False))
+					if edge.rule.rhs2 != 0:
+						stack.append((chart._right(item, edge), False))
+	return result
+
+
 def getinside(Chart chart):
 	"""Compute inside probabilities for a chart given its parse forest."""
-	# this needs to be bottom up, so need order in which items were added
-	# currently separate list, chart.itemsinorder
-	# NB: sorting items by length is not enough,
-	# unaries have to be in the right order...
+	# NB: the order in which items were added is not necessarily bottom up;
+	# e.g., a unary rule may derive a POS tag which was already in the chart.
 
 	# choices for probs:
 	# - normal => underflow (current)
 	# - logprobs => loss of precision w/addition
 	# - normal, scaled => how?
-	cdef ItemNo n, item, leftitem, rightitem
+	cdef ItemNo item, leftitem, rightitem
 	cdef Edge edge
 	cdef double prob
 	chart.inside.resize(chart.probs.size(), 0.0)
 
 	# traverse items in bottom-up order
-	for n in range(1, chart.numitems() + 1):
-		item = chart.getitemidx(n)
+	for item in bottomup(chart):
 		for edge in chart.parseforest[item]:
 			if edge.rule is NULL:
 				prob = chart.lexprob(item, edge)
@@ -249,15 +271,14 @@ def getinside(Chart chart):
 
 def getoutside(Chart chart):
 	"""Compute outside probabilities for a chart given its parse forest."""
-	cdef ItemNo n, item, leftitem, rightitem
+	cdef ItemNo item, leftitem, rightitem
 	cdef Edge edge
 	cdef double outsideprob
 	# cdef double sentprob = chart.inside[chart.root()]
 	# traverse items in top-down order
 	chart.outside.resize(chart.probs.size(), 0.0)
 	chart.outside[chart.root()] = 1.0
-	for n in range(chart.numitems(), 0, -1):
-		item = chart.getitemidx(n)
+	for item in reversed(bottomup(chart)):
 		# can we define outside[item] simply as sentprob - inside[item] ?
 		# chart.outside[item] = sentprob - chart.inside[item]
 		for edge in chart.parseforest[item]:
-- 
2.43.0


From efc92ed2620597e21cf090382e63fa383f57e85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:39 +0000
Subject: [PATCH 092/173] fix: outside estimates failed with numpy 2

---
 discodop/estimates.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/estimates.pyx b/discodop/estimates.pyx
index d36a161..f631f39 100644
--- a/discodop/estimates.pyx
+++ b/discodop/estimates.pyx
@@ -347,7 +347,7 @@ def getestimates(Grammar grammar, uint32_t maxlen, str rootlabel):
 			* (maxlen + 1) / 1024 ** 2), 'MB')
 	insidescores = np.empty((grammar.nonterminals, (maxlen + 1)), dtype='d')
 	outside = np.empty((grammar.nonterminals, ) + 3 * (maxlen + 1, ), dtype='d')
-	insidescores[...] = np.NAN
+	insidescores[...] = np.nan
 	outside[...] = np.inf
 	print("getting inside estimates")
 	simpleinside(grammar, maxlen, insidescores)
@@ -696,7 +696,7 @@ cpdef testestimates(Grammar grammar, uint32_t maxlen, str rootlabel):
 			# 		exp(insidescores[a][b]))
 	print(len(insidescores) * sum(map(len, insidescores.values())), '\n')
 	insidescores = np.empty((grammar.nonterminals, (maxlen + 1)), dtype='d')
-	insidescores[...] = np.NAN
+	insidescores[...] = np.nan
 	simpleinside(grammar, maxlen, insidescores)
 	insidescores[np.isnan(insidescores)] = np.inf
 	print("inside")
-- 
2.43.0


From 93dcc1b708c52165140fbd1fa83c801e798b4048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:58 +0000
Subject: [PATCH 093/173] fix: inside estimates ignored rules beyond the number
 of non-terminals

---
 discodop/estimates.pyx | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/discodop/estimates.pyx b/discodop/estimates.pyx
index f631f39..9c3aef2 100644
--- a/discodop/estimates.pyx
+++ b/discodop/estimates.pyx
@@ -116,7 +116,7 @@ def simpleinside(Grammar grammar, uint32_t maxlen, double [:, :] insidescores):
 				or x < insidescores[item.label, item.vec]):
 			insidescores[item.label, item.vec] = x
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numunary):
 			rule = grammar.unary[item.label][i]
 			if rule.rhs1 != item.label:
 				break
@@ -124,7 +124,7 @@ def simpleinside(Grammar grammar, uint32_t maxlen, double [:, :] insidescores):
 				agenda.setifbetter(
 						SmallChartItem(rule.lhs, item.vec), rule.prob + x)
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numbinary):
 			rule = grammar.lbinary[item.label][i]
 			if rule.rhs1 != item.label:
 				break
@@ -135,7 +135,7 @@ def simpleinside(Grammar grammar, uint32_t maxlen, double [:, :] insidescores):
 							SmallChartItem(rule.lhs, item.vec + vec),
 							rule.prob + x + insidescores[rule.rhs2, vec])
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numbinary):
 			rule = grammar.rbinary[item.label][i]
 			if rule.rhs2 != item.label:
 				break
@@ -170,7 +170,7 @@ def inside(Grammar grammar, uint32_t maxlen, dict insidescores):
 		if x < insidescores[item.label].get(item.vec, INFINITY):
 			insidescores[item.label][item.vec] = x
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numunary):
 			rule = grammar.unary[item.label][i]
 			if rule.rhs1 != item.label:
 				break
@@ -179,7 +179,7 @@ def inside(Grammar grammar, uint32_t maxlen, dict insidescores):
 				agenda.setifbetter(
 						SmallChartItem(rule.lhs, item.vec), rule.prob + x)
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numbinary):
 			rule = grammar.lbinary[item.label][i]
 			if rule.rhs1 != item.label:
 				break
@@ -192,7 +192,7 @@ def inside(Grammar grammar, uint32_t maxlen, dict insidescores):
 					agenda.setifbetter(SmallChartItem(rule.lhs, left),
 							rule.prob + x + insidescores[rule.rhs2][vec])
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numbinary):
 			rule = grammar.rbinary[item.label][i]
 			if rule.rhs2 != item.label:
 				break
@@ -420,7 +420,7 @@ cdef pcfginsidesx(Grammar grammar, uint32_t maxlen):
 				or x < insidescores[item.vec][item.label]):
 			insidescores[item.vec][item.label] = x
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numunary):
 			rule = grammar.unary[item.label][i]
 			if rule.rhs1 != item.label:
 				break
@@ -428,7 +428,7 @@ cdef pcfginsidesx(Grammar grammar, uint32_t maxlen):
 				agenda.setifbetter(
 						SmallChartItem(rule.lhs, item.vec), rule.prob + x)
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numbinary):
 			rule = grammar.lbinary[item.label][i]
 			if rule.rhs1 != item.label:
 				break
@@ -439,7 +439,7 @@ cdef pcfginsidesx(Grammar grammar, uint32_t maxlen):
 							SmallChartItem(rule.lhs, item.vec + vec),
 							rule.prob + x + insidescores[vec][rule.rhs2])
 
-		for i in range(grammar.nonterminals):
+		for i in range(grammar.numbinary):
 			rule = grammar.rbinary[item.label][i]
 			if rule.rhs2 != item.label:
 				break
-- 
2.43.0


From 1778e8c7f63557d5c411a5b5dae464541f16d769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:58 +0000
Subject: [PATCH 094/173] fix: LR estimate was not admissible when a gap
 becomes part of the context

---
 discodop/estimates.pyx | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/discodop/estimates.pyx b/discodop/estimates.pyx
index 9c3aef2..a92e16a 100644
--- a/discodop/estimates.pyx
+++ b/discodop/estimates.pyx
@@ -238,7 +238,7 @@ def outsidelr(Grammar grammar, double [:, :] insidescores,
 	cdef Item item
 	cdef ProbRule rule
 	cdef double x, insidescore, current, score
-	cdef int n, totlen, addgaps, addright, leftfanout, rightfanout
+	cdef int n, totlen, addgaps, addleft, addright, leftfanout, rightfanout
 	cdef int lenA, lenB, lr, ga
 	cdef size_t i
 	cdef bint stopaddleft, stopaddright
@@ -280,6 +280,10 @@ def outsidelr(Grammar grammar, double [:, :] insidescores,
 						addright += 1
 				elif not stopaddright:
 					stopaddright = True
+			addleft = 0
+			while testbit(rule.args, addleft):
+				addleft += 1
+			addgaps -= addleft
 
 			leftfanout = grammar.fanout[rule.rhs1]
 			rightfanout = grammar.fanout[rule.rhs2]
@@ -288,8 +292,9 @@ def outsidelr(Grammar grammar, double [:, :] insidescores,
 			for lenA in range(leftfanout, item.length - rightfanout + 1):
 				lenB = item.length - lenA
 				insidescore = insidescores[rule.rhs2, lenB]
-				for lr in range(item.lr, item.lr + lenB + 2):  # FIXME: why 2?
-					if addright == 0 and lr != item.lr:
+				# the sibling as well as gaps may end up to the left or right
+				for lr in range(item.lr, item.lr + lenB + item.gaps + 1):
+					if addleft == addright == 0 and lr != item.lr:
 						continue
 					for ga in range(leftfanout - 1, totlen + 1):
 						if (lenA + lr + ga == item.length + item.lr + item.gaps
@@ -323,7 +328,7 @@ def outsidelr(Grammar grammar, double [:, :] insidescores,
 			for lenA in range(rightfanout, item.length - leftfanout + 1):
 				lenB = item.length - lenA
 				insidescore = insidescores[rule.rhs1, lenB]
-				for lr in range(item.lr, item.lr + lenB + 2):  # FIXME: why 2?
+				for lr in range(item.lr, item.lr + lenB + item.gaps + 1):
 					for ga in range(rightfanout - 1, totlen + 1):
 						if (lenA + lr + ga == item.length + item.lr + item.gaps
 								and ga >= addgaps):
-- 
2.43.0


From f1c9bd13625a3f25a088b194fcf044bce389f95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:08 +0000
Subject: [PATCH 095/173] fix: estimates were used for sentences longer than
 they were computed for

---
 discodop/plcfrs.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/plcfrs.pyx b/discodop/plcfrs.pyx
index d59b600..6aa137c 100644
--- a/discodop/plcfrs.pyx
+++ b/discodop/plcfrs.pyx
@@ -340,6 +340,8 @@ def parse(sent, Grammar grammar, tags=None, bint exhaustive=True,
 	:param beam_delta: the maximum span length to which beam search is applied.
 	:param itemsestimate: the number of chart items to pre-allocate.
 	"""
+	if estimates is not None and len(sent) >= estimates[1].shape[1]:
+		estimates = None  # computed for shorter sentences
 	if <unsigned>len(sent) < sizeof(COMPONENT.vec) * 8:
 		chart = SmallLCFRSChart(grammar, list(sent), start,
 			itemsestimate=itemsestimate)
-- 
2.43.0


From 62671af56401119e51a350fcb867bf63a8f7471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:02 +0000
Subject: [PATCH 096/173] fix: treetransforms ignored --markovthreshold

---
 discodop/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index cef1c4b..b83bba8 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -332,7 +332,7 @@ where input and output are treebanks; standard in/output is used if not given.
 				yield key, item
 
 		trees = applytransforms(trees)
-		if 'binarize' in opts and '--markovthreshold' in opts:
+		if '--binarize' in opts and '--markovthreshold' in opts:
 			trees = list(trees)
 			h, v = int(opts.get('-h', 999)), int(opts.get('-v', 1))
 			revh = int(opts.get('-H', 0))
-- 
2.43.0


From 01cf4c66eeeeb3effe8c3c9764779a2f5b97bc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:02 +0000
Subject: [PATCH 097/173] fix: treetransforms ignored --outputenc

---
 discodop/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index b83bba8..27621da 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -345,7 +345,7 @@ where input and output are treebanks; standard in/output is used if not given.
 		if not opts.get('--headrules'):
 			raise ValueError('need head rules for dependency conversion')
 	cnt = 0
-	encoding = opts.get('outputenc', 'utf8')
+	encoding = opts.get('--outputenc', 'utf8')
 	with io.open(outfilename, 'w', encoding=encoding) as outfile:
 		# copy trees verbatim when only taking slice or converting encoding
 		if (not actions
-- 
2.43.0


From 8e91cc09fc4730ea0eb3e8029aaecbbd0d7ee3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:19 +0000
Subject: [PATCH 098/173] fix: treetransforms --slice failed with negative
 indices

---
 discodop/cli.py      | 4 +---
 discodop/treebank.py | 7 ++++++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index 27621da..07747c6 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -205,7 +205,6 @@ where input and output are treebanks; standard in/output is used if not given.
 """
 	import io
 	from getopt import gnu_getopt, GetoptError
-	from itertools import islice
 	from . import treebank, treebanktransforms
 	from .treetransforms import (canonicalize, binarize,
 			unbinarize, optimalbinarize, splitdiscnodes, mergediscnodes,
@@ -254,7 +253,6 @@ where input and output are treebanks; standard in/output is used if not given.
 			lemmas=opts.get('--lemmas'))
 	start, end = opts.get('--slice', ':').split(':')
 	start, end = (int(start) if start else None), (int(end) if end else None)
-	# FIXME: support negative indices
 	trees = corpus.itertrees(start, end)
 	if '--maxlen' in opts:
 		maxlen = int(opts['--maxlen'])
@@ -354,7 +352,7 @@ where input and output are treebanks; standard in/output is used if not given.
 					'export', 'bracket', 'discbracket')
 				and set(opts) <= {'--slice', '--inputenc', '--outputenc',
 					'--inputfmt', '--outputfmt'}):
-			for block in islice(corpus.blocks().values(), start, end):
+			for block in list(corpus.blocks().values())[start:end]:
 				outfile.write(block)
 				cnt += 1
 		else:
diff --git a/discodop/treebank.py b/discodop/treebank.py
index c447e43..1726d03 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -130,7 +130,12 @@ class CorpusReader(object):
 			instance with ``tree``, ``sent``, and ``comment`` attributes.
 			Useful when the dictionary of all trees in corpus would not fit in
 			memory."""
-		for n, a in islice(self._read_blocks(), start, end):
+		blocks = self._read_blocks()
+		if (start or 0) < 0 or (end or 0) < 0:
+			blocks = list(blocks)[start:end]
+		else:
+			blocks = islice(blocks, start, end)
+		for n, a in blocks:
 			yield n, self._parsetree(a)
 
 	def trees(self):
-- 
2.43.0


From f4dbf224bc60334ef71beddcfa113c047ccf1579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:19 +0000
Subject: [PATCH 099/173] fix: grammar did not validate --dopestimator

---
 discodop/cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index 07747c6..e3f09ec 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -415,8 +415,9 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 	if model not in ('pcfg', 'plcfrs', 'dopreduction', 'doubledop', 'dop1',
 			'ptsg', 'param', 'info', 'merge'):
 		raise ValueError('unrecognized model: %r' % model)
-	if opts.get('dopestimator', 'rfe') not in ('rfe', 'ewe', 'shortest'):
-		raise ValueError('unrecognized estimator: %r' % opts['dopestimator'])
+	if opts.get('--dopestimator', 'rfe') not in ('rfe', 'ewe', 'shortest', 'bon'):
+		raise ValueError('unrecognized estimator: %r'
+				% opts['--dopestimator'])
 
 	if model == 'info':
 		grammarstats(args[1])
-- 
2.43.0


From fa93a725d4a06668c2d12f06c7ca3cbb0e9dd1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:35 +0000
Subject: [PATCH 100/173] fix: grammar ptsg failed with fragments in bracket
 format

---
 discodop/cli.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index e3f09ec..77179bd 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -452,8 +452,9 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 		xfragments = {frag: splitweight(weight) for frag, weight
 				in (line.split('\t') for line in openread(treebankfile,
 					encoding=opts.get('--inputenc', 'utf8')))}
-		if STRTERMRE.search(next(iter(xfragments))) is not None:
-			xfragments = {addindices(frag): splitweight(weight) for frag, weight
+		bitpar = STRTERMRE.search(next(iter(xfragments))) is not None
+		if bitpar:
+			xfragments = {addindices(frag): weight for frag, weight
 					in xfragments.items()}
 	else:  # read treebank
 		corpus = READERS[opts.get('--inputfmt', 'export')](
@@ -503,9 +504,8 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 		myopen = gzipopen
 		rulesname += '.gz'
 		lexiconname += '.gz'
-	bitpar = model == 'pcfg' or opts.get('--inputfmt') == 'bracket'
-	if model == 'ptsg':
-		bitpar = STRTERMRE.search(next(iter(xfragments))) is not None
+	if model != 'ptsg':
+		bitpar = model == 'pcfg' or opts.get('--inputfmt') == 'bracket'
 
 	rules, lexicon = writegrammar(xgrammar, bitpar=bitpar)
 	# write output
-- 
2.43.0


From edf9c8159f0ea54f02707ebb9c2b066df9cb4d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:49 +0000
Subject: [PATCH 101/173] fix: grammar ptsg failed with weights that are
 fractions

---
 discodop/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index 77179bd..fca3118 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -390,7 +390,7 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 	from .treetransforms import addfanoutmarkers, canonicalize
 	from .grammar import (treebankgrammar, dopreduction, doubledop, dop1,
 			compiletsg, writegrammar, grammarinfo, grammarstats,
-			splitweight, merge, sumfrags, sumrules, sumlex, stripweight,
+			convertweight, merge, sumfrags, sumrules, sumlex, stripweight,
 			addindices)
 	from .parser import readparam
 	from .runexp import (loadtraincorpus, getposmodel, dobinarization,
@@ -449,7 +449,7 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 		elif not prm.postagging:
 			lexmodel = None
 	elif model == 'ptsg':  # read fragments
-		xfragments = {frag: splitweight(weight) for frag, weight
+		xfragments = {frag: convertweight(weight) for frag, weight
 				in (line.split('\t') for line in openread(treebankfile,
 					encoding=opts.get('--inputenc', 'utf8')))}
 		bitpar = STRTERMRE.search(next(iter(xfragments))) is not None
-- 
2.43.0


From f11128a51d1963f844a6c5470a11e5f36f3aac22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:12 +0000
Subject: [PATCH 102/173] fix: doubledop failed with default number of
 processes

---
 discodop/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index f5e01cb..92d3cff 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -187,7 +187,7 @@ def dopreduction(trees, sents, packedgraph=False, decorator=None,
 
 
 def doubledop(trees, sents, debug=False, maxdepth=1,
-		maxfrontier=999, numproc=None, extrarules=None):
+		maxfrontier=999, numproc=1, extrarules=None):
 	"""Extract a Double-DOP grammar from a treebank.
 
 	That is, a fragment grammar containing fragments that occur at least twice,
-- 
2.43.0


From 8390b831372ada7f40f7b500b076c93ed642bf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:23 +0000
Subject: [PATCH 103/173] fix: functions were not removed from bracketed trees
 read incrementally

---
 discodop/treebank.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 1726d03..e77b9b9 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -1034,7 +1034,7 @@ def incrementaltreereader(treeinput, morphology=None, functions=None,
 	# try the following readers on each line in this order
 	readers = [segmentexport(morphology, functions, strict),
 			segmentalpino(morphology, functions),
-			segmentbrackets(strict, robust)]
+			segmentbrackets(strict, robust, functions)]
 	for reader in readers:
 		reader.send(None)
 	while True:
@@ -1072,7 +1072,7 @@ def incrementaltreereader(treeinput, morphology=None, functions=None,
 				return
 
 
-def segmentbrackets(strict=False, robust=True):
+def segmentbrackets(strict=False, robust=True, functions=None):
 	"""Co-routine that accepts one line at a time.
 
 	Yields tuples ``(result, status)`` where ...
@@ -1085,6 +1085,7 @@ def segmentbrackets(strict=False, robust=True):
 	:param strict: if True, raise ValueError for improperly nested brackets.
 	:param robust: if True, only return trees with at least 2 brackets;
 		e.g., (DT the) is not recognized as a tree.
+	:param functions: if 'remove', strip functions off labels.
 	"""
 	def tryparse(result, rest):
 		"""Add a tree to the results list."""
@@ -1095,6 +1096,8 @@ def segmentbrackets(strict=False, robust=True):
 					err, dict(result=result, rest=rest, parens=parens,
 						depth=depth, prev=prev)))
 		else:
+			if functions == 'remove':
+				handlefunctions(functions, tree)
 			results.append((tree, sent, rest.rstrip()))
 
 	lb, rb = '()'
-- 
2.43.0


From fe71d4ee42bc724a7472c5cbc43bcc6cb44cba4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:23 +0000
Subject: [PATCH 104/173] fix: treedraw printed None for trees without comment

---
 discodop/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index fca3118..2677dfb 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -118,9 +118,9 @@ Pipe the output through 'less -R' to preserve the colors."""
 					print(arg, end=':')
 				print(sentid, end='. ')
 				if '--frontier' in opts:
-					print(frontier(item.tree, item.sent), item.comment)
+					print(frontier(item.tree, item.sent), item.comment or '')
 				else:
-					print(item.comment)
+					print(item.comment or '')
 					print(processtree(item.tree, item.sent))
 	else:  # read from stdin + detect format
 		encoding = opts.get('--encoding', 'utf8')
@@ -142,7 +142,7 @@ Pipe the output through 'less -R' to preserve the colors."""
 					continue
 				print(n, end='. ')
 				if '--frontier' in opts:
-					print('%s %s' % (frontier(tree, sent), rest))
+					print('%s %s' % (frontier(tree, sent), rest or ''))
 				else:
 					print(rest or '')
 					print(processtree(tree, sent))
-- 
2.43.0


From 385affad4d16d9fa5dc9e68109281ea0e3f61882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:31 +0000
Subject: [PATCH 105/173] fix: marginalize crashed when only one of require and
 block is given

---
 discodop/disambiguation.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 45040a6..a2251e3 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -284,7 +284,7 @@ def testconstraints(treestr, require, block):
 	spans = {(node.label, tuple(sorted(node.leaves())))
 			for node in ImmutableTree(
 				REMOVESTATESPLITS.sub(r'\1 ', treestr)).subtrees()}
-	return spans.issuperset(require) and spans.isdisjoint(block)
+	return spans.issuperset(require or ()) and spans.isdisjoint(block or ())
 
 
 cdef maxconstituentsparse(Chart chart, double labda, set labels=None):
-- 
2.43.0


From d8efcbf74fd554538a761fd31de14892119a3218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:30 +0000
Subject: [PATCH 106/173] fix: most constituents correct lost words when no
 split had a positive score

---
 discodop/disambiguation.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index a2251e3..1bc0ffc 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -369,7 +369,7 @@ cdef maxconstituentsparse(Chart chart, double labda, set labels=None):
 						if (rightspan in cells
 								and cells[rightspan][0] != NONCONSTLABEL):
 							score = cells[leftspan][1] + cells[rightspan][1]
-							if score > maxcombscore:
+							if maxleft is None or score > maxcombscore:
 								maxcombscore = score
 								maxleft = leftspan
 				score = maxscore / sentprob
-- 
2.43.0


From bb64a7a8036009749111687c6e4a85c2b870bf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:30 +0000
Subject: [PATCH 107/173] fix: sl-dop did not consider lexicalized fragments of
 Double-DOP grammars

---
 discodop/disambiguation.pyx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 1bc0ffc..74e05af 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -829,6 +829,18 @@ def treeparsing(trees, sent, Grammar grammar, int m, backtransform, tags=None,
 					for n in grammar.selfrulemapping[ruleno]:
 						CLEARBIT(&(grammar.mask[0]), n)
 
+		# Double-DOP grammars have tags that include the word
+		for n, tag in tree.pos():
+			label = grammar.toid.get('%s@%s' % (tag, sent[n]), 0)
+			if label == 0:
+				continue
+			elif <unsigned>lensent < sizeof(uint64_t) * 8:
+				whitelist.small[label].insert(SmallChartItem(label, 1L << n))
+			else:
+				fitem = FatChartItem(label)
+				SETBIT(fitem.vec, n)
+				whitelist.fat[label].insert(fitem)
+
 	# Finally, parse with the small set of allowed labeled spans & rules.
 	# Do not parse with the PCFG parser even if possible, because that
 	# requires a different way of pruning.
-- 
2.43.0


From 5b711764f5ab21cec4bd28b252d20bb36f4fe583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:13 +0000
Subject: [PATCH 108/173] fix: fragments of a DOP reduction did not show gaps
 of discontinuous frontier nodes

---
 discodop/disambiguation.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 74e05af..a0e2012 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -765,7 +765,7 @@ def splitfrag(node):
 					else splitfrag(child))
 		else:
 			children.append(Tree(child.label,
-					['%d:%d' % (min(child.leaves()), max(child.leaves()))]))
+					[yieldranges(sorted(child.leaves()))]))
 	return Tree(node.label, children)
 
 
-- 
2.43.0


From 97356387eaa5cf7bd2a3f36d9f661d45ea311aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:13 +0000
Subject: [PATCH 109/173] fix: sl-dop-simple confused derivations which only
 differ inside fragments

---
 discodop/disambiguation.pyx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index a0e2012..54f985f 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -508,7 +508,6 @@ cdef sldop_simple(int sldop_n, Chart chart):
 		for n in range(<signed>chart.rankededges[root].size()):
 			entry = chart.rankededges[root][n]
 			deriv = <bytes>getderiv(root, entry.first, chart).decode('utf8')
-			deriv = str(unbinarize(Tree(deriv), childchar='}'))
 			tree = recoverfragments(root, entry.first, chart, backtransform)
 			keys[deriv] = n
 			derivations[deriv] = entry.second
@@ -521,7 +520,7 @@ cdef sldop_simple(int sldop_n, Chart chart):
 
 	# the number of fragments used is the number of
 	# nodes (open parens), minus the number of interior
-	# (addressed) nodes.
+	# (addressed or binarized) nodes.
 	result = {}
 	for tree in selectedtrees:
 		score, deriv = min([
-- 
2.43.0


From 1b1e85de705ff587d61550bb598a7b50818a23ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:13 +0000
Subject: [PATCH 110/173] fix: derivations with 5 or more fragments were
 miscounted with shortest and sl-dop

---
 discodop/disambiguation.pyx | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 54f985f..50653d6 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -153,14 +153,14 @@ cpdef marginalize(method, Chart chart, list sent=None, list tags=None,
 				if entry.second < maxprob:
 					maxprob = entry.second
 			for entry in chart.rankededges[root]:
-				if entry.second == maxprob:
+				if numfragments(entry.second) == numfragments(maxprob):
 					entries.push_back(entry)
 			chart.rankededges[root] = entries
 		elif chart.derivations:
 			_, maxprob = min(chart.derivations, key=itemgetter(1))
 			chart.derivations = [(deriv, prob)
 					for deriv, prob in chart.derivations
-					if prob == maxprob]
+					if numfragments(prob) == numfragments(maxprob)]
 
 	if not dopreduction:  # Double-DOP
 		for n in range(chart.rankededges[root].size()):
@@ -179,7 +179,7 @@ cpdef marginalize(method, Chart chart, list sent=None, list tags=None,
 				# probability in a different model.
 				newprob = exp(-getderivprob(
 						root, entry.first, chart, sent))
-				score = (int(prob / log(0.5)), newprob)
+				score = (-numfragments(prob), newprob)
 				if treestr not in derivlen or score > derivlen[treestr]:
 					derivlen[treestr] = score
 					derivs[treestr] = n
@@ -204,7 +204,7 @@ cpdef marginalize(method, Chart chart, list sent=None, list tags=None,
 			if shortest:
 				entry = chart.rankededges[root][n]
 				newprob = getderivprob(root, entry.first, chart, sent)
-				score = (int(prob / log(0.5)), exp(-newprob))
+				score = (-numfragments(prob), exp(-newprob))
 				if treestr not in derivlen or (not dopreduction
 						and score > derivlen[treestr]):
 					derivlen[treestr] = score
@@ -279,6 +279,13 @@ cpdef marginalize(method, Chart chart, list sent=None, list tags=None,
 	return results, msg
 
 
+cdef numfragments(Prob prob):
+	"""Number of fragments, from negative log prob. under 'shortest' model.
+
+	Rounds, because the sum depends on the order of the additions."""
+	return int(round(prob / log(2)))
+
+
 def testconstraints(treestr, require, block):
 	"""Test if tree satisfies constraints of required/blocked labeled spans."""
 	spans = {(node.label, tuple(sorted(node.leaves())))
@@ -466,7 +473,7 @@ cdef sldop(Chart chart, list sent, list tags, int m, int sldop_n):
 			treestr = recoverfragments(
 					root, entry.first, chart2, backtransform)
 		if treestr in nmostlikelytrees and treestr not in result:
-			result[treestr] = (-abs(int(s / log(0.5))), parsetreeprob[treestr])
+			result[treestr] = (-numfragments(s), parsetreeprob[treestr])
 			if backtransform is None:
 				derivs[treestr] = fragmentsinderiv_str(
 						deriv, chart2, backtransform)
-- 
2.43.0


From f2a3fe102dc68817adeea928ccdb5ba6b84f9608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:13 +0000
Subject: [PATCH 111/173] fix: sl-dop left the grammar with the shortest model
 when parsing failed

---
 discodop/disambiguation.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 50653d6..1722497 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -462,6 +462,7 @@ cdef sldop(Chart chart, list sent, list tags, int m, int sldop_n):
 			nmostlikelytrees, sent, chart.grammar, m, backtransform, tags=tags,
 			maskrules=False)
 	if not chart2:
+		chart.grammar.switch(model, logprob=True)
 		return [], 'SL-DOP couldn\'t find parse for tree'
 	result = {}
 	root = chart2.root()
-- 
2.43.0


From 50d571e8ce0d4312dc3a92f5f06efa9e301b85c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:44 +0000
Subject: [PATCH 112/173] fix: fragment extractor silently dropped nodes
 preceding a terminal

---
 discodop/_fragments.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index c8fe77e..ec6f5b1 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -1082,10 +1082,12 @@ cdef int readtree(
 			terminal = line[start:n]
 			while n < lenline and line[n] in ' \t\n':
 				n += 1
-			if line[n] != ')':
+			if n >= lenline or line[n] != ')' or not stack:
 				return -5  # unexpected data after terminal
 			n -= 1
 			parent = stack.data.as_shorts[len(stack) - 1]
+			if parent != idx - 1:  # terminal has preceding siblings
+				return -5
 			# if disc:
 			# 	m = terminal.find('=')
 			# 	if m <= 0:
-- 
2.43.0


From eb9e2c49e8c80796b7b9eda33f68cb8afca0c93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:44 +0000
Subject: [PATCH 113/173] fix: wrong labels for nodes with 5 or more children
 when reading bracketed trees

---
 discodop/_fragments.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index ec6f5b1..82af7f6 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -962,6 +962,7 @@ cdef int readtree(
 	cdef short idx = 0, n = 0, m, y, cur, parent = -1
 	cdef short lenline = len(line), lensent = 0
 	cdef int label, binlabel, binlabel2
+	cdef str origlabel
 	cdef str terminal = None
 	cdef bytes prod = None
 	cdef list binchildren, binlabels
@@ -1032,9 +1033,9 @@ cdef int readtree(
 					# collect labels
 					binchildren = children.pop()
 					binlabels = [labels.data.as_ints[m] for m in binchildren]
+					origlabel = vocab.idtolabel(labels.data.as_ints[parent])
 					binlabel = vocab._getlabelid('%s|<%s.%s>' % (
-							vocab.idtolabel(labels.data.as_ints[parent]),
-							vocab.idtolabel(binlabels[0]),
+							origlabel, vocab.idtolabel(binlabels[0]),
 							','.join(vocab.idtolabel(x)
 								for x in binlabels[1:])))
 					nodes[parent].right = idx
@@ -1053,8 +1054,7 @@ cdef int readtree(
 						else:
 							nodes[idx].right = idx + 1
 							binlabel2 = vocab._getlabelid('%s|<%s.%s>' % (
-									vocab.idtolabel(
-										labels.data.as_ints[parent]),
+									origlabel,
 									','.join(vocab.idtolabel(x)
 										for x in binlabels[:m + 1]),
 									','.join(vocab.idtolabel(x)
-- 
2.43.0


From 78ace9a217272cbac269a66d1dcd2b815a0de2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:44 +0000
Subject: [PATCH 114/173] fix: terminals below unary nodes were not counted
 with --twoterms

---
 discodop/_fragments.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index 82af7f6..11e58dd 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -321,7 +321,7 @@ cdef inline int extractat(uint64_t *matrix, uint64_t *result, Node *a, Node *b,
 	elif TESTBIT(&matrix[b[j].left * SLOTS], a[i].left):
 		terms += extractat(matrix, result, a, b, a[i].left, b[j].left, SLOTS)
 	if a[i].right < 0:
-		return 0
+		return terms
 	elif TESTBIT(&matrix[b[j].right * SLOTS], a[i].right):
 		terms += extractat(matrix, result, a, b, a[i].right, b[j].right, SLOTS)
 	return terms
-- 
2.43.0


From 6d7e7aa41c6f774e3cd73b433ae82407137ba6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:44 +0000
Subject: [PATCH 115/173] fix: fragments with --twoterms were not required to
 have a matching POS tag

---
 discodop/_fragments.pyx | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index 11e58dd..b1cf821 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -153,7 +153,8 @@ cpdef extractfragments(Ctrees trees1, int start1, int end1, Vocabulary vocab,
 	if twoterms:
 		contentword = re.compile(twoterms)
 		contentwordprods = {n for n in range(len(vocab.prods))
-				if contentword.match(vocab.getlabel(n))}
+				if vocab.islexical(n)
+				and contentword.match(vocab.getlabel(n))}
 		lexicalprods = {n for n in range(len(vocab.prods))
 				if vocab.islexical(n)}
 	if singletb:  # if trees2 not given, consider all (n,m) s.t. n<m in trees1
@@ -188,6 +189,9 @@ cpdef extractfragments(Ctrees trees1, int start1, int end1, Vocabulary vocab,
 					raise ValueError('illegal index %d' % m)
 				extractfrompair(a, anodes, trees2, n, m, debug,
 						vocab, inter, minterms, matrix, scratch, SLOTS)
+			inter = {wrapper for wrapper in inter
+					if containsprod(anodes, a.len, getpointer(wrapper),
+						contentwordprods)}
 		else:  # all pairs
 			if singletb:
 				start2 = max(n + 1, start2)
@@ -327,6 +331,15 @@ cdef inline int extractat(uint64_t *matrix, uint64_t *result, Node *a, Node *b,
 	return terms
 
 
+cdef containsprod(Node *a, int alen, uint64_t *bitset, set prods):
+	"""Test whether fragment ``bitset`` of ``a`` has a production in prods."""
+	cdef int i
+	for i in range(alen):
+		if TESTBIT(bitset, i) and a[i].prod in prods:
+			return True
+	return False
+
+
 cpdef exactcounts(list bitsets, Ctrees trees1, Ctrees trees2,
 		int indices=False, maxnodes=None):
 	"""Get exact counts or indices of occurrence for fragments.
-- 
2.43.0


From 0a9156b90494c130e4442ea1198029335fc83679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:44 +0000
Subject: [PATCH 116/173] fix: crash with --twoterms and words that are not in
 the second treebank

---
 discodop/_fragments.pyx | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index b1cf821..ba8b0cf 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -183,7 +183,7 @@ cpdef extractfragments(Ctrees trees1, int start1, int end1, Vocabulary vocab,
 					contentwordprods, lexicalprods):
 				if singletb and m <= n:
 					continue
-				elif start2 > m or m > end2:
+				elif start2 > m or m >= end2:
 					continue
 				elif m < 0 or m >= trees2.len:
 					raise ValueError('illegal index %d' % m)
@@ -672,17 +672,24 @@ cdef twoterminals(NodeArray a, Node *anodes,
 
 	if trees2 is None, pairs (n, m) are such that n < m."""
 	cdef int i, j
-	cdef object tmp, candidates = RoaringBitmap()
+	cdef int prodindexlen = len(trees2.prodindex)
+	cdef object tmp, tmp2, candidates = RoaringBitmap()
 	# select candidates from 'trees2' that share productions with tree 'a'
 	# want to select at least 1 content POS tag, 1 other lexical prod
 	for i in range(a.len):
-		if anodes[i].left >= 0 or anodes[i].prod not in contentwordprods:
+		if (anodes[i].left >= 0 or anodes[i].prod not in contentwordprods
+				or anodes[i].prod >= prodindexlen):
 			continue
 		tmp = trees2.prodindex[anodes[i].prod]
+		if tmp is None:  # production does not occur in trees2
+			continue
 		for j in range(a.len):
 			if (i != j and anodes[j].left < 0
-					and anodes[j].prod in lexicalprods):
-				candidates |= tmp & trees2.prodindex[anodes[j].prod]
+					and anodes[j].prod in lexicalprods
+					and anodes[j].prod < prodindexlen):
+				tmp2 = trees2.prodindex[anodes[j].prod]
+				if tmp2 is not None:
+					candidates |= tmp & tmp2
 	return candidates
 
 
-- 
2.43.0


From dce1b4edc378f478fa12963dced0813cd7ec9416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:44 +0000
Subject: [PATCH 117/173] fix: unary nodes were counted as additional frontier
 node with maxfrontier

---
 discodop/_fragments.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index ba8b0cf..2a36f38 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -747,7 +747,7 @@ cdef traverse(NodeArray tree, Node *nodes, int i, int n, int maxdepth,
 		int maxfrontier, list table, uint64_t *scratch, int SLOTS):
 	"""Collect all fragments of a tree up to maxdepth, maxfrontier."""
 	cdef bytes lfrag, rfrag
-	cdef int ldepth, rdepth, lfrontiers, rfrontiers
+	cdef int ldepth, rdepth, lfrontiers, rfrontiers, rightfrontier
 	# First collect fragments of children
 	if nodes[i].left >= 0:
 		traverse(tree, nodes, nodes[i].left, n, maxdepth, maxfrontier,
@@ -770,16 +770,18 @@ cdef traverse(NodeArray tree, Node *nodes, int i, int n, int maxdepth,
 	# Then combine with fragments of children to form prunes of this subtree
 	if nodes[i].left >= 0:
 		# unary, or right node as frontier with all lfrags
+		rightfrontier = 1 if nodes[i].right >= 0 else 0
 		for lfrag in table[nodes[i].left]:
 			ldepth = getroot(getpointer(lfrag), SLOTS)
 			lfrontiers = getid(getpointer(lfrag), SLOTS)
 			if (ldepth + 1 <= maxdepth
-					and lfrontiers + 1 <= maxfrontier):
+					and lfrontiers + rightfrontier <= maxfrontier):
 				# bitset with current idx + left bitset
 				memset(<void *>scratch, 0, SLOTS * sizeof(uint64_t))
 				SETBIT(scratch, i)
 				setunioninplace(scratch, getpointer(lfrag), SLOTS)
-				setrootid(scratch, ldepth + 1, lfrontiers + 1, SLOTS)
+				setrootid(scratch, ldepth + 1, lfrontiers + rightfrontier,
+						SLOTS)
 				table[i].append(wrap(scratch, SLOTS))
 		if nodes[i].right >= 0:  # binary node
 			# left node as frontier with all rfrags
-- 
2.43.0


From 3e013fe0526bd2df3b37ec8007782d0f822fb12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:44 +0000
Subject: [PATCH 118/173] fix: fragment search gave more results than requested
 with several fragments

---
 discodop/_fragments.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index 2a36f38..406bf2d 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -485,6 +485,8 @@ cpdef exactcountsslice(list bitsets, Ctrees trees1, Ctrees trees2,
 	candidatesarray = clone(uintarray, 0, False)
 	# compare one bitset to each tree for each unique fragment.
 	for n, wrapper in enumerate(bitsets):
+		if nummatches >= maxresults_:
+			break
 		bitset = getpointer(wrapper)
 		a = &(trees1.trees[getid(bitset, SLOTS)])  # fragment is from this tree
 		anodes = &trees1.nodes[a.offset]
-- 
2.43.0


From 7111251bc6ddb5bcffd5c046c64c391241b71b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:44 +0000
Subject: [PATCH 119/173] fix: wrong counts of fragments when second treebank
 has larger trees

---
 discodop/fragments.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/discodop/fragments.py b/discodop/fragments.py
index 5d24097..4902efc 100644
--- a/discodop/fragments.py
+++ b/discodop/fragments.py
@@ -370,8 +370,12 @@ def exactcountworker(args):
 				indices=PARAMS['indices'])
 		logging.debug('complete matches chunk %d of %d', n + 1, m)
 		return results
+	maxnodes = trees1.maxnodes
+	if PARAMS['trees2']:  # bitsets were extracted from a pair of treebanks
+		maxnodes = max(maxnodes, PARAMS['trees2'].maxnodes)
 	results = _fragments.exactcounts(
-			bitsets, trees1, trees1, indices=PARAMS['indices'])
+			bitsets, trees1, trees1, indices=PARAMS['indices'],
+			maxnodes=maxnodes)
 	if PARAMS['indices']:
 		logging.debug('exact indices chunk %d of %d', n + 1, m)
 	else:
-- 
2.43.0


From ea4fee623b5c0d5839bd2de90f9615dd00e12cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:44 +0000
Subject: [PATCH 120/173] fix: fragments in batch mode were repeatedly
 rewritten with --alt

---
 discodop/fragments.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/discodop/fragments.py b/discodop/fragments.py
index 4902efc..721f86c 100644
--- a/discodop/fragments.py
+++ b/discodop/fragments.py
@@ -540,8 +540,7 @@ def printfragments(fragments, counts, out=None):
 		if sys.stdout.encoding is None:
 			out = codecs.getwriter('utf8')(out)
 	if PARAMS['alt']:
-		for n, a in enumerate(fragments):
-			fragments[n] = altrepr(a)
+		fragments = [altrepr(a) for a in fragments]
 	if PARAMS['complete']:
 		logging.info('total number of matches: %d',
 				sum(sum(a) for a in counts)
-- 
2.43.0


From d550a710b54d666f3d58a0e3d2dad5f924a6bf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:44 +0000
Subject: [PATCH 121/173] fix: crash when combining --cover and --nofreq

---
 discodop/fragments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/fragments.py b/discodop/fragments.py
index 721f86c..254b71f 100644
--- a/discodop/fragments.py
+++ b/discodop/fragments.py
@@ -199,7 +199,8 @@ def regular(filenames, numproc, limit, encoding):
 		for a in cover:
 			if a not in fragments:
 				fragmentkeys.append(a)
-				counts.append(cover[a])
+				if counts is not None:
+					counts.append(cover[a])
 		logging.info('merged %d cover fragments '
 				'up to depth %d with max %d frontier non-terminals.',
 				len(fragmentkeys) - before, maxdepth, maxfrontier)
-- 
2.43.0


From 2c6a9c964c5dc1612ad812bb9fd2762b7b9c76e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:33 +0000
Subject: [PATCH 122/173] fix: discontinuous frontier nodes with --debin and
 discbracket format

---
 discodop/tree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 025dab0..e0c8545 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -24,6 +24,7 @@ PTBPUNC = {'-LRB-', '-RRB-', '-LCB-', '-RCB-', '-LSB-', '-RSB-', '-NONE-'}
 FRONTIERNTRE = re.compile(r' \)')
 SUPERFLUOUSSPACERE = re.compile(r'\)\s+(?=\))')
 INDEXRE = re.compile(r' ([0-9]+)\)')
+DISCINDEXRE = re.compile(r' ([0-9]+)(?=[\s)])')
 # regex to check if the tree contains any terminals not prefixed by indices
 STRTERMRE = re.compile(r' (?![0-9]+=)[^()]*\s*\)')
 
@@ -1991,8 +1992,8 @@ def writebrackettree(tree, sent):
 def writediscbrackettree(tree, sent, pretty=False):
 	"""Return tree in bracket notation with leaves as ``index=word``."""
 	treestr = tree.pprint() if pretty else str(tree)
-	return INDEXRE.sub(
-			lambda x: ' %s=%s)' % (x.group(1), escape(sent[int(x.group(1))])),
+	return DISCINDEXRE.sub(
+			lambda x: ' %s=%s' % (x.group(1), escape(sent[int(x.group(1))])),
 			treestr) + '\n'
 
 
-- 
2.43.0


From 349b3caff0b7087459b493a6d9c9969a1f1fabfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:37 +0000
Subject: [PATCH 123/173] fix: artificial frontier nodes were lost with --debin

---
 discodop/fragments.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/discodop/fragments.py b/discodop/fragments.py
index 254b71f..8728c46 100644
--- a/discodop/fragments.py
+++ b/discodop/fragments.py
@@ -19,7 +19,7 @@ if sys.version_info[0] == 2:
 import multiprocessing
 from collections import defaultdict
 from getopt import gnu_getopt, GetoptError
-from .tree import brackettree, discbrackettree
+from .tree import Tree, brackettree, discbrackettree
 from .treebank import writetree
 from .treetransforms import unbinarize
 from . import _fragments
@@ -524,13 +524,16 @@ def debinarize(fragments):
 	for origfrag in fragments:
 		frag, sent = (discbrackettree(origfrag) if PARAMS['disc']
 				else brackettree(origfrag, detectdisc=False))
+		# artificial nodes that are frontier non-terminals must be kept
+		for node in frag.subtrees(lambda n: not isinstance(n[0], Tree)):
+			node.label = node.label.replace('|<', '\x00')
 		try:
 			frag = writetree(unbinarize(frag), sent, 0,
 					'discbracket' if PARAMS['disc'] else 'bracket').strip()
 		except Exception:  # pylint: disable=broad-except
 			result.append(origfrag)
 		else:
-			result.append(frag)
+			result.append(frag.replace('\x00', '|<'))
 	return result
 
 
-- 
2.43.0


From 0a6546fc3b584798f5fb512085a32f786da81e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:51 +0000
Subject: [PATCH 124/173] fix: --twoterms did not check POS tags in combination
 with --adjacent

---
 discodop/_fragments.pyx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index 406bf2d..83aa140 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -189,9 +189,6 @@ cpdef extractfragments(Ctrees trees1, int start1, int end1, Vocabulary vocab,
 					raise ValueError('illegal index %d' % m)
 				extractfrompair(a, anodes, trees2, n, m, debug,
 						vocab, inter, minterms, matrix, scratch, SLOTS)
-			inter = {wrapper for wrapper in inter
-					if containsprod(anodes, a.len, getpointer(wrapper),
-						contentwordprods)}
 		else:  # all pairs
 			if singletb:
 				start2 = max(n + 1, start2)
@@ -199,6 +196,10 @@ cpdef extractfragments(Ctrees trees1, int start1, int end1, Vocabulary vocab,
 				extractfrompair(a, anodes, trees2, n, m,
 						debug, vocab, inter, minterms, matrix,
 						scratch, SLOTS)
+		if twoterms:
+			inter = {wrapper for wrapper in inter
+					if containsprod(anodes, a.len, getpointer(wrapper),
+						contentwordprods)}
 		collectfragments(fragments, inter, anodes, asent, vocab,
 				disc, approx, False, tmp, SLOTS)
 	free(matrix)
-- 
2.43.0


From f0d1d4dbab7414cc4c21302fa14d7586cd28f856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:16 +0000
Subject: [PATCH 125/173] fix: regex search of empty files or beyond the last
 line failed or dropped counts

---
 discodop/treesearch.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 322ca20..61a6d9d 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -886,6 +886,8 @@ class RegexSearcher(CorpusSearcher):
 			self.lineindex = MultiRoaringBitmap(tmp, filename=self.lineidxpath)
 		if inmemory:
 			for filename in self.files:
+				if os.path.getsize(filename) == 0:  # cannot mmap empty file
+					continue
 				fileno = os.open(filename, os.O_RDONLY)
 				buf = mmap.mmap(fileno, 0, access=mmap.ACCESS_READ)
 				self.files[filename] = (fileno, buf)
@@ -1099,7 +1101,7 @@ def _regex_run_query(pattern, filename, fileno, lineidxpath,
 	lastline = end is None or end > len(lineindex) - 1
 	if lastline:
 		end = len(lineindex) - 1
-	if start and start > len(lineindex):
+	if len(lineindex) <= 1 or start and start > len(lineindex):
 		return result
 	startidx = lineindex.select(start - 1 if start else 0)
 	endidx = lineindex.select(end)
@@ -1161,7 +1163,9 @@ def _regex_run_batch(patterns, filename, fileno, lineidxpath,
 		result = []
 	else:
 		result = array.array('I')
-	if start and start >= len(lineindex):
+	if len(lineindex) <= 1 or start and start >= len(lineindex):
+		if not sents:
+			result.extend([0] * len(patterns))
 		return result
 	with open(filename, 'rb') as tmp:
 		data = mmap.mmap(tmp.fileno(), 0, access=mmap.ACCESS_READ)
-- 
2.43.0


From 65abbcbff3c14b5226be9cbebdb78473dc0ff564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:16 +0000
Subject: [PATCH 126/173] fix: search with maxresults crashed after same query
 without limit

---
 discodop/treesearch.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 61a6d9d..8966ab7 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -357,7 +357,8 @@ class TgrepSearcher(CorpusSearcher):
 						start, end, nofunc, nomorph, detectdisc, mergedisc]
 			except KeyError:
 				maxresults2 = 0
-			if not maxresults or maxresults > maxresults2:
+			if not maxresults or (maxresults2 is not None
+					and maxresults > maxresults2):
 				jobs[self._submit(
 						lambda x: list(self._query(
 							[query], x, fmt, start, end, maxresults)),
@@ -415,7 +416,8 @@ class TgrepSearcher(CorpusSearcher):
 						start, end, brackets]
 			except KeyError:
 				maxresults2 = 0
-			if not maxresults or maxresults > maxresults2:
+			if not maxresults or (maxresults2 is not None
+					and maxresults > maxresults2):
 				jobs[self._submit(
 						lambda x: list(self._query(
 							[query], x, fmt, start, end, maxresults)),
@@ -681,7 +683,8 @@ class FragmentSearcher(CorpusSearcher):
 						start, end, nofunc, nomorph, detectdisc, mergedisc]
 			except KeyError:
 				maxresults2 = 0
-			if not maxresults or maxresults > maxresults2:
+			if not maxresults or (maxresults2 is not None
+					and maxresults > maxresults2):
 				if cquery is None:
 					cquery, bitsets, maxnodes = self._parse_query(
 							query, disc=self.disc)
@@ -733,7 +736,8 @@ class FragmentSearcher(CorpusSearcher):
 						start, end, brackets]
 			except KeyError:
 				maxresults2 = 0
-			if not maxresults or maxresults > maxresults2:
+			if not maxresults or (maxresults2 is not None
+					and maxresults > maxresults2):
 				if cquery is None:
 					cquery, bitsets, maxnodes = self._parse_query(
 							query, disc=self.disc)
@@ -948,7 +952,8 @@ class RegexSearcher(CorpusSearcher):
 						start, end, True, True]
 			except KeyError:
 				maxresults2 = 0
-			if not maxresults or maxresults > maxresults2:
+			if not maxresults or (maxresults2 is not None
+					and maxresults > maxresults2):
 				jobs[self._submit(
 						_regex_query if self.numproc == 1 else _regex_query_mp,
 						query, filename, self.fileno[filename],
-- 
2.43.0


From 8e2c2018412d320473138bd7a6344d4391579804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:16 +0000
Subject: [PATCH 127/173] fix: closing a FragmentSearcher crashed

---
 discodop/treesearch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 8966ab7..51a4218 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -604,8 +604,9 @@ class FragmentSearcher(CorpusSearcher):
 	def close(self):
 		if hasattr(self.vocab, 'close'):
 			self.vocab.close()
-		for a in self.files:
-			a.close()
+		for a in self.files.values():
+			if a is not None:
+				a.close()
 		self.vocab = self.files = None
 
 	def counts(self, query, subset=None, start=None, end=None, indices=False,
-- 
2.43.0


From 00ac5e242adae392dc29f3b5003678a17eca29c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:16 +0000
Subject: [PATCH 128/173] fix: removing function tags also changed words with
 hyphens

---
 discodop/treesearch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 51a4218..38b3908 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -39,7 +39,8 @@ LEAFINDICES = re.compile(r' ([0-9]+)=')
 LEAFINDICESWORDS = re.compile(r' ([0-9]+)=([^ ()]+)\)')
 ALPINOLEAVES = re.compile('<sentence>(.*)</sentence>')
 MORPH_TAGS = re.compile(r'([/*\w]+)(?:\[[^ ]*\]\d?)?((?:-\w+)?(?:\*\d+)? )')
-FUNC_TAGS = re.compile(r'-\w+')
+FUNC_TAGS = re.compile(r'(?<!\()-\w+')
+LABELS = re.compile(r'\([^ ()]+')
 
 CorpusInfo = namedtuple('CorpusInfo',
 		['len', 'numwords', 'numnodes', 'maxnodes'])
@@ -1268,7 +1269,7 @@ class FIFOOrederedDict(OrderedDict):
 def filterlabels(line, nofunc, nomorph):
 	"""Remove morphological and/or grammatical function labels from tree(s)."""
 	if nofunc:
-		line = FUNC_TAGS.sub('', line)
+		line = LABELS.sub(lambda g: FUNC_TAGS.sub('', g.group()), line)
 	if nomorph:
 		line = MORPH_TAGS.sub(lambda g: g.group(1) + g.group(2), line)
 	return line
-- 
2.43.0


From 9b524485cf8a774e926da4ce243c5e3c7dd01363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:16 +0000
Subject: [PATCH 129/173] fix: results of regex query were cached with the
 wrong slice

---
 discodop/treesearch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 38b3908..505da43 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -967,8 +967,8 @@ class RegexSearcher(CorpusSearcher):
 		for future in self._as_completed(jobs):
 			filename = jobs[future]
 			x = []
-			for sentno, sent, start, end in future.result():
-				highlight = range(start, end)
+			for sentno, sent, mstart, mend in future.result():
+				highlight = range(mstart, mend)
 				x.append((filename, sentno, sent, highlight, ()))
 			self.cache['sents', query, filename, start, end, True, True
 					] = x, maxresults
-- 
2.43.0


From 807e74a26e60f588096bb685ce4563f4f74e5228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:16 +0000
Subject: [PATCH 130/173] fix: number of lines and words of text corpora was
 off by one

---
 discodop/treesearch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 505da43..df24f1b 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -1045,12 +1045,14 @@ class RegexSearcher(CorpusSearcher):
 		return result
 
 	def getinfo(self, filename):
-		numlines = len(self.lineindex[self.fileno[filename]])
+		# the last item is the end of the file
+		numlines = len(self.lineindex[self.fileno[filename]]) - 1
 		if self.files[filename] is None:
 			with openread(filename) as inp:
 				data = inp.read()
 		else:
 			_, data = self.files[filename]
+			data = data[:].decode('utf8')
 		numwords = data.count(' ') + numlines
 		return CorpusInfo(
 				len=numlines, numwords=numwords,
-- 
2.43.0


From 029b4783704116ea4ffaaebb5f3cbc554bb69571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:16 +0000
Subject: [PATCH 131/173] fix: breakdown of regex query with groups did not
 count matches

---
 discodop/treesearch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index df24f1b..142afac 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -1145,9 +1145,9 @@ def _regex_run_query(pattern, filename, fileno, lineidxpath,
 					result.append((lineno, sent, mstart, mend))
 			else:
 				if breakdown:
-					matches = pattern.findall(
-							data, startidx, endidx)[:maxresults]
-					result.update(a.decode('utf8') for a in matches)
+					matches = islice(pattern.finditer(
+							data, startidx, endidx), maxresults)
+					result.update(a.group().decode('utf8') for a in matches)
 				else:
 					try:
 						result = pattern.count(data, startidx, endidx)
-- 
2.43.0


From 1206bf55d41dfaee426f2db7c275cef574bea499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:16 +0000
Subject: [PATCH 132/173] fix: highlighted nodes were lost with nofunc and
 nomorph

---
 discodop/treesearch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 142afac..54e8f72 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -703,6 +703,7 @@ class FragmentSearcher(CorpusSearcher):
 			for matches in future.result():
 				for sentno, treestr, match in matches:
 					treestr = filterlabels(treestr, nofunc, nomorph)
+					match = filterlabels(match, nofunc, nomorph)
 					# FIXME: this highlights the whole subtree, of which
 					# frag may be a subgraph.
 					treestr = treestr.replace(
-- 
2.43.0


From 60b14ad9c6cd45efbe470c3dcef30af575f01b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:25 +0000
Subject: [PATCH 133/173] fix: indexed treebanks were reused with the wrong
 vocabulary or list of files

---
 discodop/treesearch.py  | 16 ++++++++++++----
 docs/cli/treesearch.rst |  4 ++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 54e8f72..b7e4ef5 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -11,6 +11,7 @@ import csv
 import sys
 import mmap
 import array
+import hashlib
 import tempfile
 import subprocess
 import multiprocessing
@@ -568,8 +569,7 @@ class FragmentSearcher(CorpusSearcher):
 		super().__init__(files, macros, numproc)
 		self.disc = False
 		newvocab = True
-		path = os.path.dirname(next(iter(sorted(files))))
-		self.vocabpath = os.path.join(path, 'treesearchvocab.idx')
+		self.vocabpath = _indexpath('treesearchvocab', files)
 		if os.path.exists(self.vocabpath):
 			self.vocab = FixedVocabulary.fromfile(self.vocabpath)
 			mtime = os.stat(self.vocabpath).st_mtime
@@ -879,8 +879,7 @@ class RegexSearcher(CorpusSearcher):
 				self.macros = dict(line.strip().split('=', 1) for line in tmp)
 		self.fileno = {filename: n for n, filename in enumerate(sorted(files))}
 		maxmtime = max(os.stat(a).st_mtime for a in files)
-		path = os.path.dirname(next(iter(sorted(files))))
-		self.lineidxpath = os.path.join(path, 'treesearchline.idx')
+		self.lineidxpath = _indexpath('treesearchline', files)
 		if os.path.exists(self.lineidxpath):
 			mtime = os.stat(self.lineidxpath).st_mtime
 			tmp = MultiRoaringBitmap.fromfile(self.lineidxpath)
@@ -1228,6 +1227,15 @@ def _getoffsets(lineno, lineindex, data):
 	return offset, nextoffset
 
 
+def _indexpath(name, files):
+	"""Return path of index for files; each set of files has its own index."""
+	files = sorted(files)
+	path = os.path.dirname(files[0])
+	key = '\n'.join(os.path.relpath(a, path or '.') for a in files)
+	return os.path.join(path, '%s-%s.idx' % (
+			name, hashlib.md5(key.encode('utf8', 'surrogateescape')).hexdigest()))
+
+
 def _indexfile(filename):
 	"""Create bitmap with locations of non-empty lines."""
 	result = RoaringBitmap()
diff --git a/docs/cli/treesearch.rst b/docs/cli/treesearch.rst
index af4fa63..6549b2e 100644
--- a/docs/cli/treesearch.rst
+++ b/docs/cli/treesearch.rst
@@ -74,7 +74,7 @@ e.g., to handle punctuation, and include functional or morphological tags.
 
 A cached copy of the treebank is created in an indexed format; given ``filename.mrg``,
 this indexed version is stored as ``filename.mrg.ct`` (in the same directory).
-Another file, ``treesearchvocab.idx``, contains a global index of productions;
+Another file, ``treesearchvocab-<hash>.idx``, contains a global index of productions;
 this index should automatically be recreated when the list of files changes or
 any file is updated.
 For the treesearch web interface, these indexed files need to be created in advance.
@@ -133,7 +133,7 @@ resulting RE will match the second character::
 More information: https://docs.python.org/3/library/re.html#regular-expression-syntax
 
 This query engine creates a cached index of line numbers in all files
-``treesearchline.idx``; this index should be recreated automatically when
+``treesearchline-<hash>.idx``; this index should be recreated automatically when
 the list of files changes or any file is updated.
 Install https://github.com/andreasvc/pyre2
 for faster queries using linear time deterministic finite automata.
-- 
2.43.0


From 0addc6bd54dbcdbc9ce6580d89136c5f4c9f37da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:25 +0000
Subject: [PATCH 134/173] fix: order of files was not preserved by batchcounts

---
 discodop/treesearch.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index b7e4ef5..8dfb024 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -304,8 +304,7 @@ class TgrepSearcher(CorpusSearcher):
 						for _, queryno in self._query(
 							queries, x, fmt, start, end, None)).items())],
 					filename)] = filename
-		for future in self._as_completed(jobs):
-			filename = jobs[future]
+		for future, filename in jobs.items():  # preserve order of files
 			yield filename, future.result()
 
 	def batchsents(self, queries, subset=None, start=None, end=None,
@@ -667,8 +666,7 @@ class FragmentSearcher(CorpusSearcher):
 					cqueries, bitsets, maxnodes, filename, self.vocabpath,
 					start, end, None, indices=False, trees=False,
 					)] = filename
-		for future in self._as_completed(jobs):
-			filename = jobs[future]
+		for future, filename in jobs.items():  # preserve order of files
 			yield filename, future.result()
 
 	def trees(self, query, subset=None, start=None, end=None, maxresults=10,
-- 
2.43.0


From 18b79de5569e380c53fd85a201e6f5c16f96b61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:57 +0000
Subject: [PATCH 135/173] fix: blank lines with whitespace were added to
 sentences in regex search

---
 discodop/treesearch.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index 8dfb024..d043b89 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -1032,14 +1032,13 @@ class RegexSearcher(CorpusSearcher):
 			_, data = self.files[filename]
 			for lineno in indices:
 				offset, nextoffset = _getoffsets(lineno, lineindex, data)
-				result.append(data[offset:nextoffset].decode('utf8'))
+				result.append(_firstline(data[offset:nextoffset]))
 		else:
 			with open(filename, 'rb') as tmp:
 				for lineno in indices:
 					offset, nextoffset = _getoffsets(lineno, lineindex, None)
 					tmp.seek(offset)
-					result.append(tmp.read(nextoffset - offset
-							).rstrip(b'\n').decode('utf8'))
+					result.append(_firstline(tmp.read(nextoffset - offset)))
 		return result
 
 	def getinfo(self, filename):
@@ -1136,7 +1135,7 @@ def _regex_run_query(pattern, filename, fileno, lineidxpath,
 					offset, nextoffset = _getoffsets(lineno, lineindex, None)
 					offset -= chunkoffset
 					nextoffset -= chunkoffset
-					sent = data[offset:nextoffset].rstrip(b'\n').decode('utf8')
+					sent = _firstline(data[offset:nextoffset])
 					mstart = len(data[offset:mstart].decode('utf8'))
 					mend = len(data[offset:mend].decode('utf8'))
 					# (lineno, sent, startspan, endspan)
@@ -1190,7 +1189,7 @@ def _regex_run_batch(patterns, filename, fileno, lineidxpath,
 						lineno = lineindex.rank(mstart)
 						offset, nextoffset = _getoffsets(
 								lineno, lineindex, data)
-						sent = data[offset:nextoffset].decode('utf8')
+						sent = _firstline(data[offset:nextoffset])
 						mstart = len(data[offset:mstart].decode('utf8'))
 						mend = len(data[offset:mend].decode('utf8'))
 						# sentno, sent, high1, high2
@@ -1225,6 +1224,11 @@ def _getoffsets(lineno, lineindex, data):
 	return offset, nextoffset
 
 
+def _firstline(data):
+	"""Decode first line of data; any other lines are blank."""
+	return data.split(b'\n', 1)[0].decode('utf8')
+
+
 def _indexpath(name, files):
 	"""Return path of index for files; each set of files has its own index."""
 	files = sorted(files)
-- 
2.43.0


From 54c84842f7ff239ae274845e2a29dd5c82cdd169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:04 +0000
Subject: [PATCH 136/173] fix: fragment search left index files open

---
 discodop/treesearch.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index d043b89..fa2c933 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -834,23 +834,23 @@ def _frag_query_mp(queries, bitsets, maxnodes, filename, vocabpath,
 def _frag_query(queries, bitsets, maxnodes, filename, vocabpath,
 		start=None, end=None, maxresults=None, indices=True, trees=False):
 	"""Run a prepared fragment query on a single file."""
-	corpus = Ctrees.fromfile('%s.ct' % filename)
 	if start:
 		start -= 1
-	results = _fragments.exactcountsslice(
-			bitsets, queries['trees1'], corpus,
-			indices=indices + trees if indices else 0,
-			maxnodes=maxnodes, start=start, end=end,
-			maxresults=maxresults)
-	if indices and trees:
-		vocab = FixedVocabulary.fromfile(vocabpath)
-		results = [[(n + 1,
-					corpus.extract(n, vocab, disc=True),
-					corpus.extract(n, vocab, disc=True, node=m))
-					for n, m in zip(b, c)]
-				for b, c in results]
-	elif indices:
-		results = [[n + 1 for n in b] for b in results]
+	with Ctrees.fromfile('%s.ct' % filename) as corpus:
+		results = _fragments.exactcountsslice(
+				bitsets, queries['trees1'], corpus,
+				indices=indices + trees if indices else 0,
+				maxnodes=maxnodes, start=start, end=end,
+				maxresults=maxresults)
+		if indices and trees:
+			with FixedVocabulary.fromfile(vocabpath) as vocab:
+				results = [[(n + 1,
+							corpus.extract(n, vocab, disc=True),
+							corpus.extract(n, vocab, disc=True, node=m))
+							for n, m in zip(b, c)]
+						for b, c in results]
+		elif indices:
+			results = [[n + 1 for n in b] for b in results]
 	return results
 
 
-- 
2.43.0


From 661c42accc709a7f7a837aefcc343df6d6d38280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:36 +0000
Subject: [PATCH 137/173] fix: newline at end of query file was part of regex

---
 discodop/treesearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treesearch.py b/discodop/treesearch.py
index fa2c933..ce04955 100644
--- a/discodop/treesearch.py
+++ b/discodop/treesearch.py
@@ -1410,7 +1410,7 @@ def main():
 	opts = dict(opts)
 	if '--file' in opts or '-f' in opts:
 		with openread(query) as tmp:
-			query = tmp.read()
+			query = tmp.read().rstrip('\n')
 	macros = opts.get('--macros', opts.get('-M'))
 	engine = opts.get('--engine', opts.get('-e', 'frag'))
 	maxresults = int(opts.get('--max-count', opts.get('-m', 100))) or None
-- 
2.43.0


From 3c3b53b3e07c37f63dc3d59389d804970910f43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:11 +0000
Subject: [PATCH 138/173] fix: unknown word model failed with NameError when
 openclassthreshold is 0

---
 discodop/lexicon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/lexicon.py b/discodop/lexicon.py
index 415754b..ceeb32a 100644
--- a/discodop/lexicon.py
+++ b/discodop/lexicon.py
@@ -72,9 +72,10 @@ def getunknownwordmodel(tagged_sents, unknownword,
 			tags[tag] += 1
 			wordtags[word, tag] += 1
 	openclasstags = {}
+	closedclasstags = {}
+	wordsforcollapsedtags = defaultdict(set)
 	if openclassthreshold:
 		# consider POS tags with different function tags together
-		wordsforcollapsedtags = defaultdict(set)
 		for tag, ws in wordsfortag.items():
 			match = REMOVESTATESPLITS.match(tag)
 			if match is not None:
-- 
2.43.0


From e8c936d674560f8bd51ca8d269653c5645ca856a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:11 +0000
Subject: [PATCH 139/173] fix: input of external taggers was written as bytes
 to text file

---
 discodop/lexicon.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/discodop/lexicon.py b/discodop/lexicon.py
index ceeb32a..33e887e 100644
--- a/discodop/lexicon.py
+++ b/discodop/lexicon.py
@@ -375,11 +375,10 @@ def externaltagging(usetagger, model, sents, overridetag, tagmap):
 		if not os.path.exists('tree-tagger/bin/tree-tagger'):
 			raise ValueError(TREETAGGERHELP)
 		infile, inname = tempfile.mkstemp(text=True)
-		with os.fdopen(infile, 'w') as infile:
+		with os.fdopen(infile, 'w', encoding='utf8') as infile:
 			for tagsent in sents.values():
 				sent = map(itemgetter(0), tagsent)
-				infile.write('\n'.join(w.encode('utf-8')
-					for w in sent) + '\n<S>\n')
+				infile.write('\n'.join(sent) + '\n<S>\n')
 		filtertags = ''
 		if not model:
 			model = 'tree-tagger/lib/german-par-linux-3.2-utf8.bin'
@@ -397,11 +396,10 @@ def externaltagging(usetagger, model, sents, overridetag, tagmap):
 		if not os.path.exists('stanford-postagger-full-2012-07-09'):
 			raise ValueError(STANFORDTAGGERHELP)
 		infile, inname = tempfile.mkstemp(text=True)
-		with os.fdopen(infile, 'w') as infile:
+		with os.fdopen(infile, 'w', encoding='utf8') as infile:
 			for tagsent in sents.values():
 				sent = map(itemgetter(0), tagsent)
-				infile.write(' '.join(w.encode('utf-8')
-					for w in sent) + '\n')
+				infile.write(' '.join(sent) + '\n')
 		if not model:
 			model = 'models/german-hgc.tagger'
 		tagger = Popen(args=(
-- 
2.43.0


From 8751288485e0a284a6def8f88261f84bbda1ffc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:11 +0000
Subject: [PATCH 140/173] fix: numbers could not be parsed when training data
 has no numbers

---
 discodop/lexicon.py | 11 ++++++++---
 discodop/parser.py  |  2 +-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/discodop/lexicon.py b/discodop/lexicon.py
index 33e887e..eed91a7 100644
--- a/discodop/lexicon.py
+++ b/discodop/lexicon.py
@@ -103,7 +103,11 @@ def getunknownwordmodel(tagged_sents, unknownword,
 	sigs = Counter()
 	for sent in tagged_sents:
 		for n, (word, _) in enumerate(sent):
-			if word not in lexicon:
+			if YEARRE.match(word):
+				sigs['1970'] += 1
+			elif NUMBERRE.match(word):
+				sigs['000'] += 1
+			elif word not in lexicon:
 				# NB: sig depends on n and lexicon
 				sig = unknownword(word, n, lexicon)
 				sigs[sig] += 1
@@ -142,9 +146,10 @@ def replaceraretestwords(sent, unknownword, lexicon, sigs):
 	instead. If the returned signature is not part of the grammar, a default
 	one is returned."""
 	for n, word in enumerate(sent):
-		if YEARRE.match(word):
+		if YEARRE.match(word) and '1970' in sigs:
 			yield '1970'
-		elif NUMBERRE.match(word):
+		elif (NUMBERRE.match(word) and not YEARRE.match(word)
+				and '000' in sigs):
 			yield '000'
 		elif word in lexicon:
 			yield word
diff --git a/discodop/parser.py b/discodop/parser.py
index df11a47..744a220 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -802,7 +802,7 @@ def readgrammars(resultdir, stages, postagging=None,
 		postagging.lexicon = {w for w in stages[0].grammar.getwords()
 				if not w.startswith(UNK)}
 		postagging.sigs = {w for w in stages[0].grammar.getwords()
-				if w.startswith(UNK)}
+				if w.startswith(UNK) or w in ('000', '1970')}
 	if transformations and 'ftbundocompounds' in transformations:
 		treebanktransforms.getftbcompounds(
 				None, None, resultdir + '/compounds.txt')
-- 
2.43.0


From cae33194ecbc64e8583576a2ffc8f346ced27437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:02 +0000
Subject: [PATCH 141/173] fix: backslash was not seen as punctuation in unknown
 word model

---
 discodop/lexicon.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discodop/lexicon.py b/discodop/lexicon.py
index eed91a7..085ba3d 100644
--- a/discodop/lexicon.py
+++ b/discodop/lexicon.py
@@ -326,11 +326,11 @@ POSSIBLEPLURAL = re.compile("(s|ux)$")
 VERBSUFFIX = re.compile("(ir|er|re|ez|ont|ent|ant|ais|ait|ra|era|eras"
 		"|é|és|ées|isse|it)$")
 ADVSUFFIX = re.compile("(iment|ement|emment|amment)$")
-HASPUNC = re.compile("([\u0021-\u002F\u003A-\u0040\u005B\u005C\u005D"
-		"\u005E-\u0060\u007B-\u007E\u00A1-\u00BF\u2010-\u2027\u2030-\u205E"
+HASPUNC = re.compile("([\u0021-\u002F\u003A-\u0040"
+		"\u005B-\u0060\u007B-\u007E\u00A1-\u00BF\u2010-\u2027\u2030-\u205E"
 		"\u20A0-\u20B5])+")
-ISPUNC = re.compile("([\u0021-\u002F\u003A-\u0040\u005B\u005C\u005D"
-		"\u005E-\u0060\u007B-\u007E\u00A1-\u00BF\u2010-\u2027\u2030-\u205E"
+ISPUNC = re.compile("([\u0021-\u002F\u003A-\u0040"
+		"\u005B-\u0060\u007B-\u007E\u00A1-\u00BF\u2010-\u2027\u2030-\u205E"
 		"\u20A0-\u20B5])+$")
 
 
-- 
2.43.0


From 10dfd70ac6d43645b24b45783c56b9c1ddfb94d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:13 +0000
Subject: [PATCH 142/173] fix: parentheses were escaped in sentence but not in
 lexicon when parsing

---
 discodop/containers.pyx     | 5 +++--
 discodop/disambiguation.pyx | 5 +++--
 discodop/parser.py          | 8 ++++----
 discodop/pcfg.pyx           | 4 +++-
 discodop/plcfrs.pyx         | 3 +++
 5 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index 1fa4bb7..968945a 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -122,10 +122,11 @@ cdef class Chart:
 	cdef int lexruleno(self, ItemNo itemidx, Edge edge) except -1:
 		"""Return lexical rule number given a lexical edge."""
 		cdef Label label = self.label(itemidx)
-		cdef string word = self.sent[self.lexidx(edge)].encode('utf8')
+		cdef str token = unescape(self.sent[self.lexidx(edge)]) or ''
+		cdef string word = token.encode('utf8')
 		it = self.grammar.lexicalbyword.find(word)
 		if it == self.grammar.lexicalbyword.end():
-			word = self.sent[self.lexidx(edge)].lower().encode('utf8')
+			word = token.lower().encode('utf8')
 			it = self.grammar.lexicalbyword.find(word)
 		if it == self.grammar.lexicalbyword.end():
 			raise ValueError('unknown word: %r' % word)
diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 1722497..8a8e6e5 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -17,7 +17,8 @@ from itertools import count
 from functools import partial
 from collections import defaultdict
 from . import plcfrs, _fragments
-from .tree import Tree, ParentedTree, ImmutableTree, writediscbrackettree
+from .tree import (Tree, ParentedTree, ImmutableTree, writediscbrackettree,
+		unescape)
 from .kbest import lazykbest
 from .kbest cimport getderiv
 from .grammar import lcfrsproductions, spinal, REMOVEDEC
@@ -944,7 +945,7 @@ def dopparseprob(tree, sent, Grammar coarse, Grammar fine):
 
 	# add all matching POS tags
 	for n, pos in tree.pos():
-		word = sent[n]
+		word = unescape(sent[n]) or ''
 		chart[1 << n] = cell = {}
 		it = fine.lexicalbyword.find(word.encode('utf8'))
 		if it == fine.lexicalbyword.end():
diff --git a/discodop/parser.py b/discodop/parser.py
index 744a220..1fd5f9a 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -265,14 +265,14 @@ class Parser(object):
 				newtags = alignsent(sent, origsent, dict(enumerate(tags)))
 				tags = [newtags[n] for n, _ in enumerate(sent)]
 		if 'PTBbrackets' in (self.transformations or ()):
-			sent = xsent = [ptbescape(token) for token in sent]
-		else:
-			xsent = list(sent)
-			sent = [escape(token) for token in sent]
+			sent = [ptbescape(token) for token in sent]
+		xsent = list(sent)
+		sent = [token or '' for token in sent]
 		if self.postagging and self.postagging.method == 'unknownword':
 			sent = list(replaceraretestwords(sent,
 					self.postagging.unknownwordfun,
 					self.postagging.lexicon, self.postagging.sigs))
+		sent = [escape(token) for token in sent]
 		if tags is not None:
 			tags = list(tags)
 
diff --git a/discodop/pcfg.pyx b/discodop/pcfg.pyx
index fcea59a..1563841 100644
--- a/discodop/pcfg.pyx
+++ b/discodop/pcfg.pyx
@@ -7,7 +7,7 @@ from os import unlink
 from math import exp, log as pylog
 from itertools import count
 import numpy as np
-from .tree import Tree
+from .tree import Tree, unescape
 from .util import which
 
 cimport cython
@@ -650,6 +650,8 @@ cdef populatepos(CFGChart_fused chart, sent, tags,
 		short left, right, lensent = len(sent)
 		Prob openclassfactor = 0.001
 	for left, word in enumerate(sent):
+		# the lexicon contains words without escaping
+		word = unescape(word) or ''
 		tag = tags[left] if tags and tags[left] else None
 		# if we are given gold tags, make sure we only allow matching
 		# tags - after removing addresses introduced by the DOP reduction
diff --git a/discodop/plcfrs.pyx b/discodop/plcfrs.pyx
index 6aa137c..10927ac 100644
--- a/discodop/plcfrs.pyx
+++ b/discodop/plcfrs.pyx
@@ -5,6 +5,7 @@ from __future__ import print_function
 import re
 import logging
 import numpy as np
+from .tree import unescape
 from math import exp, log as pylog
 cimport cython
 from cython.operator cimport preincrement, dereference
@@ -703,6 +704,8 @@ cdef populatepos(Grammar grammar,
 		newitem = FatChartItem(0)
 
 	for wordidx, word in enumerate(sent):  # add preterminals to chart
+		# the lexicon contains words without escaping
+		word = unescape(word) or ''
 		recognized = False
 		if LCFRSItem_fused is SmallChartItem:
 			item = SmallChartItem(0, wordidx)
-- 
2.43.0


From 9d67932db35c11870dcc2ec36abb29ae661e192c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:51 +0000
Subject: [PATCH 143/173] fix: partial parses always had ROOT as label of root

---
 discodop/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index 1fd5f9a..4dff6f8 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -484,7 +484,8 @@ class Parser(object):
 						# 		''.join(part.msg for part in parts))
 						msg += 'part %s %s\n%s' % (
 								(label, a, b), probstr(partprob), part.msg)
-				tree = ParentedTree('(ROOT %s)' % ' '.join(tmp))
+				tree = ParentedTree('(%s %s)' % (
+						root or stage.grammar.start, ' '.join(tmp)))
 				from .runexp import dobinarization
 				tree = dobinarization([tree], [sent],
 						self.prm.binarization,
-- 
2.43.0


From 0f3e3a28fb8890450a12825e1f91912a8a0348c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:13 +0000
Subject: [PATCH 144/173] fix: label of DOP grammar was used as root in other
 stages for partial parse

---
 discodop/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index 4dff6f8..d6d85fc 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -465,10 +465,12 @@ class Parser(object):
 					if label == 'NOPARSE':
 						tmp.append('(NN %d)' % a)
 					else:
+						# DOP labels do not exist in the other stages
 						parts = list(self.parse(
 								sent[a:b],
 								tags=tags[a:b] if tags else None,
-								root=label))
+								root=label.split('@')[0]
+									if stage.dop else label))
 						part = parts[-1]
 						parttree, partprob, _partfrags = max(
 								part.parsetrees, key=itemgetter(1))
-- 
2.43.0


From 39b5013d0e392226a62d191af97af11bf2fc04b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:05 +0000
Subject: [PATCH 145/173] fix: words in partial parses were replaced by
 signatures twice

---
 discodop/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index d6d85fc..c2dadd7 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -467,7 +467,7 @@ class Parser(object):
 					else:
 						# DOP labels do not exist in the other stages
 						parts = list(self.parse(
-								sent[a:b],
+								xsent[a:b],
 								tags=tags[a:b] if tags else None,
 								root=label.split('@')[0]
 									if stage.dop else label))
-- 
2.43.0


From 5b10f828c81ffdee6bbd5965c4a86091da3f60c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:59 +0000
Subject: [PATCH 146/173] fix: test set overlapped training set with both skip
 and skiptrain

---
 discodop/runexp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/runexp.py b/discodop/runexp.py
index ffc3dcb..6618cdf 100644
--- a/discodop/runexp.py
+++ b/discodop/runexp.py
@@ -92,7 +92,8 @@ def startexp(
 				* len(testsettb.blocks()))
 	if prm.testcorpus.skiptrain:
 		prm.testcorpus.skip += (  # pylint: disable=maybe-no-member
-				prm.traincorpus.numsents)  # pylint: disable=maybe-no-member
+				prm.traincorpus.skip
+				+ prm.traincorpus.numsents)  # pylint: disable=maybe-no-member
 
 	test_blocks = OrderedDict()
 	test_trees = OrderedDict()
-- 
2.43.0


From fe7716c358f6a89c3e3433a83175fc327026f5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:23 +0000
Subject: [PATCH 147/173] fix: probability of sentence without parse was
 printed twice

---
 discodop/parser.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index c2dadd7..0f35b8a 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -960,8 +960,6 @@ def worker(args):
 	output = ''
 	if result.noparse:
 		msg += '\nNo parse for "%s"' % ' '.join(sent)
-		if PARAMS.printprob:
-			output += 'prob=%.16g\n' % result.prob
 		output += writetree(
 				result.parsetree, sent,
 				key if PARAMS.numparses == 1 else ('%s-1' % key),
-- 
2.43.0


From c5e881d447b84fac988e0bc55b5b97815b357312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:23 +0000
Subject: [PATCH 148/173] fix: discodop parser --prob failed with shortest
 derivation objective

---
 discodop/parser.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index 0f35b8a..f626d90 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -818,6 +818,11 @@ def probstr(prob):
 	return 'p=%.4g' % prob
 
 
+def commentprob(prob):
+	"""Render probability as a comment for a tree."""
+	return 'prob=%.16g' % (prob[1] if isinstance(prob, tuple) else prob)
+
+
 def probmult(prob1, prob2):
 	"""Multiply probabilities (and optionally number of subtrees)."""
 	if prob1 == 1:
@@ -964,8 +969,7 @@ def worker(args):
 				result.parsetree, sent,
 				key if PARAMS.numparses == 1 else ('%s-1' % key),
 				PARAMS.fmt, morphology=PARAMS.morphology,
-				comment=('prob=%.16g' % result.prob)
-					if PARAMS.printprob else None)
+				comment=commentprob(result.prob) if PARAMS.printprob else None)
 	else:
 		tmp = []
 		for k, (tree, prob, _) in enumerate(nlargest(
@@ -977,8 +981,7 @@ def worker(args):
 					tree, sent,
 					key if PARAMS.numparses == 1 else ('%s-%d' % (key, k)),
 					PARAMS.fmt, morphology=PARAMS.morphology,
-					comment=('prob=%.16g' % prob)
-						if PARAMS.printprob else None))
+					comment=commentprob(prob) if PARAMS.printprob else None))
 		output += ''.join(tmp)
 	sec = process_time() - begin
 	msg += '\n%g s' % sec
-- 
2.43.0


From 61833e4e1b11709626aad6eb858384a5c138a355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:06 +0000
Subject: [PATCH 149/173] fix: discodop parser failed with division by zero on
 input without sentences

---
 discodop/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index f626d90..96d7b45 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -1017,7 +1017,7 @@ def doparsing(parser, infile, out, printprob, oneline, usetags, numparses,
 			times.append(sec)
 			sys.stderr.flush()
 			out.flush()
-	print('average time per sentence', sum(times) / len(times),
+	print('average time per sentence', sum(times) / max(1, len(times)),
 			'\nunparsed sentences:', unparsed,
 			'\nfinished',
 			file=sys.stderr)
-- 
2.43.0


From a01add9646a81e646248d588c5485df6bcdc29c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:30 +0000
Subject: [PATCH 150/173] fix: discodop parser -b gave too few parses with a
 plain PLCFRS grammar

---
 discodop/parser.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/discodop/parser.py b/discodop/parser.py
index 96d7b45..02e7c85 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -153,10 +153,13 @@ class Parser(object):
 		:py:func:`parser.readparam()`.
 	:param funcclassifier: optionally, a function tag classifier trained by
 		:py:func:`functiontags.trainfunctionclassifier`.
+	:param numparses: the number of parses that will be requested; when this is
+		more than one, parsing does not stop at the most probable derivation.
 	"""
 
-	def __init__(self, prm, funcclassifier=None, loadtrees=False):
+	def __init__(self, prm, funcclassifier=None, loadtrees=False, numparses=1):
 		self.prm = prm
+		self.numparses = numparses
 		self.stages = prm.stages
 		self.transformations = prm.transformations
 		self.binarization = prm.binarization
@@ -346,7 +349,7 @@ class Parser(object):
 				elif stage.mode == 'plcfrs':
 					chart, msg1 = plcfrs.parse(
 							sent, stage.grammar, tags=tags, start=root,
-							exhaustive=stage.dop or (
+							exhaustive=stage.dop or self.numparses > 1 or (
 								n + 1 != len(self.stages)
 								and self.stages[n + 1].prune),
 							whitelist=whitelist,
@@ -1079,7 +1082,7 @@ def main():
 		prm = DictObj(stages=stages, verbosity=int(opts.get('--verbosity', 2)),
 				transformations=None, binarization=None, postagging=None,
 				relationalrealizational=None)
-		parser = Parser(prm)
+		parser = Parser(prm, numparses=numparses)
 		morph = None
 		del args[:2]
 	else:
@@ -1091,7 +1094,7 @@ def main():
 		readgrammars(directory, params.stages, params.postagging,
 				params.transformations, top=getattr(params, 'top', top))
 		params.update(verbosity=int(opts.get('--verbosity', params.verbosity)))
-		parser = Parser(params)
+		parser = Parser(params, numparses=numparses)
 		morph = params.morphology
 		del args[:1]
 	with openread(args[0] if len(args) >= 1 else '-') as infile:
-- 
2.43.0


From 6ac585b78e70394fbe4f6e3499f059f6b54e9675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:13 +0000
Subject: [PATCH 151/173] fix: crash after saving a treebank read with
 Ctrees.fromfilemut()

---
 discodop/containers.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discodop/containers.pyx b/discodop/containers.pyx
index 968945a..45595d2 100644
--- a/discodop/containers.pyx
+++ b/discodop/containers.pyx
@@ -593,7 +593,8 @@ cdef class Ctrees:
 					+ ob.len * sizeof(NodeArray)]),
 				ob.numnodes * sizeof(Node))
 		# create mutable copy of mrb
-		ob.prodindex = [RoaringBitmap(a) for a in prodindex]
+		# NB: no empty bitmaps; bufsize() of result of tofile() would be wrong
+		ob.prodindex = [RoaringBitmap(a) if a else None for a in prodindex]
 		return ob
 
 	def addtrees(self, items, Vocabulary vocab, index=True):
-- 
2.43.0


From f4a2d8fc8c55e37d75dbc95b833426c569638367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:11 +0000
Subject: [PATCH 152/173] fix: comments with %% in export format were truncated
 when read

---
 discodop/treebank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index e77b9b9..9f5a49e 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -573,7 +573,7 @@ def exporttree(block, functions=None, morphology=None, lemmas=None):
 			results.append(child)
 		return results
 
-	comment = block[0].split('%%')[1].strip() if '%%' in block[0] else None
+	comment = block[0].split('%%', 1)[1].strip() if '%%' in block[0] else None
 	table = [exportsplit(x) for x in block[1:-1]]
 	sent = []
 	children = {'0': []}
-- 
2.43.0


From 09112b4acd36d07381939b2ea3ac6082b617aab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:51 +0000
Subject: [PATCH 153/173] fix: crash with discodop fragments --complete
 --numproc

---
 discodop/fragments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/fragments.py b/discodop/fragments.py
index 8728c46..a46e70c 100644
--- a/discodop/fragments.py
+++ b/discodop/fragments.py
@@ -207,7 +207,7 @@ def regular(filenames, numproc, limit, encoding):
 	if numproc != 1:
 		pool.close()
 		pool.join()
-		del dowork, pool
+		del pool
 	return fragmentkeys, counts
 
 
-- 
2.43.0


From 309a1d7564fa8642a9d95ad2fd875a0a25a85838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:43 +0000
Subject: [PATCH 154/173] fix: binarize() ignored filterlabels for labels of
 the form A/B

---
 discodop/treetransforms.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/discodop/treetransforms.py b/discodop/treetransforms.py
index 93a69c6..7acaf80 100644
--- a/discodop/treetransforms.py
+++ b/discodop/treetransforms.py
@@ -159,6 +159,8 @@ def binarize(tree, factor='right', horzmarkov=999, vertmarkov=1,
 				childlabels = [labelfun(child) for child in node]
 			else:
 				childlabels = []
+			skip = [a for a in childlabels
+					if a.split('/', 1)[0] in filterlabels]
 			childnodes = list(node)
 			numchildren = len(childnodes)
 
@@ -185,7 +187,7 @@ def binarize(tree, factor='right', horzmarkov=999, vertmarkov=1,
 				if dot:
 					siblings += '.'
 				siblings += ','.join(a for a in childlabels[start:end]
-						if a not in filterlabels)
+						if a not in skip)
 				mark = '<%s>%s' % (siblings, parents)
 				if ids is not None:  # numeric identifier
 					mark = '<%s>' % ids[mark]
@@ -218,18 +220,18 @@ def binarize(tree, factor='right', horzmarkov=999, vertmarkov=1,
 					siblings += childlabels[headidx] + ';'
 				if dot:
 					siblings += ','.join(a for a in childlabels[:start]
-							if a not in filterlabels) + '.'
+							if a not in skip) + '.'
 				if revhorzmarkov:
 					if factor == 'right':
 						siblings += ','.join(a for a in childlabels[
 								max(start - revhorzmarkov, 0):start]
-								if a not in filterlabels) + ';'
+								if a not in skip) + ';'
 					else:  # factor == 'left':
 						siblings += ','.join(a for a in childlabels[
 								end:end + revhorzmarkov]
-								if a not in filterlabels) + ';'
+								if a not in skip) + ';'
 				siblings += ','.join([a for a in childlabels[start:]
-						if a not in filterlabels][:horzmarkov])
+						if a not in skip][:horzmarkov])
 				mark = '<%s>%s' % (siblings, parents)
 				if ids is not None:  # numeric identifier
 					mark = '<%s>' % ids[mark]
-- 
2.43.0


From 0dd38c75e1015abafa4b591129390baa9379b1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:05 +0000
Subject: [PATCH 155/173] fix: function tag of labels such as NP-SBJ-1 was read
 as SBJ-

---
 discodop/treebank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 9f5a49e..f850940 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -246,7 +246,7 @@ class BracketCorpusReader(CorpusReader):
 				if x > 0:
 					if char == '-' and not node.label[x + 1:].isdigit():
 						node.source[FUNC] = node.label[x + 1:].rstrip(
-								'=0123456789')
+								'-=0123456789') or '--'
 					if self.functions == 'remove':
 						node.label = node.label[:x]
 		sent = [unescape(token) for token in LEAVESRE.findall(block)]
@@ -297,7 +297,7 @@ class DiscBracketCorpusReader(BracketCorpusReader):
 				if x > 0:
 					if char == '-' and not node.label[x + 1:].isdigit():
 						node.source[FUNC] = node.label[x + 1:].rstrip(
-								'=0123456789')
+								'-=0123456789') or '--'
 					if self.functions == 'remove':
 						node.label = node.label[:x]
 		return Item(tree, sent, comment, block)
-- 
2.43.0


From 09f2a6061ea0e0f2a4d96f1a7c2da0a3f179c92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:36 +0000
Subject: [PATCH 156/173] fix: crash with empty constituents in French treebank
 XML

---
 discodop/treebank.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index f850940..597406f 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -695,8 +695,9 @@ def ftbtree(block, functions=None, morphology=None, lemmas=None):
 			result = ParentedTree(label, [])
 			for child in node:
 				subtree = getsubtree(child)
-				subtree.source[PARENT] = nodeid
-				result.append(subtree)
+				if subtree is not None:  # empty constituents are left out
+					subtree.source[PARENT] = nodeid
+					result.append(subtree)
 			if not result:
 				return None
 		source[:] = [a.replace(' ', '_') if a else a for a in source]
-- 
2.43.0


From 058b86436bd314c42644d07711ea7e333db1d8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:43 +0000
Subject: [PATCH 157/173] fix: drawings lost marks of nodes with both kinds of
 secondary edges

---
 discodop/tree.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index e0c8545..c270c48 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1332,12 +1332,10 @@ class DrawTree(object):
 				edges[ids[i + (j, )]] = ids[i]
 
 		# handle secondary edges
-		labels = {}
+		labels = {a: node.label if isinstance(node, Tree) else node
+				for a, node in nodes.items()}
+		targets, sources = {}, {}
 		for a in nodes:
-			labels.setdefault(a,
-					(nodes[a].label
-							if isinstance(nodes[a], Tree)
-							else nodes[a]))
 			if (secedge and isinstance(nodes[a], Tree)
 					and nodes[a].source is not None):
 				coindexes = []
@@ -1347,16 +1345,17 @@ class DrawTree(object):
 					for b, node in nodes.items():
 						if (getattr(node, 'source', None) is not None
 								and node.source[0] == '#%s' % secedgeparent):
-							labels[b] = (node.label
-									+ '=%d' % (int(secedgeparent) - 500))
+							targets[b] = '=%d' % (int(secedgeparent) - 500)
 							break
 					else:
 						continue  # skip secondary edge to missing node
 					coindexes.append('%s:%d' % (
 							secedgelabel, int(secedgeparent) - 500))
 				if coindexes:
-					labels[a] = '%s[%s]' % (nodes[a].label,
-							','.join(coindexes))
+					sources[a] = '[%s]' % ','.join(coindexes)
+		# a node can be both the source and the target of secondary edges
+		for a in targets.keys() | sources.keys():
+			labels[a] += targets.get(a, '') + sources.get(a, '')
 
 		return nodes, coords, edges, labels
 
-- 
2.43.0


From 46876211837aed055ee794641aaff79460567b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:43 +0000
Subject: [PATCH 158/173] fix: words and labels were not escaped in drawings of
 dependencies

---
 discodop/tree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index c270c48..048722a 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1861,12 +1861,12 @@ class DrawDependencies(object):
 					'onmouseover="highlightdep(\'w%d\'); " '
 					'onmouseout="nohighlightdep(); "'
 					'>%s</text>' % (
-					n, xpos[n], height - wordheight, n, word))
+					n, xpos[n], height - wordheight, n, htmlescape(word)))
 			result.append('<text class="tag w%d" x=%d y=%d '
 					'onmouseover="highlightdep(\'w%d\'); " '
 					'onmouseout="nohighlightdep(); " '
 					'fill=blue text-anchor=middle>%s</text>' % (
-					n, xpos[n], height - 4, n, pos))
+					n, xpos[n], height - 4, n, htmlescape(pos)))
 
 		for n, deplabel, head in self.deps:
 			start = xpos[head] + random.randint(0, 4) * 5
@@ -1886,7 +1886,7 @@ class DrawDependencies(object):
 					"marker-end='url(#head)'/>" % (head, n, path))
 			result.append('<text class="dependency w%d w%d" x=%d y=%d '
 					'fill=green text-anchor=middle>%s</text>' % (
-						head, n, mid, arrow + 15, deplabel))
+						head, n, mid, arrow + 15, htmlescape(deplabel)))
 		width = x + 30
 		result.insert(0, '<svg xmlns="http://www.w3.org/2000/svg" '
 				'width=%d height=%d style="font-family: monospace; ">' % (
-- 
2.43.0


From 9a56f5ccaaa1885e7b1df5a7540b709ce2ef2838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:17 +0000
Subject: [PATCH 159/173] fix: unlabeled dependency evaluation depended on
 labels and deletions

---
 discodop/eval.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index 62d4b5e..e5b9094 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -361,6 +361,14 @@ class TreePairResult(object):
 			raise ValueError('candidate & gold sentences do not match:\n'
 					'%r // %r' % (' '.join(csent), ' '.join(gsent)))
 		gpos = dict(self.gpos)
+		if self.param['DEP']:
+			# punctuation is not deleted for dependency evaluation;
+			# compare unlabeled dependencies of tokens in the candidate
+			cnum = {n + 1: m + 1 for n, m in align.items()}
+			cnum[0] = 0
+			present = set(cnum.values())
+			cdep = [(cnum[a], cnum[b]) for a, _, b in dependencies(ctree)]
+			gdep = [(a, b) for a, _, b in dependencies(gtree) if a in present]
 		# massage the data (in-place modifications)
 		self.ctree = transform(ctree, self.csent, self.cpos,
 				{n: gpos[m] for n, m in align.items()},
@@ -405,8 +413,7 @@ class TreePairResult(object):
 			self.ted, self.denom = treedisteval(self.gtree, self.ctree,
 				includeroot=self.gtree.label not in self.param['DELETE_LABEL'])
 		if self.param['DEP']:
-			self.cdep = dependencies(self.ctree)
-			self.gdep = dependencies(self.gtree)
+			self.cdep, self.gdep = cdep, gdep
 		self.pgbrack = parentedbracketings(self.gtree, labeled=True,
 				dellabel=self.param['DELETE_LABEL'],
 				disconly=self.param['DISC_ONLY'])
@@ -484,12 +491,12 @@ class TreePairResult(object):
 		if self.param['DEP']:
 			print('Sentence:', ' '.join(self.gsent))
 			print('dependencies gold', ' ' * 35, 'cand')
-			for (a, _, b), (c, _, d) in zip(self.gdep, self.cdep):
+			words = ['ROOT'] + self.gsentorig
+			for (a, b), (c, d) in zip(self.gdep, self.cdep):
 				# use original sentences because we don't delete
 				# punctuation for dependency evaluation
 				print('%15s -> %15s           %15s -> %15s' % (
-					self.gsentorig[a - 1][0], self.gsentorig[b - 1][0],
-					self.csentorig[c - 1][0], self.csentorig[d - 1][0]))
+					words[a], words[b], words[c], words[d]))
 		print()
 
 	def scores(self):
-- 
2.43.0


From 4c3dd666ddb4586b05448821020873ff2ca01bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:59 +0000
Subject: [PATCH 160/173] fix: order of children after deletion affected
 evaluation

---
 discodop/eval.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/eval.py b/discodop/eval.py
index e5b9094..c08eb33 100644
--- a/discodop/eval.py
+++ b/discodop/eval.py
@@ -17,7 +17,7 @@ from itertools import count, zip_longest
 from . import grammar
 from .tree import Tree, DrawTree, isdisc, bitfanout
 from .treebank import READERS, dependencies, handlefunctions
-from .treetransforms import getbits
+from .treetransforms import getbits, canonicalize
 from .treebanktransforms import functions
 from .treedist import treedist, newtreedist
 
@@ -825,7 +825,8 @@ def transform(tree, sent, pos, gpos, param, grootpos):
 		a[0] = leafmap[a[0]]
 		if sent[a[0]] in param['EQ_WORD']:
 			sent[a[0]] = param['EQ_WORD'][sent[a[0]]]
-	return tree.freeze()
+	# children of deleted nodes may precede other children in the sentence
+	return canonicalize(tree).freeze()
 
 
 def parentedbracketings(tree, labeled=True, dellabel=(), disconly=False):
-- 
2.43.0


From 6a86f11cb444bf6706fca82d00d259b449f40aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:25 +0000
Subject: [PATCH 161/173] fix: D-level 1 was reported as 2

---
 discodop/treebanktransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/treebanktransforms.py b/discodop/treebanktransforms.py
index c27fcdd..946be13 100644
--- a/discodop/treebanktransforms.py
+++ b/discodop/treebanktransforms.py
@@ -1605,7 +1605,7 @@ def dlevel(tree, lang='nl'):
 			vcid = node.source[WORD].lstrip('#')
 			for sib in node.parent:
 				if function(sib) == 'su' and hassecedge(sib, 'su', vcid):
-					return 2
+					return 1
 	# 0: simple sentence
 	return 0
 
-- 
2.43.0


From 63fe6586e243160d1acb7a4a278870d2c4e2e6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:45 +0000
Subject: [PATCH 162/173] fix: several commands could not read zst files;
 partial reading blocked

---
 discodop/_fragments.pyx | 30 +++++++++++++++---------------
 discodop/cli.py         | 15 ++++++++++-----
 discodop/parser.py      |  3 ++-
 discodop/util.py        |  2 ++
 4 files changed, 29 insertions(+), 21 deletions(-)

diff --git a/discodop/_fragments.pyx b/discodop/_fragments.pyx
index 83aa140..c1cfa4e 100644
--- a/discodop/_fragments.pyx
+++ b/discodop/_fragments.pyx
@@ -1257,21 +1257,21 @@ def readtreebank(treebankfile, Vocabulary vocab,
 		stack = clone(shortarray, 0, False)
 		labels = clone(intarray, 0, False)
 		children = []  # list of lists
-		data = openread(treebankfile, encoding=encoding)
-		for n, line in enumerate(islice(data, limit), 1):
-			cnt = line.count('(')
-			if cnt > maxnodes:
-				maxnodes = 2 * cnt
-				scratch = <Node *>realloc(scratch,
-						maxnodes * binfactor * sizeof(Node))
-				if scratch is NULL:
-					raise MemoryError('allocation error')
-			cnt = readtree(line, vocab, scratch, stack, labels, children)
-			if cnt <= 0:
-				raise ValueError('error %d in line %d: %s\n%s' % (
-						cnt, n, TREEPARSEMSG[-cnt], line))
-			ctrees.addnodes(scratch, cnt, 0)
-			del labels[:], children[:]
+		with openread(treebankfile, encoding=encoding) as data:
+			for n, line in enumerate(islice(data, limit), 1):
+				cnt = line.count('(')
+				if cnt > maxnodes:
+					maxnodes = 2 * cnt
+					scratch = <Node *>realloc(scratch,
+							maxnodes * binfactor * sizeof(Node))
+					if scratch is NULL:
+						raise MemoryError('allocation error')
+				cnt = readtree(line, vocab, scratch, stack, labels, children)
+				if cnt <= 0:
+					raise ValueError('error %d in line %d: %s\n%s' % (
+							cnt, n, TREEPARSEMSG[-cnt], line))
+				ctrees.addnodes(scratch, cnt, 0)
+				del labels[:], children[:]
 		if not ctrees.len:
 			raise ValueError('%r appears to be empty' % treebankfile)
 	free(scratch)
diff --git a/discodop/cli.py b/discodop/cli.py
index 2677dfb..ac53e27 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -60,6 +60,11 @@ Pipe the output through 'less -R' to preserve the colors."""
 	except ImportError:
 		izip = zip
 
+	def readlines(fname, encoding):
+		"""Iterate over the lines of a file."""
+		with openread(fname, encoding=encoding) as inp:
+			yield from inp
+
 	def processtree(tree, sent):
 		"""Produced output for a single tree."""
 		dt = DrawTree(
@@ -127,8 +132,7 @@ Pipe the output through 'less -R' to preserve the colors."""
 		if not args:
 			args = ['-']
 		stream = chain.from_iterable(
-				openread(fname, encoding=encoding)
-				for fname in args)
+				readlines(fname, encoding) for fname in args)
 		trees = islice(incrementaltreereader(stream,
 				morphology=opts.get('--morphology'),
 				functions=opts.get('--functions'),
@@ -449,9 +453,10 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 		elif not prm.postagging:
 			lexmodel = None
 	elif model == 'ptsg':  # read fragments
-		xfragments = {frag: convertweight(weight) for frag, weight
-				in (line.split('\t') for line in openread(treebankfile,
-					encoding=opts.get('--inputenc', 'utf8')))}
+		with openread(treebankfile,
+				encoding=opts.get('--inputenc', 'utf8')) as inp:
+			xfragments = {frag: convertweight(weight) for frag, weight
+					in (line.split('\t') for line in inp)}
 		bitpar = STRTERMRE.search(next(iter(xfragments))) is not None
 		if bitpar:
 			xfragments = {addindices(frag): weight for frag, weight
diff --git a/discodop/parser.py b/discodop/parser.py
index 02e7c85..8ccba27 100644
--- a/discodop/parser.py
+++ b/discodop/parser.py
@@ -1059,7 +1059,8 @@ def main():
 		rules, lexicon = args[0], args[1]
 		backtransform = None
 		if opts.get('--bt'):
-			backtransform = openread(opts.get('--bt')).read().splitlines()
+			with openread(opts.get('--bt')) as inp:
+				backtransform = inp.read().splitlines()
 		gram = Grammar(rules, lexicon, start=top, backtransform=backtransform)
 		mode = 'pcfg' if gram.maxfanout == 1 else 'plcfrs'
 		stages = []
diff --git a/discodop/util.py b/discodop/util.py
index 0202fea..7f54aef 100644
--- a/discodop/util.py
+++ b/discodop/util.py
@@ -59,6 +59,8 @@ def genericdecompressor(cmd, filename, encoding='utf8'):
 		# filling up and blocking the child process.
 		yield proc.stdout if encoding is None else codecs.getreader(
 				encoding)(proc.stdout)
+		while proc.stdout.read(65536):  # NB: unread output blocks the process
+			pass
 		retcode = proc.wait()
 		if retcode:  # FIXME: retcode 2 means warning. allow warnings?
 			raise ValueError('non-zero exit code %s from compressor %s:\n%r'
-- 
2.43.0


From f9a81c4dbb96b71308dab8499c26499c42df83fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:01 +0000
Subject: [PATCH 163/173] fix: grammar statistics did not count labels of rules
 with more than two children

---
 discodop/grammar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index 92d3cff..c19288b 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -1136,12 +1136,12 @@ def grammarinfo(grammar, dump=None):
 		times, etc.)"""
 	lhs = {rule[0] for (rule, yf), w in grammar}
 	numrules = len(grammar)
-	result = "labels: %d" % len({rule[a] for (rule, yf), w in grammar
-							for a in range(3) if len(rule) > a})
+	result = "labels: %d" % len({label for (rule, yf), w in grammar
+							for label in rule})
 	result += " of which preterminals: %d\n" % (
 		len({rule[0] for (rule, yf), w in grammar if rule[1] == 'Epsilon'})
-		or len({rule[a] for (rule, yf), w in grammar
-				for a in range(1, 3) if len(rule) > a and rule[a] not in lhs}))
+		or len({label for (rule, yf), w in grammar
+				for label in rule[1:] if label not in lhs}))
 	numlexical = sum(1 for (rule, yf), w in grammar if rule[1] == 'Epsilon')
 	result += "clauses: %d  lexical clauses: %d" % (numrules, numlexical)
 	result += " non-lexical clauses: %d\n" % (numrules - numlexical)
-- 
2.43.0


From c8e953ee245d6be49f10c8b52d91a3f9f2509a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:52 +0000
Subject: [PATCH 164/173] fix: drawing of indices of discontinuous trees showed
 wrong indices

---
 discodop/tree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index 048722a..ee62572 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -564,11 +564,11 @@ class Tree(object):
 
 	def draw(self):
 		""":returns: an ASCII art visualization of tree."""
-		return DrawTree(self, ['%d' % a for a in self.leaves()]).text()
+		return DrawTree(self).text()
 
 	def _repr_svg_(self):
 		"""Return a rich representation for IPython notebook."""
-		return DrawTree(self, ['%d' % a for a in self.leaves()]).svg()
+		return DrawTree(self).svg()
 
 
 class ImmutableTree(Tree):
@@ -1086,7 +1086,7 @@ class DrawTree(object):
 			leaves = self.tree.leaves()
 			if (leaves and all(len(a) for a in self.tree.subtrees())
 					and all(isinstance(a, int) for a in leaves)):
-				self.sent = ['%d' % a for a in leaves]
+				self.sent = ['%d' % a for a in range(max(leaves) + 1)]
 			else:
 				# this deals with empty nodes (frontier non-terminals)
 				# and multiple/mixed terminals under non-terminals.
-- 
2.43.0


From 02a34219bfd785738ba472cbb155ddf93f6f16f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:08 +0000
Subject: [PATCH 165/173] fix: latex drawing of labels with siblings and
 parents dropped a character

---
 discodop/tree.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/discodop/tree.py b/discodop/tree.py
index ee62572..b7874e2 100644
--- a/discodop/tree.py
+++ b/discodop/tree.py
@@ -1905,14 +1905,13 @@ def latexlabel(label):
 	# turn binarization marker into subscripts in math mode
 	if '|' in newlabel:
 		cat, siblings = newlabel.split('|', 1)
-		siblings = siblings.strip('<>')
 		if '^' in siblings:
 			siblings, parents = siblings.rsplit('^', 1)
 			newlabel = '$ \\textsf{%s}_\\textsf{%s}^\\textsf{%s} $' % (
-					cat, siblings[1:-1], parents)
+					cat, siblings.strip('<>'), parents.strip('<>'))
 		else:
 			newlabel = '$ \\textsf{%s}_\\textsf{%s} $' % (
-					cat, siblings)
+					cat, siblings.strip('<>'))
 	else:
 		newlabel = newlabel.replace('<', '$<$').replace('>', '$>$')
 	return newlabel
-- 
2.43.0


From e216b6799c47cd07185909c83fe170944cd39407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:19 +0000
Subject: [PATCH 166/173] fix: grammar dop1 did not write the table to recover
 fragments

---
 discodop/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index ac53e27..84f6116 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -518,7 +518,7 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 		rulesfile.write(rules)
 	with codecs.getwriter('utf8')(myopen(lexiconname, 'wb')) as lexiconfile:
 		lexiconfile.write(lexicon)
-	if model in ('doubledop', 'ptsg'):
+	if model in ('doubledop', 'dop1', 'ptsg'):
 		backtransformfile = '%s.backtransform%s' % (grammarfile,
 			'.gz' if '--gzip' in opts else '')
 		with codecs.getwriter('utf8')(myopen(backtransformfile, 'wb')) as bt:
-- 
2.43.0


From 0905fdc5d6a0512174a96721b75d95f8279252e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:17 +0000
Subject: [PATCH 167/173] fix: grammar param did not write the closed class
 words used by the parser

---
 discodop/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discodop/cli.py b/discodop/cli.py
index 84f6116..3df7e1b 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -450,6 +450,8 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 				prm.transformations, prm.relationalrealizational, resultdir)
 		if prm.postagging and prm.postagging.method == 'unknownword':
 			sents, lexmodel = getposmodel(prm.postagging, train_tagged_sents)
+			with open(resultdir + '/closedclasswords.txt', 'w') as out:
+				out.writelines(w + '\n' for w in lexmodel[3])
 		elif not prm.postagging:
 			lexmodel = None
 	elif model == 'ptsg':  # read fragments
-- 
2.43.0


From c7db872bc0bc3c75b923f9ea207079775b668dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:46 +0000
Subject: [PATCH 168/173] fix: grammar param failed with an external
 part-of-speech tagger

---
 discodop/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discodop/cli.py b/discodop/cli.py
index 3df7e1b..c1ae547 100644
--- a/discodop/cli.py
+++ b/discodop/cli.py
@@ -452,7 +452,7 @@ or: discodop grammar merge (rules|lexicon|fragments) \
 			sents, lexmodel = getposmodel(prm.postagging, train_tagged_sents)
 			with open(resultdir + '/closedclasswords.txt', 'w') as out:
 				out.writelines(w + '\n' for w in lexmodel[3])
-		elif not prm.postagging:
+		else:
 			lexmodel = None
 	elif model == 'ptsg':  # read fragments
 		with openread(treebankfile,
-- 
2.43.0


From fe2a24e8fd9bbaa55d80eeee5256b5e8e975e583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:49 +0000
Subject: [PATCH 169/173] fix: osTAG reduction counted the weight of an
 auxiliary tree once per node

---
 discodop/grammar.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/discodop/grammar.py b/discodop/grammar.py
index c19288b..e8d34d5 100644
--- a/discodop/grammar.py
+++ b/discodop/grammar.py
@@ -590,11 +590,11 @@ def ostagreduction(inittrees, auxtrees, packedgraph=False, extrarules=None):
 							'\t'.join(child.label for child in node),
 							yfstr)
 					rules[rule] += 1
-			# rule type 3 (type 4 eliminated):
-			# M => N(M) s.t. N is an aux root node
-			for m in adjsites[REMOVEDEC.sub('', tree.label)]:
-				rule = '%s\t%s\t0' % (m, '%s[%s]' % (tree.label, m))
-				rules[rule] += weight
+		# rule type 3 (type 4 eliminated):
+		# M => N(M) s.t. N is an aux root node
+		for m in adjsites[REMOVEDEC.sub('', tree.label)]:
+			rule = '%s\t%s\t0' % (m, '%s[%s]' % (tree.label, m))
+			rules[rule] += weight
 		cnt += 1
 		if cnt % 100 == 0:
 			logging.info('proccessed aux tree %d / %d', cnt, len(auxtrees))
-- 
2.43.0


From f68b3cd7e11b31fb55cb580198a396398859ce3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:41 +0000
Subject: [PATCH 170/173] fix: fragments of osTAG derivations were wrong or
 missing with substitution at adjunction sites and repeated adjunction

---
 discodop/disambiguation.pyx | 106 +++++++++++++++++++-----------------
 1 file changed, 55 insertions(+), 51 deletions(-)

diff --git a/discodop/disambiguation.pyx b/discodop/disambiguation.pyx
index 8a8e6e5..66faf61 100644
--- a/discodop/disambiguation.pyx
+++ b/discodop/disambiguation.pyx
@@ -17,11 +17,11 @@ from itertools import count
 from functools import partial
 from collections import defaultdict
 from . import plcfrs, _fragments
-from .tree import (Tree, ParentedTree, ImmutableTree, writediscbrackettree,
+from .tree import (Tree, ImmutableTree, writediscbrackettree,
 		unescape)
 from .kbest import lazykbest
 from .kbest cimport getderiv
-from .grammar import lcfrsproductions, spinal, REMOVEDEC
+from .grammar import lcfrsproductions, REMOVEDEC
 from .treetransforms import (addbitsets, unbinarize, canonicalize,
 		collapseunary, mergediscnodes, binarize)
 from .bit import pyintnextset, pyintbitcount
@@ -196,8 +196,8 @@ cpdef marginalize(method, Chart chart, list sent=None, list tags=None,
 	else:  # DOP reduction
 		for n, (deriv, prob) in enumerate(chart.derivations):
 			if ostag:
-				deriv = removeadjunaries(deriv)
-				treestr = REMOVEDEC.sub('@1' if mpd or shortest else '', deriv)
+				treestr = REMOVEDEC.sub('@1' if mpd or shortest else '',
+						removeadjunaries(deriv))
 			elif dopreduction:
 				treestr = REMOVEIDS.sub('@1' if mpd or shortest else '', deriv)
 			else:
@@ -1032,59 +1032,63 @@ def mcrerank(parsetrees, sent, k, trees, vocab):
 def ostagderivation(derivtreestr, sent):
 	"""Extract the list of fragments that were used in a given derivation.
 
+	:param derivtreestr: a derivation, including the artificial unary
+		adjunction nodes.
 	:returns: a list of fragments of the form ``(tree, sent)``"""
-	derivtree = ParentedTree(derivtreestr)
-	# tmp = [REMOVEDEC.sub('', str(splitostagfrag(node, sent)))
-	try:
-		tmp = [str(splitostagfrag(node, sent))
-				for node in derivtree.subtrees(ostagfrontiernt)]
-		return [(_fragments.pygetsent(frag), None) for frag in tmp]
-	except Exception:
-		return []
+	agenda = [Tree(derivtreestr)]  # substitution sites
+	result = []
+	while agenda:
+		node = ostagsite(agenda.pop(0), sent, agenda, result)
+		result.append(ostagfrag(node, None, sent, agenda, result))
+	return [(frag, None) for frag in result]
 
 
-def ostagfrontiernt(node):
-	"""Test if osTAG derivation node is a substitution/adjunction site."""
-	return ('@' not in node.label
-			or '[' in node.label and '[' not in node.parent.label)
+def ostagsite(node, sent, agenda, result):
+	"""Skip trees adjoined at node; return the foot node of the last one."""
+	while (isinstance(node[0], Tree)
+			and node[0].label.endswith('$[%s]' % node.label)):
+		foot = ostagfoot(node[0], node.label)
+		result.append(ostagfrag(node[0], foot, sent, agenda, result))
+		node = foot
+	return node
 
 
-def splitostagfrag(node, sent):
-	"""Return copy of tree after pruning subtrees that are subst/adj sites."""
-	children = []
-	# FIXME: hopefully this can be simplified...
+def ostagfoot(node, site):
+	"""Return the foot node of an auxiliary tree adjoined at label ``site``."""
 	for child in node:
-		if not isinstance(child, Tree):
-			children.append('%d=%s' % (child, sent[child]))
-		elif '@' not in child.label or (
-				'[' not in child.label and '[' in node.label
-				and node.label.endswith(child.label + ']')):
-			# this is a substitution site, or a foot node:
-			children.append(Tree(child.label,
-					['%d:%d' % (min(child.leaves()), max(child.leaves()))]))
-		elif '[' in child.label and '[' not in node.label:
-			# this is an adjunction site, skip aux tree until foot node:
-			while '[' in child.label:
-				if (spinal(child[0])
-						or child.label.endswith(child[0].label + ']')):
-					child = child[0]
-				else:
-					child = child[1]
-			if '@' in child.label:  # add rest of initial tree
-				children.extend(
-						['%d=%s' % (child[0], sent[child[0]])]
-						if isinstance(child[0], int)
-						else splitostagfrag(child, sent))
-			else:  # this is a substitution site
-				children.append(
-						'%d:%d' % (min(child.leaves()), max(child.leaves())))
-		else:
-			children.append(
-					ParentedTree(child.label,
-						['%d=%s' % (child[0], sent[child[0]])])
-					if isinstance(child[0], int)
-					else splitostagfrag(child, sent))
-	return Tree(node.label, children)
+		if child.label.endswith('$[%s]' % site):  # on the spine
+			return ostagfoot(child, site)
+	for child in node:
+		if child.label == site:
+			return child
+	raise ValueError('no foot node with label %s' % site)
+
+
+def ostagfrag(node, foot, sent, agenda, result):
+	"""Return the elementary tree at node as string.
+
+	Substitution sites are added to ``agenda``, fragments that were adjoined
+	to ``result``."""
+	def split(node):
+		"""Return copy of tree after pruning subst/adj sites."""
+		children = []
+		for child in node:
+			if not isinstance(child, Tree):
+				children.append(len(newsent))
+				newsent.append(sent[child])
+			elif child is foot or '@' not in child.label:
+				if child is not foot:
+					agenda.append(child)
+				children.append(Tree(child.label, [len(newsent)]))
+				newsent.append(None)
+			else:
+				children.append(Tree(child.label,
+						split(ostagsite(child, sent, agenda, result))))
+		return children
+
+	newsent = []
+	frag = Tree(node.label, split(node))
+	return writediscbrackettree(frag, newsent).rstrip()
 
 
 def removeadjunaries(tree):
-- 
2.43.0


From 81e79368bf0545be2248a36dbeae373557fa4853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:15 +0000
Subject: [PATCH 171/173] fix: osTAG stage without an earlier stage failed in
 experiments

---
 discodop/runexp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discodop/runexp.py b/discodop/runexp.py
index 6618cdf..1ff4971 100644
--- a/discodop/runexp.py
+++ b/discodop/runexp.py
@@ -415,8 +415,9 @@ def getgrammars(trees, sents, stages, testmaxwords, resultdir,
 			else:
 				raise ValueError('unrecognized DOP model: %r' % stage.dop)
 			nodes = sum(len(list(a.subtrees())) for a in traintrees)
-			msg = grammar.grammarinfo(xgrammar)
+			msg = None
 			if rules is None:
+				msg = grammar.grammarinfo(xgrammar)
 				rules, lex = grammar.writegrammar(xgrammar)
 			rulesfile = '%s/%s.rules.gz' % (resultdir, stage.name)
 			lexiconfile = '%s/%s.lex.gz' % (resultdir, stage.name)
@@ -434,7 +435,8 @@ def getgrammars(trees, sents, stages, testmaxwords, resultdir,
 					backtransform=backtransform)
 			logging.info('DOP model based on %d sentences, %d nodes, '
 				'%d nonterminals', len(traintrees), nodes, gram.nonterminals)
-			logging.info(msg)
+			if msg:
+				logging.info(msg)
 			if stage.estimator != 'rfe':
 				gram.switch('%s' % stage.estimator)
 			logging.info(gram.testgrammar()[1])
-- 
2.43.0


From d60f4192ff75382ce5d09204075224387979195e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:21 +0000
Subject: [PATCH 172/173] fix: tables in export files were read as empty trees
 by incrementaltreereader

---
 discodop/treebank.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 597406f..782589d 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -1215,8 +1215,12 @@ def segmentexport(morphology, functions, strict=False):
 			if strict and inblock == 0:
 				raise ValueError('#EOS or #EOT without start tag')
 			cur.append(line)
-			item = exporttree(cur, functions, morphology)
-			line = (yield ((item.tree, item.sent, item.comment), ), CONSUMED)
+			if inblock == 2:  # table with word tags, secondary edges, etc.
+				line = (yield None, CONSUMED)
+			else:
+				item = exporttree(cur, functions, morphology)
+				line = (yield ((item.tree, item.sent, item.comment), ),
+						CONSUMED)
 			inblock = 0
 			cur = []
 		elif line:
-- 
2.43.0


From 8849a9223fb32821efbe50bf621a18a49ab18aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:21 +0000
Subject: [PATCH 173/173] fix: comments in Alpino XML were written where they
 are not found

---
 discodop/treebank.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discodop/treebank.py b/discodop/treebank.py
index 782589d..910f0f4 100644
--- a/discodop/treebank.py
+++ b/discodop/treebank.py
@@ -874,10 +874,11 @@ def writealpinotree(tree, sent, key, commentstr):
 	addchildren(tree, sent, result, count())
 	sentence = ElementTree.SubElement(result, 'sentence')
 	sentence.text = ' '.join(sent)
-	comment = ElementTree.SubElement(result, 'comment')
+	comments = ElementTree.SubElement(result, 'comments')
+	comment = ElementTree.SubElement(comments, 'comment')
 	comment.text = ('%s|%s' % (key, commentstr)) if commentstr else str(key)
 	result.text = sentence.tail = '\n  '
-	result.tail = comment.tail = '\n'
+	result.tail = comments.tail = '\n'
 	return ElementTree.tostring(result).decode('utf8')  # hack
 
 
-- 
2.43.0

