BE = 'codeprep/bpepkg/bpe_encode.py'
BL = 'codeprep/bpepkg/bpe_learn.py'
U = 'codeprep/util.py'
SEEDS = [
 dict(id='c01-unescape-first-only', prop='C01', edits=[(BE, "p.replace(ESCAPE_CHAR + '@', ESCAPE_CHAR), parts))", "p.replace(ESCAPE_CHAR + '@', ESCAPE_CHAR, 1), parts))")],
  needs='a merge list that joins two escaped "@" characters into one subword, and a word with two adjacent "@"',
  breaks='a subword holding several escaped "@" is unescaped only once, so the subwords concatenate to a longer word',
  demo='''
from codeprep.bpepkg.bpe_encode import BpeData, get_bpe_subwords
from codeprep.bpepkg.merge import MergeList, Merge
m = MergeList().append(Merge(('@@', '@@'), 10, 0))
r = get_bpe_subwords('a@@b', BpeData({}, m))
print(r)
assert ''.join(r) == 'a@@b', r
'''),
 dict(id='c02-no-earlier-merge', prop='C02', edits=[
   (BE, "        while True:\n            merge_indices = []", "        last_merge_priority = -1\n        while True:\n            merge_indices = []"),
   (BE, "                    current_merge_candidate_priority = merges.get_priority(merge_candidate)\n",
        "                    current_merge_candidate_priority = merges.get_priority(merge_candidate)\n                    if current_merge_candidate_priority < last_merge_priority:\n                        # merges learned earlier have already been applied\n                        continue\n"),
   (BE, "            if not merge_indices:\n                break\n", "            if not merge_indices:\n                break\n            last_merge_priority = merge_candidate_priority\n")],
  needs='a merge list in which a later merge produces a symbol that an earlier merge uses (two derivations of the same symbol)',
  breaks='a pair that becomes adjacent only after a later merge is never merged although it is in the merge list',
  demo='''
from codeprep.bpepkg.bpe_encode import encode_word
from codeprep.bpepkg.merge import MergeList, Merge
m = MergeList()
for i, p in enumerate([('a', 'b'), ('b', 'c'), ('a', 'bc'), ('abc', 'd'), ('ab', 'c')]):
    m.append(Merge(p, 10 - i, i))
r = encode_word('abcd', m)
print(r)
assert r == ['abcd'], r
'''),
 dict(id='c03-memo', prop='C03', edits=[
   (BE, "def get_bpe_subwords(word: str, bpe_data: BpeData) -> List[str]:\n", "_encoded: Dict = {}\n\n\ndef get_bpe_subwords(word: str, bpe_data: BpeData) -> List[str]:\n"),
   (BE, "    else:\n        result = encode_word(word, merges)\n\n    return", "    else:\n        key = (word, len(merges))\n        if key not in _encoded:\n            _encoded[key] = encode_word(word, merges)\n        result = _encoded[key]\n\n    return")],
  needs='encoding the same word with two merge lists of the same length in one process',
  breaks='the segmentation of a word depends on what was encoded before with another merge list',
  demo='''
from codeprep.bpepkg.bpe_encode import BpeData, get_bpe_subwords
from codeprep.bpepkg.merge import MergeList, Merge
a = BpeData({}, MergeList().append(Merge(('a', 'b'), 10, 0)))
b = BpeData({}, MergeList().append(Merge(('b', 'c'), 10, 0)))
get_bpe_subwords('abc', a)
r = get_bpe_subwords('abc', b)
print(r)
assert r[:2] == ['a', 'bc'], r
'''),
 dict(id='c03-cache-alias', prop='C03', edits=[
   (BE, "    if word in cache:\n        result = cache[word]\n", "    if word in cache:\n        result = cache[word]\n        if len(result) > 1 and result[-1] == ESCAPE_CHAR:\n            # the end mark on its own is not a subword\n            cache[word] = result = result[:-2] + [result[-2] + result.pop()]\n")],
  needs='a cached word whose end mark was not merged, encoded twice or with the entry inspected afterwards',
  breaks='encoding changes the cache entry and gives another segmentation than computing it from the merges',
  demo='''
from codeprep.bpepkg.bpe_encode import BpeData, get_bpe_subwords
from codeprep.bpepkg.merge import MergeList
c = {'ab@': ['a', 'b', '@']}
d = BpeData(c, MergeList())
r = get_bpe_subwords('ab', d)
print(r, c)
assert r == get_bpe_subwords('ab', BpeData({}, MergeList())) and c == {'ab@': ['a', 'b', '@']}
'''),
 dict(id='c04-stale-doubled', prop='C04', edits=[(BL, "                if pair != (subtoken_before, pair[0]):", "                if subtoken_before != pair[0]:")],
  needs='a word in which the first symbol of a merged pair is preceded by the same symbol',
  breaks='the count of the doubled symbol before a merged pair is not reduced, so a pair that no longer occurs (often) is merged',
  demo='''
from codeprep.bpepkg.bpe_learn import do_merges
v, m = do_merges({'x x y @': 5, 'c y @': 9, 'x y @': 20}, 5)
print(m)
assert all(x.pair != ('x', 'x') for x in m), m
'''),
 dict(id='c05-count-once-per-word', prop='C05', edits=[(BL, "        for subword in entry.split(\" \"):\n            resulting_vocab", "        for subword in set(entry.split(\" \")):\n            resulting_vocab")],
  needs='a training word in which a subword occurs twice',
  breaks='the resulting vocabulary counts a subword once per word instead of once per occurrence',
  demo='''
from codeprep.bpepkg.bpe_learn import create_resulting_vocab
r = dict(create_resulting_vocab({'a b a @': 3}))
print(r)
assert r == {'a': 6, 'b': 3, '@': 3}
'''),
 dict(id='c07-skip-escaping', prop='C07', edits=[(U, "    return word.encode(\"unicode-escape\").decode()", "    if word.isprintable() and all(ord(c) < 128 for c in word):\n        return word\n    return word.encode(\"unicode-escape\").decode()")],
  needs='a token with a backslash but no other character that needs escaping',
  breaks='a backslash in a plain ASCII token is not doubled, so reading it back yields another token (or an error)',
  demo='''
from codeprep.util import to_literal_str, to_non_literal_str
for w in ['abc', 'a\\\\nb', '\\\\x41', 'a\\tb', 'é\\\\n']:
    r = to_non_literal_str(to_literal_str(w))
    print(ascii(w), ascii(r))
    assert r == w
'''),
 dict(id='c07-strip-token', prop='C07', edits=[('codeprep/pipeline/bpelearner.py', "            non_bpe_vocab.add(to_non_literal_str(line.rstrip('\\n')))", "            token = to_non_literal_str(line.rstrip()).rstrip('\\n')\n            non_bpe_vocab.add(token)")],
  needs='an unsplittable token ending in a space or in a newline character',
  breaks='an unsplittable token ending in white space is read back without it',
  demo='''
import os
from codeprep.preprocess.metadata import PreprocessingMetadata, save_metadata
from codeprep.pipeline.bpelearner import load_nonbpe_vocab
class D: path_to_nonbpe_vocab_file = os.path.join(os.environ['DEMO_SCRATCH'], 'n').encode()
s = {'a', 'b\\n', '\\n'}
save_metadata(PreprocessingMetadata(nonprocessable_tokens=s), D.path_to_nonbpe_vocab_file)
r = load_nonbpe_vocab(D())
print(r)
assert r == s
'''),
 dict(id='c27-update-in-place', prop='C27', edits=[(U, "            to_add = entry[0][0] + to_add\n            self.remove_task(pair)\n", "            to_add = entry[0][0] + to_add\n            if to_add > entry[0][0] and to_add < 0:\n                # less urgent than before: no need to move it up\n                entry[0] = (to_add, entry[0][1])\n                return\n            self.remove_task(pair)\n")],
  needs='decreasing the count of a pair that is not at the top by so much that another pair overtakes it',
  breaks='the heap order is lost after a decrease, so a pair that is not the most frequent is popped',
  demo='''
from codeprep.util import PriorityCounter
q = PriorityCounter({('a', 'b'): 10, ('c', 'd'): 9, ('e', 'f'): 8})
q.add(('a', 'b'), -5)
r = [q.pop_pair() for _ in range(3)]
print(r)
assert [c for _, c in r] == [9, 8, 5]
'''),
]
