exec(open('/verif/tools/seeds/i.py').read().split('\nSEEDS = [')[0])
SEEDS = [
 dict(id='c01-cache-raw', prop='C01', edits=[(BE, "    word = escape(word, merged=True)\n    if word in cache:\n", "    raw_word, word = word, escape(word, merged=True)\n    if raw_word in cache:\n        result = cache[raw_word]\n    elif word in cache:\n")],
  needs='a cache with the segmentation of a word, and the same word followed by the escape character',
  breaks='the segmentation of the shorter word is given: a character is lost',
  demo='''
from codeprep.bpepkg.bpe_encode import get_bpe_subwords, BpeData
from codeprep.bpepkg.merge import MergeList
d = BpeData({'ab@': ['ab@']}, MergeList())
for w in ('ab', 'ab@', 'ab@@'):
    assert ''.join(get_bpe_subwords(w, d)) == w, w
'''),
 dict(id='c27-compact', prop='C27', edits=[(UT, "        entry[-1] = PriorityCounter.REMOVED\n", "        entry[-1] = PriorityCounter.REMOVED\n        if len(self.pq) > 2 * len(self.entry_finder) + 100:\n            # entries of removed tasks take more space than the others\n            self.pq = [e for e in self.pq if e[-1] is not PriorityCounter.REMOVED]\n")],
  needs='more than a hundred updates of pairs between two pops',
  breaks='the order of the heap is lost: a pair is returned that does not have the highest count',
  demo='''
import random
from codeprep.util import PriorityCounter
r = random.Random(3)
for k in range(30):
    c = {i: r.randint(1, 1000) for i in range(30)}
    q = PriorityCounter(dict(c))
    for i in range(400):
        p = r.randint(0, 29)
        q.add(p, 5)
        c[p] += 5
    while c:
        p, n = q.pop_pair()
        assert n == max(c.values()) and c.pop(p) == n
'''),
 dict(id='c22-string-max', prop='C22', edits=[(BR, "    return _get_extreme_n_merges(dataset_bpe_dir, limit, 0, lambda e,n,l: e < n <= l)\n", "    numbers = [d for d in _get_all_bpe_merges_dirs(dataset_bpe_dir) if d.isdigit() and int(d) <= limit]\n    return int(max(numbers)) if numbers else None\n")],
  needs='sets of merges whose numbers have different numbers of digits',
  breaks='learning continues from fewer merges than there are, or a number of merges that is there is not found',
  demo='''
import os
from codeprep.pipeline import bperegistry as r
s = os.environ['DEMO_SCRATCH']
for n in ('9', '10', '100'):
    os.makedirs(s + '/' + n)
    open(s + '/' + n + '/merges.txt', 'w').close()
assert r.get_max_merges(s) == 100
assert r.get_max_merges(s, 99) == 10
'''),
 dict(id='c15-long', prop='C15', edits=[(NE, "    return not __isascii(word)\n", "    # the beginning of a word tells the language\n    return not __isascii(word[:200])\n")],
  needs='a word with more than 200 characters and a non-ASCII character behind them',
  breaks='the word is not replaced',
  demo='''
from codeprep.api.text import nosplit
assert nosplit('x' * 300 + chr(233), 'java', no_unicode=True) == ['<non-en>']
'''),
 dict(id='c19-split-any', prop='C19', edits=[(VO, "            vocab.update(line.split(' '))\n", "            vocab.update(line.split())\n")],
  needs='a token with a character like the no-break space or the ideographic space',
  breaks='parts of the token are counted instead of the token',
  demo='''
import os
from codeprep.pipeline.vocab import get_vocab
p = os.path.join(os.environ['DEMO_SCRATCH'], 'f')
with open(p, 'w') as f:
    f.write('a b' + chr(160) + 'c d' + chr(10))
assert dict(get_vocab([p.encode()])) == {'a': 1, 'b' + chr(160) + 'c': 1, 'd': 1}
'''),
 dict(id='c21-exact', prop='C21', edits=[(VO, "        if vocab_size_threshold >= len(sorted_vocab):\n            return\n        min_freq_excluded = sorted_vocab[vocab_size_threshold][1]\n", "        if vocab_size_threshold > len(sorted_vocab):\n            return\n        min_freq_excluded = sorted_vocab[min(vocab_size_threshold, len(sorted_vocab) - 1)][1]\n")],
  needs='a vocabulary with exactly as many tokens as the limit allows',
  breaks='the rarest tokens are dropped although all of them fit',
  demo='''
from collections import Counter
from codeprep.pipeline.vocab import PartialVocab
v = PartialVocab(Counter({'a': 2, 'b': 1}), 0)
v.limit_max_vocab(2)
assert len(v.merged_word_counts) == 2
'''),
 dict(id='c02-cached-pairs', prop='C02', edits=[(BE, '''            if not merge_indices:
                break

            subwords_after''', '''            if not merge_indices or len(subwords) - len(merge_indices) < 1:
                break
            if len(merge_indices) > 64:
                # the remaining ones are merged in the next round
                merge_indices = merge_indices[-64:]

            subwords_after''')],
  needs='a word with a pair that occurs more than 64 times, overlapping with itself',
  breaks='occurrences are merged from right to left: the segmentation differs',
  demo='''
from codeprep.bpepkg.bpe_encode import encode_word
from codeprep.bpepkg.merge import MergeList, Merge
m = MergeList().append(Merge(('a', 'a'), 1, 0))
assert encode_word('a' * 131, m) == ['aa'] * 65 + ['a'], encode_word('a' * 131, m)
m = MergeList().append(Merge(('a', 'a'), 9, 0)).append(Merge(('aa', 'b'), 5, 1))
w = 'aab' * 100
assert encode_word(w, m) == ['aab'] * 100
'''),
]
