exec(open('/verif/tools/seeds/b.py').read().split('SEEDS = [')[0])
H = '''
import os, sys
s = os.environ['DEMO_SCRATCH']
'''
VOC = H + '''
from codeprep.pipeline import vocab
from codeprep.pipeline.vocab import *
'''
SEEDS = [
 dict(id='c19-merge-smaller', prop='C19', edits=[(VO, "        self.merged_word_counts, new_words = merge_dicts_(self.merged_word_counts, partial_vocab.merged_word_counts)\n", "        if len(partial_vocab.merged_word_counts) > 2 * len(self.merged_word_counts):\n            # adding the smaller one to the bigger one is faster\n            self.merged_word_counts, new_words = merge_dicts_(partial_vocab.merged_word_counts, Counter(set(self.merged_word_counts.elements())))\n        else:\n            self.merged_word_counts, new_words = merge_dicts_(self.merged_word_counts, partial_vocab.merged_word_counts)\n")],
  needs='merging a partial vocabulary into one less than half as big, which has a token more than once',
  breaks='tokens of the smaller vocabulary are counted once instead of as often as they occur',
  demo=VOC+'''
a = PartialVocab(Counter({'x': 5}), 0)
a.add_vocab(PartialVocab(Counter({'a': 1, 'b': 1, 'c': 1}), 0))
assert a.merged_word_counts['x'] == 5, a.merged_word_counts
'''),
 dict(id='c20-reuse-unfinished', prop='C20', edits=[(VO, "    first_file = os.path.join(dir, f'{first_id}.{PARTVOCAB_EXT}')\n    if os.path.exists(first_file):\n        os.remove(first_file)\n\n    second_file = os.path.join(dir, f'{second_id}.{PARTVOCAB_EXT}')\n    if os.path.exists(second_file):\n        os.remove(second_file)\n\n    new_file = os.path.join(dir, f'{new_id}.{PARTVOCAB_EXT}')\n    os.rename(path_to_new_file, new_file)\n",
   "    first_file = os.path.join(dir, f'{first_id}.{PARTVOCAB_EXT}')\n    second_file = os.path.join(dir, f'{second_id}.{PARTVOCAB_EXT}')\n    new_file = os.path.join(dir, f'{new_id}.{PARTVOCAB_EXT}')\n    os.rename(path_to_new_file, new_file)\n\n    for merged_file in [first_file, second_file]:\n        if os.path.exists(merged_file):\n            os.remove(merged_file)\n")],
  needs='being killed between giving the merged file its name and removing the two files it was merged from',
  breaks='the next run counts the files of the two groups twice',
  demo=VOC+'''
import random
d = s + '/part'
os.makedirs(d)
a, b = PartialVocab(Counter({'x': 1}), 0), PartialVocab(Counter({'x': 1}), 0)
for i, v in enumerate((a, b)):
    v.id = str(i + 1)
    with open(d + '/%d.partvocab' % (i + 1), 'wb') as f:
        pickle.dump(v, f)
a.add_vocab(b)
a.id = '3'
with open(d + '/1_2_3.partvocab', 'wb') as f:
    pickle.dump(a, f)
real = os.remove
def remove(p):
    raise KeyboardInterrupt()
os.remove = remove
try:
    finish_file_dumping(d + '/1_2_3.partvocab')
except KeyboardInterrupt:
    pass
os.remove = real
n = sum(v.merged_word_counts['x'] for v in load_partial_vocabs(d))
assert n == 2, n
'''),
 dict(id='c20-ready-first', prop='C20', edits=[(VO, "    task_list = create_initial_partial_vocabs(all_files, path_to_dump)\n    open(os.path.join(path_to_dump, PARTIAL_VOCABS_READY_FILENAME), 'a').close()\n    return task_list\n", "    with open(os.path.join(path_to_dump, PARTIAL_VOCABS_READY_FILENAME), 'a'):\n        return create_initial_partial_vocabs(all_files, path_to_dump)\n")],
  needs='being killed while the partial vocabularies are created',
  breaks='the partial vocabularies are marked as ready before they are, so that the next run misses files',
  demo=VOC+'''
vocab.create_initial_partial_vocabs = lambda *a: os._exit(1 if os.path.exists(s + '/part/ready') else 0)
create_partial_vocabs(iter([b'a']), s + '/part')
'''),
 dict(id='c21-limit-first', prop='C21', edits=[(VO, "        while adjusted_threshold >= 0 and sorted_vocab[adjusted_threshold][1] == min_freq_excluded:", "        while adjusted_threshold > 0 and sorted_vocab[adjusted_threshold][1] == min_freq_excluded:")],
  needs='a limit with which all kept tokens have the frequency of a dropped one',
  breaks='one token of a frequency that does not fit completely is kept',
  demo=VOC+'''
a = PartialVocab(Counter({'x': 2, 'y': 2, 'z': 1}), 0)
a.limit_max_vocab(1)
assert a.merged_word_counts == {}, a.merged_word_counts
'''),
 dict(id='c21-stats-order', prop='C21', edits=[(VO, "            vocabsize = int(stats[-1][1][0])\n", "            vocabsize = int(stats[-1][1][0]) if len(stats) < 4 else int(max(v for _, (v, _) in stats[:-1]))\n")],
  needs='statistics with at least four entries and a vocabulary that grew when the last files were added',
  breaks='the statistics file does not start with the size of the vocabulary',
  demo=VOC+'''
vs = [PartialVocab(Counter({'x': 2, chr(97 + i): 1}), 0) for i in range(4)]
for v in vs[1:]:
    vs[0].add_vocab(v)
vs[0].write_stats(s + '/st')
with open(s + '/st') as f:
    l = f.read().split('\\n')
assert l[0] == '5', l
'''),
 dict(id='c22-first-fitting', prop='C22', edits=[(BR, "lambda e,n,l: e > n >= l)", "lambda e,n,l: (e > n or len(str(e)) > len(str(n))) and n > l - 1 and str(n) < str(e) or e == sys.maxsize and n >= l)")],
  needs='trained sets whose numbers compare differently as text, such as 90 and 1000',
  breaks='not the smallest set that has enough merges is selected',
  demo=H+'''
from codeprep.pipeline.bperegistry import get_min_merges
for n in (1000, 90):
    os.makedirs(s + '/d/%d' % n)
assert get_min_merges(s + '/d', 50) == 90, get_min_merges(s + '/d', 50)
'''),
 dict(id='c22-cache-with-limit', prop='C22', edits=[(BR, "        return self.cache_file and not self.n_merges\n", "        return self.cache_file and (not self.n_merges or not os.path.exists(self.codes_file)\n                                    or int(os.path.basename(os.path.dirname(self.codes_file))) <= 2 * self.n_merges)\n")],
  needs='asking for fewer merges than the trained set has, but for more than half of them',
  breaks='the cache made with all merges of the set is used instead of the first n merges',
  demo=H+'''
from codeprep.pipeline.bperegistry import CustomBpeConfig
os.makedirs(s + '/10')
for n in ('merges.txt', 'merges_cache.txt'):
    open(s + '/10/' + n, 'w').close()
assert not CustomBpeConfig('x', 9, s + '/10/merges.txt', s + '/10/merges_cache.txt').can_use_cache_file()
'''),
 dict(id='c23-gap', prop='C23', edits=[(BR, "            numbers = list(map(lambda d: extract_number(d, id_base), existing_ids))\n            new_number = max(numbers) + 1\n", "            numbers = [n for n in map(lambda d: extract_number(d, id_base), existing_ids) if n]\n            new_number = len(numbers) + 1\n")],
  needs='automatic ids with a gap, as after one of the earlier lists was removed',
  breaks='the new id is one that is in use already',
  demo=H+'''
from codeprep import config
from codeprep.pipeline import bperegistry as b
from codeprep.bpepkg.bpe_config import *
for i, n in enumerate(['p', 'p_2']):
    d = b.USER_BPE_DIR + '/x%d' % i
    os.makedirs(d + '/10')
    b.write_bpe_codes_id(d, n)
c = BpeConfig({BpeParam.CASE: 'yes', BpeParam.WORD_END: False, BpeParam.BASE: 'code', BpeParam.UNICODE: 'yes'})
n = b.create_new_id_from('/tmp/p', c)
assert n not in ('p', 'p_2'), n
'''),
 dict(id='c23-suffix-order', prop='C23', edits=[('codeprep/bpepkg/bpe_config.py', "            unicode = 'no'\n        elif suffix.find(BpeConfig.UNICODE_BYTES) != -1:\n            unicode = 'bytes'\n        else:", "            unicode = 'no' if suffix.find(BpeConfig.WORD_END) == -1 else 'yes'\n        elif suffix.find(BpeConfig.UNICODE_BYTES) != -1:\n            unicode = 'bytes'\n        else:")],
  needs='learning with both word ends and no unicode',
  breaks='the options read from the name of a directory are not those it was named for',
  demo='''
from codeprep.bpepkg.bpe_config import *
c = BpeConfig({BpeParam.CASE: 'yes', BpeParam.WORD_END: True, BpeParam.BASE: 'code', BpeParam.UNICODE: 'no'})
assert BpeConfig.from_suffix(c.to_suffix()) == c
'''),
]
