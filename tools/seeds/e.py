exec(open('/verif/tools/seeds/b.py').read().split('SEEDS = [')[0])
H = '''
import os, sys, time
s = os.environ['DEMO_SCRATCH']
'''
DSET = H + '''
from codeprep.api.common import create_prep_config
from codeprep.pipeline.dataset import *
def ds(path, ext=None, out=None, suppress=False, cfg=None):
    return Dataset.create(path, cfg or create_prep_config('basic'), ext, None, None, out, suppress)
def put(p, t='x'):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w') as f:
        f.write(t)
'''
SEEDS = [
 dict(id='c24-ext-without-dot', prop='C24', edits=[('codeprep/fileutils.py', "        if name.endswith(b'.' + ext):", "        if name.endswith(b'.' + ext) or b'.' in ext and name.endswith(ext):")],
  needs='an extension with a dot in it and a file whose name ends in it without a dot before it',
  breaks='a file is selected although its name does not end in "." and the extension',
  demo=DSET+'''
put(s + '/p/xa.b')
put(s + '/p/x.a.b')
assert [os.path.basename(f) for f in ds(s + '/p', 'a.b').get_all_files()] == [b'x.a.b']
'''),
 dict(id='c24-list-strip', prop='C24', edits=[(DA, "                for line in f:\n                    yield ast.literal_eval(line)\n", "                seen = set()\n                for line in f:\n                    name = ast.literal_eval(line)\n                    if name.lower() not in seen:\n                        seen.add(name.lower())\n                        yield name\n")],
  needs='two files in one directory whose names differ in case only, and a file list that was saved',
  breaks='one of the files is missing from the list that is read back',
  demo=DSET+'''
put(s + '/p/a.java')
put(s + '/p/A.java')
d = ds(s + '/p')
assert len(list(d.get_all_files())) == 2
assert len(list(d.get_all_files())) == 2
'''),
 dict(id='c24-suffix-cut', prop='C24', edits=[(DA, "(rel_path[:-len(self._suffix.encode())] if len(self._suffix.encode()) else rel_path) + new_subdataset", "(rel_path.replace(self._suffix.encode(), b'') if len(self._suffix.encode()) else rel_path) + new_subdataset")],
  needs='a file or directory with ".parsed" inside of its name',
  breaks='two different files are preprocessed into one output file',
  demo=DSET+'''
put(s + '/p/a.parsed.java')
d = ds(s + '/p')
n = d.parsed.get_new_file_name((d.parsed.path + '/a.parsed.java.parsed').encode(), d.preprocessed)
assert n.endswith(b'/a.parsed.java.prep'), n
'''),
 dict(id='c25-dirs-not-counted', prop='C25', edits=[(DI, "                    counter += 1\n                    yield os.path.getmtime(os.path.join(root, dir))\n", "                    counter += 1\n                    if dirs[-1] == dir or not dir.startswith('.'):\n                        yield os.path.getmtime(os.path.join(root, dir))\n")],
  needs='something added to a hidden directory which is not the last one of its parent',
  breaks='the change is not noticed',
  demo=DSET+'''
for n in ('a', '.b', 'c', '.d'):
    os.makedirs(s + '/p/' + n)
    os.utime(s + '/p/' + n, (1000, 1000))
os.utime(s + '/p', (1000, 1000))
set_path_ready(s + '/p')
for n in ('.b', '.d'):
    t = os.stat(s + '/p/' + n).st_mtime
    os.utime(s + '/p/' + n, (5000, 5000))
    assert is_path_outdated(s + '/p'), n
    os.utime(s + '/p/' + n, (1000, 1000))
'''),
 dict(id='c25-not-older', prop='C25', edits=[(DA, "        return (expected_timestamp != actual_timestamp)\n", "        # day, month and year are in the name of the directory\n        return expected_timestamp.split('T')[-1] != actual_timestamp.split('T')[-1]\n")],
  needs='a change at the same time of another day',
  breaks='the change is not noticed',
  demo=DSET+'''
put(s + '/p/a')
for q in ('/p/a', '/p'):
    os.utime(s + q, (86400, 86400))
set_path_ready(s + '/p')
os.utime(s + '/p/a', (172800, 172800))
assert is_path_outdated(s + '/p')
'''),
 dict(id='c26-rename-in-with', prop='C26', edits=[(PP, "        pickle.dump(parsed, f, pickle.HIGHEST_PROTOCOL)\n\n    os.rename(not_finished_dest_file_path, dest_file_path)\n", "        pickle.dump(parsed, f, pickle.HIGHEST_PROTOCOL)\n\n        os.rename(not_finished_dest_file_path, dest_file_path)\n")],
  needs='dying between giving the file its final name and closing it',
  breaks='a truncated file is left under the final name',
  demo=H+'''
import codeprep.pipeline.parse_projects as p
with open(s + '/a.java', 'w') as f:
    f.write('int a;')
real = os.rename
p.os.rename = lambda a, b: (real(a, b), os._exit(1 if os.path.getsize(b) < 40 else 0))
p.preprocess_and_write(((s + '/a.java').encode(), (s + '/a.parsed').encode()))
'''),
 dict(id='c26-ready-before', prop='C26', edits=[(TR, "    if path_to_part_metadata:\n        vocabloader.gather_non_bpe_vocab(dataset)\n\n    dataset.preprocessed.set_ready()", "    dataset.preprocessed.set_ready()\n\n    if path_to_part_metadata:\n        vocabloader.gather_non_bpe_vocab(dataset)")],
  needs='dying while the non-BPE vocabulary is gathered',
  breaks='preprocessing is marked as ready before the non-BPE vocabulary exists, so it is never made',
  demo=H+'''
import codeprep.pipeline.to_repr as t
from codeprep.pipeline.dataset import *
from codeprep.bpepkg.bpe_config import *
from codeprep.pipeline import parse_projects
os.makedirs(s + '/p')
with open(s + '/p/a.java', 'w') as f:
    f.write('int a;')
c = BpeConfig({BpeParam.CASE: 'yes', BpeParam.WORD_END: False, BpeParam.BASE: 'code', BpeParam.UNICODE: 'yes'})
d = Dataset.create(s + '/p', c.to_prep_config(), None, None, c)
parse_projects.run(d)
t.vocabloader.gather_non_bpe_vocab = lambda d: os._exit(1 if d.preprocessed.ready() else 0)
t.run(d, None)
'''),
 dict(id='c28-cache-partial', prop='C28', edits=[(LE, "    split_base_vocab, merges = do_merges(split_base_vocab, n_merges - len(already_done_merges))\n", "    split_base_vocab, merges = do_merges({k: v for k, v in split_base_vocab.items() if ' ' in k or v > 0 and not dir_with_most_merges}, n_merges - len(already_done_merges))\n")],
  needs='continuing when a word was already merged completely',
  breaks='words that are complete already are missing in the cache and the vocabulary',
  demo=H+'''
from codeprep.pipeline import bpelearner as b
import logging
class D:
    bpe_path = s + '/bpe'
os.makedirs(D.bpe_path)
b.get_base_vocab = lambda d: ({'a': 5, 'bc': 1}, {})
b.load_nonbpe_vocab = lambda d: set()
class C:
    def get_param_value(self, p):
        return None
b.run(D, 1, C())
b.run(D, 2, C())
with open(s + '/bpe/2/merges_cache.txt') as f:
    n = len(f.read().split('\\n'))
assert n == 3, n
'''),
 dict(id='c28-exclude-split', prop='C28', edits=[(LE, "        non_bpe_vocab = {escape(k, merged=True) for k in load_nonbpe_vocab(dataset)}\n", "        non_bpe_vocab = {k + ESCAPE_CHAR for k in load_nonbpe_vocab(dataset)}\n"), (LE, "from codeprep.bpepkg.bpe_encode import escape\n", "from codeprep.bpepkg.bpe_encode import escape, ESCAPE_CHAR\n")],
  needs='continuing with an unsplittable token that contains an "@"',
  breaks='the token is not recognised when learning goes on',
  demo=H+'''
from codeprep.pipeline import bpelearner as b
class D: pass
os.makedirs(s + '/5')
with open(s + '/5/' + b.BPE_REASSEMBLED_VOCAB_FILE_NAME, 'w') as f:
    f.write('@@x@\\t3\\n')
b.load_nonbpe_vocab = lambda d: {'@x'}
v, o = b.prepare_vocabs(D, s + '/5', False)
assert o == {'@@x@': 3}, (v, o)
'''),
 dict(id='c29-hex-suffix', prop='C29', edits=[(ST, 'HEX_REGEX = "0x([0-9a-fA-F]+_)*[0-9a-fA-F]+[lL]?"', 'HEX_REGEX = "0x[0-9a-fA-F]+(_[0-9a-fA-F]+)?[lL]?"')],
  needs='a hexadecimal literal with more than two groups of digits',
  breaks='the literal is not recognised as a number',
  demo='''
from codeprep.parse.subtokens import is_number
assert is_number('0x1_2_3')
'''),
 dict(id='c29-unicode-digits', prop='C29', edits=[(ST, 'IR_REGEX = "([0-9]+_)*[0-9]+[lLfFdD]?"', 'IR_REGEX = "(\\\\d+_)*\\\\d+[lLfFdD]?"')],
  needs='digits of another script',
  breaks='a word of such digits is treated as a number',
  demo='''
from codeprep.parse.subtokens import is_number
assert not is_number(chr(0x0663))
'''),
 dict(id='c30-keyword-spaces', prop='C30', edits=[(MA, "        return [KeyWord(v) for v in value.split()]\n", "        return [KeyWord(v) for v in value.split(' ') if v]\n")],
  needs='a keyword token that contains white space other than spaces, as multi-word keywords of SQL can',
  breaks='a keyword contains the line break instead of being two words',
  demo='''
from codeprep.parse.matchers import KeywordMatcher
r = [k.token for k in KeywordMatcher().transform('ORDER  BY')]
assert r == ['ORDER', 'BY']
r = [k.token for k in KeywordMatcher().transform('ORDER\\nBY')]
assert r == ['ORDER', 'BY'], r
'''),
 dict(id='c30-number-lines', prop='C30', edits=[(MA, "        return [self._to_number(v) for v in value.split()]\n", "        return [self._to_number(value.split()[0])]\n")],
  needs='a number token with white space in it, as lexers for assembler or data languages report',
  breaks='what follows the white space is dropped',
  demo='''
from codeprep.parse.matchers import NumberMatchers
r = [str(k) for k in NumberMatchers().transform('1 2')]
assert r == ['1', '2'], r
'''),
 dict(id='c31-outdated-parsed', prop='C31', edits=[(SG, "    elif dataset.parsed.is_outdated():\n        dataset.parsed.archive()\n        parse_projects.run(dataset)\n", "    elif dataset.parsed.is_outdated() and not dataset.preprocessed.ready():\n        dataset.parsed.archive()\n        parse_projects.run(dataset)\n")],
  needs='outdated parsed data of a data set that was preprocessed already',
  breaks='outdated parsed data is used',
  demo=DSET+'''
from codeprep.pipeline import stages
put(s + '/p/a.java', 'int a;')
d = ds(s + '/p')
stages.run_until_preprocessing(d)
f = d.parsed.path + '/a.java.parsed'
with open(f, 'rb') as i:
    was = i.read()
with open(f, 'wb') as o:
    o.write(b'')
os.utime(f, (time.time() + 50, time.time() + 50))
stages.run_until_preprocessing(ds(s + '/p'))
assert os.path.getsize(f) > 0
'''),
 dict(id='c31-vocab-stale', prop='C31', edits=[(SG, "        run_until_preprocessing(dataset, custom_bpe_config)\n        logger.info(\"Computing vocab...\")\n        calc_vocab(dataset.preprocessed.path, dataset.preprocessed.file_iterator(), dataset.vocab_path)\n    elif", "        if not dataset.preprocessed.ready():\n            run_until_preprocessing(dataset, custom_bpe_config)\n        logger.info(\"Computing vocab...\")\n        calc_vocab(dataset.preprocessed.path, dataset.preprocessed.file_iterator(), dataset.vocab_path)\n    elif")],
  needs='asking for a vocabulary when the preprocessed data is there but outdated',
  breaks='the vocabulary is calculated from outdated data',
  demo=DSET+'''
from codeprep.pipeline import stages
put(s + '/p/a.java', 'int a;')
d = ds(s + '/p')
stages.run_until_preprocessing(d)
f = d.preprocessed.path + '/a.java.prep'
with open(f, 'w') as o:
    o.write('zzz <EOF>\\n')
os.utime(f, (time.time() + 50, time.time() + 50))
stages.run_until_vocab(d)
with open(d.path_to_vocab_file) as i:
    assert 'zzz' not in i.read()
os._exit(0)
'''),
]
