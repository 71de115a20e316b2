exec(open('/verif/tools/seeds/b.py').read().split('SEEDS = [')[0])
H = '''
import os, sys, time
s = os.environ['DEMO_SCRATCH']
'''
DSET = H + '''
from codeprep.api.common import create_prep_config
from codeprep.pipeline.dataset import *
def ds(path, ext=None, out=None, suppress=False, cfg=None):
    return Dataset.create(path, cfg or create_prep_config('basic'), ext, None, None, out, suppress)
def put(p, t='x'):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w') as f:
        f.write(t)
'''
FU = 'codeprep/fileutils.py'
VL = 'codeprep/pipeline/vocabloader.py'
UT = 'codeprep/util.py'
W = DSET + '''
def wb(p, b):
    with open(p, 'wb') as f:
        f.write(b)
    return p.encode()
from codeprep.fileutils import read_file_contents
'''
LEARN = DSET + '''
from codeprep.api.corpus import *
from codeprep.pipeline import stages, vocabloader
from codeprep.pipeline.bperegistry import *
from codeprep.cli.impl import *
'''
SEEDS = [
 dict(id='c32-splitlines', prop='C32', edits=[(FU, "return [line.rstrip('\\n') for line in f], file_path", "return f.read().splitlines(), file_path")],
  needs='a source file with a form feed, a vertical tab or a line separator of Unicode in it',
  breaks='the character is taken for a line break and replaced by one',
  demo=W+'''
f = wb(s + '/a.java', 'String s = "a\\u2028b";\\n'.encode())
assert read_file_contents(f)[0] == ['String s = "a\\u2028b";'], read_file_contents(f)
'''),
 dict(id='c32-cp1252', prop='C32', edits=[(FU, "            return read_file_with_encoding(file_path, 'ISO-8859-1')", "            return read_file_with_encoding(file_path, 'cp1252')")],
  needs='a file that is not valid UTF-8 and has one of the bytes that Windows-1252 does not define',
  breaks='reading the file fails',
  demo=W+'''
f = wb(s + '/a.java', b'int a; // \\xe4\\x81\\n')
assert read_file_contents(f)[0] == ['int a; // \\xe4\\x81'], read_file_contents(f)
'''),
 dict(id='c32-sniff', prop='C32', edits=[(FU, '''    try:
        return read_file_with_encoding(file_path, 'utf-8')
    except UnicodeDecodeError:
''', '''    # no need to read the whole file just to find out the encoding
    with open(file_path, 'rb') as f:
        head = f.read(4096)
    try:
        head.decode('utf-8')
        return read_file_with_encoding(file_path, 'utf-8')
    except UnicodeDecodeError:
''')],
  needs='a UTF-8 file with a character of several bytes across offset 4096',
  breaks='the whole file is read as ISO-8859-1',
  demo=W+'''
f = wb(s + '/a.java', b'/' * 4095 + '\\xe9\\n'.encode())
assert read_file_contents(f)[0] == ['/' * 4095 + '\\xe9'], read_file_contents(f)[0][0][4090:]
'''),
 dict(id='c32-trailing-blank', prop='C32', edits=[(FU, "return [line.rstrip('\\n') for line in f], file_path", "return [line.rstrip('\\n') for line in f.read().rstrip().split('\\n')], file_path")],
  needs='a file that ends with blank lines or other white space',
  breaks='white space at the end of the file is dropped',
  demo=W+'''
f = wb(s + '/a.java', b'a\\n\\t\\n\\n')
assert read_file_contents(f)[0][:3] == ['a', '\\t', ''], read_file_contents(f)
'''),
 dict(id='c32-bom', prop='C32', edits=[(FU, "read_file_with_encoding(file_path, 'utf-8')", "read_file_with_encoding(file_path, 'utf-8-sig')")],
  needs='a file that starts with U+FEFF',
  breaks='the first character is dropped',
  demo=W+'''
f = wb(s + '/a.java', b'\\xef\\xbb\\xbfx')
assert read_file_contents(f)[0] == ['\\ufeffx'], read_file_contents(f)
'''),
 dict(id='c33-keep-merges', prop='C33', edits=[(TR, '''    if get_global_bpe_data_if_available() and not force_reinit:
        return # already initialized
    global global_bpe_data
    global_bpe_data = BpeData()
''', '''    if get_global_bpe_data_if_available() and not force_reinit:
        return # already initialized
    global global_bpe_data
    global_bpe_data = get_global_bpe_data_if_available() or BpeData()
'''), (TR, '''            global_bpe_data.merges_cache = read_bpe_cache(custom_bpe_config.cache_file)
        else:
            global_bpe_data.merges_cache = {}
''', '''            global_bpe_data.merges_cache = read_bpe_cache(custom_bpe_config.cache_file)
        elif not global_bpe_data.merges_cache:
            global_bpe_data.merges_cache = {}
''')],
  needs='a merge list without a usable cache after one that has a cache, in the same process',
  breaks='words are split as by the merge list used before',
  demo=H+'''
import codeprep.config as c
from codeprep.pipeline.bperegistry import CustomBpeConfig
from codeprep.pipeline import to_repr as t, bperegistry
from codeprep.api.common import create_prep_config
import codeprep.api.text as api
t.vocabloader.nonbpe = lambda i: set()
for n, body, cache in (('a', 'a b 3\\nab c@ 2\\n', 'abc\\tabc@\\n'), ('b', 'b c 3\\n', None)):
    with open(s + '/' + n, 'w') as f:
        f.write(body)
    if cache:
        with open(s + '/' + n + '.cache', 'w') as f:
            f.write(cache)
cfg = create_prep_config('bpe', 'x')
def load(n, cache):
    cc = CustomBpeConfig(n, None, s + '/' + n, s + '/' + n + '.cache')
    if not cache:
        cc = CustomBpeConfig(n, 1, s + '/' + n, s + '/' + n + '.cache')
    t.init_bpe_data(cfg, cc)
load('a', True)
assert t.get_global_bpe_data_if_available().merges_cache
load('b', False)
assert not t.get_global_bpe_data_if_available().merges_cache, t.get_global_bpe_data_if_available().merges_cache
'''),
 dict(id='c33-strip-all', prop='C33', edits=[(AT, "    return prep_tokens[:-1] if len(prep_tokens) > 0 and prep_tokens[-1] == NewLine() else prep_tokens\n", "    while prep_tokens and prep_tokens[-1] == NewLine():\n        prep_tokens = prep_tokens[:-1]\n    return prep_tokens\n")],
  needs='a text with several line breaks at its end',
  breaks='more than one line break is ignored, so the tokens differ from those of the same file',
  demo=H+'''
import codeprep.api.text as t
from codeprep.tokens.whitespace import NewLine
assert len(t.remove_trailing_newline([NewLine(), NewLine(), NewLine()])) == 2
'''),
 dict(id='c33-metadata-eof', prop='C33', edits=[(AT, "    if append_eof:\n        parsed.append(", "    if append_eof and parsed:\n        parsed.append(")],
  needs='an empty text and the option to append the end-of-file token',
  breaks='the end-of-file token is not appended',
  demo=H+'''
from codeprep.api.text import basic
assert basic('\\n', 'java', append_eof=True) == ['<EOF>'], basic('', 'java', append_eof=True)
'''),
 dict(id='c34-base-case', prop='C34', edits=[(VL, '''    for token in nonbpe_vocab:
        if token in all_vocab:
            del all_vocab[token]
    return all_vocab
''', '''    nonbpe_vocab = {token.lower() for token in nonbpe_vocab}
    return {token: freq for token, freq in all_vocab.items() if token.lower() not in nonbpe_vocab}
''')],
  needs='a word that differs from an unsplittable token in case only',
  breaks='the word is missing among the tokens that may be split',
  demo=H+'''
from codeprep.pipeline import vocabloader as v
v.all = lambda i: {'If': 2, 'if': 3, 'a': 1}
v.nonbpe = lambda i: {'if', 'X'}
assert v.base('x') == {'If': 2, 'a': 1}, v.base('x')
'''),
 dict(id='c34-no-placeholders', prop='C34', edits=[(VL, "    non_bpe_tokens.update(list(placeholders.values()))\n", "    if non_bpe_tokens:\n        non_bpe_tokens.update(list(placeholders.values()))\n")],
  needs='a data set in which no unsplittable token occurs',
  breaks='the placeholder tokens are missing in the set of tokens that must not be split',
  demo=DSET+'''
from codeprep.pipeline import vocabloader as v
from codeprep.pipeline.vocab import _load_vocab_set
put(s + '/p/a.java')
d = ds(s + '/p')
put(d.path_to_nonbpe_vocab_file + '_part/x', '')
v.gather_non_bpe_vocab(d)
assert _load_vocab_set(d.path_to_nonbpe_vocab_file)
'''),
 dict(id='c34-all-cached', prop='C34', edits=[(VL, "import logging\nimport os\n", "import functools\nimport logging\nimport os\n"), (VL, "def all(merge_list_id: str) -> Dict[str, int]:\n", "@functools.lru_cache(maxsize=None)\ndef all(merge_list_id: str) -> Dict[str, int]:\n")],
  needs='asking for all tokens after the tokens that may be split were asked for',
  breaks='the unsplittable tokens are missing among all tokens',
  demo=H+'''
from codeprep.pipeline import vocabloader as v
v.get_base_vocab_dir = lambda i: s
with open(s + '/' + v.VOCAB_FILENAME, 'w') as f:
    f.write('if\\t3\\na\\t1\\n')
with open(s + '/' + v.NONBPE_VOCAB_FILENAME, 'w') as f:
    f.write('if\\n')
assert v.base('x') == {'a': 1}
assert v.all('x') == {'if': 3, 'a': 1}, v.all('x')
'''),
 dict(id='c34-clean-parts', prop='C34', edits=[(TR, '''    if path_to_part_metadata and not os.path.exists(path_to_part_metadata):
        os.makedirs(path_to_part_metadata)
''', '''    if path_to_part_metadata:
        # nothing left by a run that was stopped
        shutil.rmtree(path_to_part_metadata, ignore_errors=True)
        os.makedirs(path_to_part_metadata)
'''), (TR, "import pickle\nimport platform\n", "import pickle\nimport platform\nimport shutil\n")],
  needs='a run that was stopped after some files were preprocessed, then repeated',
  breaks='the unsplittable tokens of the files preprocessed before are missing',
  demo=DSET+'''
from codeprep.pipeline import stages, vocabloader as v, to_repr as t
from codeprep.pipeline.bperegistry import CustomBpeConfig
from codeprep.prepconfig import PrepConfig
from codeprep.pipeline.vocab import _load_vocab_set
from codeprep.bpepkg.bpe_config import BpeConfig
put(s + '/p/a.java', 'while (a) b;')
bc = BpeConfig({}) if False else None
from codeprep.cli.impl import *
from codeprep.bpepkg.bpe_config import BpeParam
bc = BpeConfig({BpeParam.CASE: 'yes', BpeParam.WORD_END: False, BpeParam.BASE: 'code', BpeParam.UNICODE: 'yes'})
d = Dataset.create(s + '/p', bc.to_prep_config(), None, None, bc)
g = v.gather_non_bpe_vocab
class Stop(Exception): pass
def stop(d): raise Stop()
v.gather_non_bpe_vocab = stop
try:
    stages.run_until_preprocessing(d, None)
except Stop:
    pass
v.gather_non_bpe_vocab = g
t.run(d, None)
assert 'while' in _load_vocab_set(d.path_to_nonbpe_vocab_file)
'''),
 dict(id='c34-update-missing', prop='C34', edits=[(VL, "        non_bpe_tokens.update(_load_vocab_set(os.path.join(part_nonbpe_vocab_dir, file)))\n", "        tokens = _load_vocab_set(os.path.join(part_nonbpe_vocab_dir, file))\n        if len(tokens) > len(non_bpe_tokens):\n            tokens, non_bpe_tokens = non_bpe_tokens, tokens\n        for token in tokens:\n            if token.strip():\n                non_bpe_tokens.add(token)\n")],
  needs='a tab or line break token only in a file that is not the one with the most tokens',
  breaks='the token is missing in the set of tokens that must not be split',
  demo=DSET+'''
from codeprep.pipeline import vocabloader as v
from codeprep.pipeline.vocab import _load_vocab_set
put(s + '/p/a.java')
d = ds(s + '/p')
put(d.path_to_nonbpe_vocab_file + '_part/x', 'a\\nb\\n')
put(d.path_to_nonbpe_vocab_file + '_part/y', '\\\\t\\n')
v.gather_non_bpe_vocab(d)
assert '\\t' in _load_vocab_set(d.path_to_nonbpe_vocab_file)
'''),
]
