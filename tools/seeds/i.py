exec(open('/verif/tools/seeds/h.py').read().split('\nSEEDS = [')[0])
SI = 'codeprep/subtokens.py'
SEEDS = [
 dict(id='c33-shared-part', prop='C33', edits=[(PP, "    not_finished_dest_file_path = dest_file_path + NOT_FINISHED_EXTENSION.encode()\n", "    # the name of the file itself can already be as long as allowed\n    not_finished_dest_file_path = os.path.join(dest_dirname, NOT_FINISHED_EXTENSION.encode())\n")],
  needs='two processes which work on files of the same directory at the same time',
  breaks='both write to the same unfinished file: a file is lost or gets the tokens of another one',
  demo='''
import os, gzip, pickle
from codeprep.pipeline import parse_projects as p
s = os.environ['DEMO_SCRATCH'].encode()
for n in (b'a', b'b'):
    with open(s + b'/%s.java' % n, 'w') as f:
        f.write('class %s' % n.decode())
real = p.convert_text
def other_process(text, ext):
    p.convert_text = real
    p.preprocess_and_write((s + b'/b.java', s + b'/out/b.java.parsed'))
    return real(text, ext)
p.convert_text = other_process
p.preprocess_and_write((s + b'/a.java', s + b'/out/a.java.parsed'))
for n in (b'a', b'b'):
    with gzip.open(s + b'/out/%s.java.parsed' % n) as f:
        assert n.decode() in [str(t) for t in pickle.load(f)]
'''),
 dict(id='c17-text-newline', prop='C17', edits=[(IM, "            prep_text = codeprep.api.text.preprocess(args['<text>'], prep_config,", "            # line breaks are hard to enter on the command line\n            text = args['<text>'].replace('\\\\n', '\\n')\n            prep_text = codeprep.api.text.preprocess(text, prep_config,")],
  needs='a text with a backslash followed by n, as in a string literal',
  breaks='the command line interface gives other tokens than the text function',
  demo='''
import contextlib, io
from docopt import docopt
import codeprep.cli.spec, codeprep.cli.impl as impl
import codeprep.api.text as t
s = 'x = "a' + chr(92) + 'nb"'
args = codeprep.cli.spec.parse_and_run.__globals__ if False else None
import codeprep
d = {k: None for k in ('<bpe-codes-id>', '--ext', '--path', '--output-path', '--max-str-length', '<text>')}
d.update({k: False for k in ('nosplit', 'chars', 'basic', 'bpe', '1k', '5k', '10k', '--no-unicode', '--no-com', '--no-str', '--no-spaces', '--no-case', '--full-strings',
    '--split-numbers', '--ronin', '--stem', '--calc-vocab', '--verbose')})
d.update({'nosplit': True, '<text>': s, '--ext': 'java'})
o = io.StringIO()
with contextlib.redirect_stdout(o):
    impl.handle_splitting(d)
assert o.getvalue() == str(t.nosplit(s, 'java')) + chr(10), o.getvalue()
'''),
 dict(id='c17-min-length', prop='C17', edits=[(IM, "    max_str_length = int(max_str_length) if max_str_length is not None else sys.maxsize\n", "    # quotes are counted too\n    max_str_length = max(2, int(max_str_length)) if max_str_length is not None else sys.maxsize\n")],
  needs="a maximal length of strings of 0 or 1, and a string '' of two characters which is not \"\"",
  breaks='the command line interface gives other tokens than the text function',
  demo='''
import codeprep.cli.impl as impl
from codeprep.api.common import create_prep_config
d = {k: None for k in ('<bpe-codes-id>', '--ext', '--path', '--output-path', '--max-str-length', '<text>')}
d.update({k: False for k in ('nosplit', 'chars', 'basic', 'bpe', '1k', '5k', '10k', '--no-unicode', '--no-com', '--no-str', '--no-spaces', '--no-case', '--full-strings',
    '--split-numbers', '--ronin', '--stem', '--calc-vocab', '--verbose')})
d.update({'nosplit': True, '--max-str-length': '0'})
from codeprep.parse.core import _convert
from codeprep.pipeline.to_repr import to_repr
from pygments.token import Token
toks = _convert(Token.Literal.String, "''")
a = to_repr(impl.create_prep_config_from_args(d), toks)[0]
b = to_repr(create_prep_config('nosplit', max_str_length=0), toks)[0]
assert list(a) == list(b), (a, b)
'''),
 dict(id='c23-ignore-case', prop='C23', edits=[(BR, "        if current_id and current_id == bpe_list_id:\n", "        if current_id and current_id.lower() == bpe_list_id.lower():\n")],
  needs='two data sets whose names differ in letter case only',
  breaks='the id of one leads to the data of the other',
  demo='''
import os
from codeprep.pipeline import bperegistry as r
s = os.environ['DEMO_SCRATCH']
r.USER_BPE_DIR = s
for i, n in enumerate(['Data', 'data', 'DATA']):
    os.makedirs(s + '/d%d/1' % i)
    r.write_bpe_codes_id(s + '/d%d' % i, n)
for i, n in enumerate(['Data', 'data', 'DATA']):
    assert r.get_dataset_bpe_dir(n) == s + '/d%d' % i
'''),
 dict(id='c28-sorted-vocab', prop='C28', edits=[(LE, "    _dump_vocab_dict(split_base_vocab.items(), os.path", "    split_base_vocab_sorted = sorted(split_base_vocab.items(), key=lambda x: x[1], reverse=True)\n    _dump_vocab_dict(split_base_vocab_sorted, os.path")],
  needs='learning continued from fewer merges, with pairs that occur equally often',
  breaks='the merges differ from those learned at once',
  demo='''
import os
s = os.environ['DEMO_SCRATCH']
from codeprep.pipeline import bpelearner as b
b.load_nonbpe_vocab = lambda d: set()
class C:
    def get_param_value(self, p):
        return None
b.get_base_vocab = lambda d: ({'ab': 1, 'bc': 1, 'cab': 2, 'xy': 3, 'yz': 3, 'zxy': 1, 'dc': 3, 'cd': 3}, {})
for n in range(1, 8):
    r = []
    for k in ([n], list(range(1, n + 1)), [1, n]):
        class D:
            bpe_path = s + '/bpe%d_%d_%d' % (n, len(k), len(r))
        os.makedirs(D.bpe_path)
        for x in k:
            b.run(D, x, C())
        r.append(open(D.bpe_path + '/%d/merges.txt' % n).read())
    assert r[0] == r[1] == r[2], (n, r)
'''),
 dict(id='c30-empty-value', prop='C30', edits=[(MA, "        return value.strip() == ''\n", "        return value.isspace()\n")],
  needs='a lexer that reports an operator with an empty text, as some lexers do',
  breaks='a token with an empty text is printed',
  demo='''
from codeprep.parse.core import _convert
from pygments.token import Token
for k in (Token.Operator, Token.Keyword, Token.Name, Token.Text, Token.Literal.Number, Token.Punctuation):
    assert ''.join(str(t) for t in _convert(k, '')) == '' and not _convert(k, ''), k
'''),
 dict(id='c18-too-few', prop='C18', edits=[(SI, "        if len(subwords) != word_boundaries[-1]:\n", "        if len(subwords) > word_boundaries[-1]:\n")],
  needs='word boundaries beyond the last subword',
  breaks='inconsistent data is accepted, and the last words are empty',
  demo='''
from codeprep.subtokens import FullTokenIterator
try:
    print(list(FullTokenIterator(['a'], [0, 1, 2])))
except ValueError:
    pass
else:
    raise AssertionError
'''),
]
