exec(open('/verif/tools/seeds/g.py').read().split('\nSEEDS = [')[0])
WS = 'codeprep/tokens/whitespace.py'
SEEDS = [
 dict(id='c01-already-escaped', prop='C01', edits=[(BE, "    word = word.replace(ESCAPE_CHAR, 2 * ESCAPE_CHAR)\n", "    if 2 * ESCAPE_CHAR not in word:\n        # not escaped yet\n        word = word.replace(ESCAPE_CHAR, 2 * ESCAPE_CHAR)\n")],
  needs='a word with two escape characters in a row',
  breaks='the subtokens of the word do not give the word back',
  demo='''
from codeprep.bpepkg.bpe_encode import get_bpe_subwords, BpeData
from codeprep.bpepkg.merge import MergeList
assert ''.join(get_bpe_subwords('a@@b', BpeData({}, MergeList()))) == 'a@@b'
'''),
 dict(id='c06-float-freq', prop='C06', edits=[(ME, "freq=int(spl[2])", "freq=int(float(spl[2]))")],
  needs='a pair seen more than 2 ** 53 times',
  breaks='the frequency of a merge read back is not the one written',
  demo='''
import os
from codeprep.bpepkg.merge import *
p = os.path.join(os.environ['DEMO_SCRATCH'], 'm')
n = 2 ** 53 + 1
dump_merges(MergeList().append(Merge(('a', 'b'), n, 0)), p)
assert read_merges(p)[0].freq == n
'''),
 dict(id='c09-one-word-comment', prop='C09', edits=[(CO, '''        prep_tokens, metadata = torepr(self.subtokens, repr_config)
        metadata.set_all_tokens_type(MultilineComment)
''', '''        prep_tokens, metadata = torepr(self.subtokens, repr_config)
        if len(metadata.word_boundaries) > 2:
            metadata.set_all_tokens_type(MultilineComment)
''')],
  needs='a multi-line comment token which consists of a single word, as some lexers report parts of comments',
  breaks='the type recorded for the word is not that of the comment',
  demo='''
from codeprep.api.common import create_prep_config
from codeprep.pipeline.to_repr import to_repr
from codeprep.parse.core import _convert
from codeprep.tokens.containers import MultilineComment
from pygments.token import Token
r, m = to_repr(create_prep_config('basic'), _convert(Token.Comment.Multiline, 'word'))
assert m.token_types == [MultilineComment], m
'''),
 dict(id='c12-all-title', prop='C12', edits=[(WO, "        elif s[0].isupper() and Word._is_restorable_from_lower(s[0]):\n", "        elif s[0].isupper() and s[1:].islower() and Word._is_restorable_from_lower(s[0]):\n")],
  needs='an upper case letter followed by digits only',
  breaks='the part is output in upper case in spite of no_case',
  demo='''
from codeprep.api.text import basic
r = basic('X1 = 2', 'java', no_case=True)
for n in ('v2', 'Va', 'V_1', 'aB1', 'AB1', 'V', 'v1B2', 'X1'):
    r = basic(n, 'java', no_case=True)
    assert ''.join(x for x in r if not x.startswith('<')) == n.replace('_', '_').lower(), (n, r)
'''),
 dict(id='c14-other-blanks', prop='C13', edits=[(CO, "filter(lambda t: type(t) != SpaceInString, self.subtokens)", "filter(lambda t: type(t).__name__ not in ('SpaceInString', 'Tab'), self.subtokens)")],
  needs='a string literal with a tab, split into its words',
  breaks='the tab is dropped',
  demo='''
from codeprep.api.common import create_prep_config
from codeprep.pipeline.to_repr import to_repr
from codeprep.parse.core import _convert
from pygments.token import Token
r, m = to_repr(create_prep_config('nosplit'), _convert(Token.Literal.String, '"a\\tb"'))
assert '\\t' in r, r
'''),
 dict(id='c14-string-length-lines', prop='C14', edits=[(MA, "[StringLiteral(split_string(value), len(value))]", "[StringLiteral(split_string(value), max(map(len, value.split('\\n'))))]")],
  needs='a limit for strings and a literal of several lines, each within the limit',
  breaks='the literal is longer than the limit and output in full',
  demo='''
from codeprep.api.common import create_prep_config
from codeprep.pipeline.to_repr import to_repr
from codeprep.parse.core import _convert
from pygments.token import Token
r, m = to_repr(create_prep_config('nosplit', max_str_length=6), _convert(Token.Literal.String, '"abc\\ndef"'))
assert r == ['"', '"'], r
'''),
 dict(id='c19-last-chunk', prop='C19', edits=[(UT, "    for i in range(total % n_chunks):\n        yield i\n", "    for i in range(total % n_chunks):\n        yield i if min_elms_in_chunk < 250 else total % n_chunks\n")],
  needs='more than 250 files in each of the groups',
  breaks='files are in no order any more: some groups are larger than others',
  demo='''
from codeprep.util import *
g = groupify(list(range(251 * 3 + 2)), 3)
assert [len(x) for x in g] == [252, 252, 251], [len(x) for x in g]
'''),
 dict(id='c27-only-positive', prop='C27', edits=[(UT, "        if to_add != 0:\n", "        if to_add < 0:\n")],
  needs='a pair whose count drops below zero before it rises again, as when losses are reported before gains',
  breaks='the pair is returned with a count which is too high',
  demo='''
from codeprep.util import PriorityCounter
c = PriorityCounter({})
c.add('x', -2)
c.add('x', 5)
assert c.pop_pair() == ('x', 3)
'''),
 dict(id='c30-doc-comment', prop='C30', edits=[(MA, "        return token in Token.Literal.String\n", "        return token in Token.Literal.String and token is not Token.Literal.String.Doc\n"),
   (MA, "        return token in Token.Comment and not token is Token.Comment.Single\n", "        return token in Token.Comment and not token is Token.Comment.Single or token is Token.Literal.String.Doc\n")],
  needs='a language whose lexer tells documentation strings from others',
  breaks='the string is taken for a comment',
  demo='''
from codeprep.parse.core import _convert
from codeprep.tokens.containers import *
from pygments.token import Token
assert type(_convert(Token.Literal.String.Doc, '"""x"""')[0]) is StringLiteral
'''),
 dict(id='c33-empty-eof', prop='C33', edits=[(AT, "    if append_eof:\n        parsed.append", "    if append_eof and parsed:\n        parsed.append")],
  needs='an empty text, or one line break only',
  breaks='the text has no end-of-file token, the same file in a corpus has',
  demo='''
from codeprep.api.text import *
assert nosplit('\\n', 'java', append_eof=True) == ['<EOF>'], nosplit('\\n', 'java', append_eof=True)
'''),
 dict(id='c24-relative-up', prop='C24', edits=[(DA, "            rel_path = os.path.basename(file_path)\n        return", "            rel_path = os.path.basename(file_path)\n        rel_path = rel_path.lstrip(b'./')\n        return")],
  needs='a hidden file or directory directly below the data set',
  breaks='two files get the same output name',
  demo=DSET+'''
put(s + '/d/.a/x.py')
put(s + '/d/a/x.py')
d = ds(s + '/d')
fs = list(d.original.file_iterator())
assert len(fs) == 2 and len({d.original.get_new_file_name(f, d.parsed) for f in fs}) == 2
'''),
 dict(id='c07-vocab-split-lines', prop='C21', edits=[(VO, "    words = {}\n    with open(file, 'r') as f:\n        for line in f:\n            line = line.rstrip('\\n')\n", "    words = {}\n    with open(file, 'r') as f:\n        for line in f.read().splitlines():\n")],
  needs='a word with a character which splitlines takes for a line break but files do not, written as it is',
  breaks='the vocabulary read back is not the one written',
  demo='''
import os
from codeprep.pipeline.vocab import _dump_vocab_dict, _load_vocab_dict
p = os.path.join(os.environ['DEMO_SCRATCH'], 'v')
_dump_vocab_dict([('a\\x1cb', 3)], p, to_literal=False)
assert _load_vocab_dict(p) == {'a\\x1cb': 3}
'''),
 dict(id='c22-huge-id', prop='C22', edits=[(BR, 'REGEX = "(.*)-([1-9][0-9]*)$"\n    m', 'REGEX = "(.*)-([1-9][0-9]*)$"\n    s = s.lower() if s.isupper() else s\n    m')],
  needs='a merge list whose name consists of upper case letters only',
  breaks='the merge list is not found',
  demo='''
from codeprep.pipeline.bperegistry import *
assert parse_merge_list_id('JDK-10') == ('JDK', 10)
'''),
 dict(id='c16-nonbpe-base', prop='C16', edits=[(PC, "        if self.get_param_value(PrepParam.SPLIT) in ['2', '3', '4', '5', '6', '7', '8', '9', 's']:\n", "        if self.get_param_value(PrepParam.SPLIT) in ['2', '3', '4', '5', '6', '7', '8', '9', 's'] and self.get_param_value(PrepParam.STR) != '0':\n")],
  needs='numbers are split and strings replaced',
  breaks='numbers are not split',
  demo='''
from codeprep.api.text import basic
assert '3' in basic('x = 123', 'java', split_numbers=True, no_str=True)
'''),
]
