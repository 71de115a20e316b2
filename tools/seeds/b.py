BE = 'codeprep/bpepkg/bpe_encode.py'
BL = 'codeprep/bpepkg/bpe_learn.py'
ME = 'codeprep/bpepkg/merge.py'
TR = 'codeprep/pipeline/to_repr.py'
CO = 'codeprep/tokens/containers.py'
WO = 'codeprep/tokens/word.py'
ST = 'codeprep/parse/subtokens.py'
MA = 'codeprep/parse/matchers.py'
PC = 'codeprep/prepconfig.py'
SUB = 'codeprep/subtokens.py'
CM = 'codeprep/api/common.py'
AT = 'codeprep/api/text.py'
IM = 'codeprep/cli/impl.py'
VO = 'codeprep/pipeline/vocab.py'
BR = 'codeprep/pipeline/bperegistry.py'
DA = 'codeprep/pipeline/dataset.py'
DI = 'codeprep/dirutils.py'
PP = 'codeprep/pipeline/parse_projects.py'
SG = 'codeprep/pipeline/stages.py'
LE = 'codeprep/pipeline/bpelearner.py'
MD = 'codeprep/preprocess/metadata.py'
NE = 'codeprep/noneng.py'
PCORE = 'codeprep/parse/core.py'
SEEDS = [
 dict(id='c06-freq-zero', prop='C06', edits=[(ME, "freq=int(spl[2]), priority", "freq=int(spl[2]) or None, priority")],
  needs='a merge whose recorded frequency is 0',
  breaks='the frequency 0 is not read back, so the merge read back has no frequency and the lists differ',
  demo='''
import os
from codeprep.bpepkg.merge import *
p = os.path.join(os.environ['DEMO_SCRATCH'], 'm')
m = MergeList().append(Merge(('a', 'b'), 0, 0))
dump_merges(m, p)
assert read_merges(p) == m, read_merges(p)
'''),
 dict(id='c06-add-shares', prop='C06', edits=[(ME, "        other_copy = copy.deepcopy(other)\n", "        other_copy = copy.copy(other)\n")],
  needs='using the second operand after it was added to another list',
  breaks='joining two merge lists renumbers the merges of the second operand in place',
  demo='''
from codeprep.bpepkg.merge import *
a = MergeList().append(Merge(('a', 'b'), 3, 0))
b = MergeList().append(Merge(('c', 'd'), 2, 0))
a + b
assert b.get_priority(('c', 'd')) == 0, b
'''),
 dict(id='c08-universal-space', prop='C08', edits=[(TR, "        o.write(to_literal_str(to_token_str(repr)) + '\\n')", "        o.write(to_literal_str(to_token_str(r for r in repr if r)) + '\\n')")],
  needs='an empty token in the output, as BPE can produce for an end mark that was not merged',
  breaks='the written line has fewer tokens than the list of tokens computed in memory',
  demo='''
import os, gzip, pickle
from codeprep.pipeline.to_repr import preprocess_and_write, to_repr
from codeprep.prepconfig import PrepConfig
from codeprep.bpepkg.bpe_encode import BpeData
from codeprep.bpepkg.merge import MergeList
from codeprep.tokens.whitespace import SpaceInString
from codeprep.tokens.word import Operator, SpecialToken
s = os.environ['DEMO_SCRATCH']
class E(Operator):
    pass
toks = [E('a'), E(''), E('b')]
with gzip.GzipFile(s + '/a.parsed', 'wb') as f:
    pickle.dump(toks, f)
cfg = PrepConfig.from_encoded_string('uc10su')
preprocess_and_write(((s + '/a.parsed').encode(), (s + '/a.prep').encode(), cfg, None), None)
got = open(s + '/a.prep').read()[:-1].split(' ')
exp = to_repr(cfg, toks + [SpecialToken('<EOF>')], None)[0]
assert got == exp, (got, exp)
'''),
 dict(id='c08-latin1', prop='C08', edits=[(TR, "        o.write(to_literal_str(to_token_str(repr)) + '\\n')", "        line = to_token_str(repr)\n        # there is nothing to be escaped in most of the files\n        o.write((line if line.isprintable() and '\\\\' not in line else to_literal_str(line)) + '\\n')")],
  needs='a file whose tokens are all printable but not ASCII, e.g. an accented identifier and no line break',
  breaks='the line is written as it is, so it is not ASCII',
  demo='''
import os, gzip, pickle
from codeprep.pipeline.to_repr import preprocess_and_write
from codeprep.prepconfig import PrepConfig
from codeprep.tokens.word import Operator
s = os.environ['DEMO_SCRATCH']
with gzip.GzipFile(s + '/a.parsed', 'wb') as f:
    pickle.dump([Operator(chr(0xe9))], f)
preprocess_and_write(((s + '/a.parsed').encode(), (s + '/a.prep').encode(), PrepConfig.from_encoded_string('uc10su'), None), None)
got = open(s + '/a.prep', 'rb').read()
got.decode('ascii')
'''),
 dict(id='c09-quote-nonproc', prop='C09', edits=[(CO, "            non_processable_tokens = {} if repr_config.full_strings else {'\"'}\n", "            non_processable_tokens = {'\"'}\n")],
  needs='full strings together with a length limit and a longer string literal',
  breaks='the set of unsplittable tokens contains a quote which is not a token of the output',
  demo='''
import codeprep.api.text as t
from codeprep.pipeline.to_repr import to_repr
from codeprep.prepconfig import PrepConfig
from codeprep.parse.matchers import StringMatcher
toks = StringMatcher().transform('"abcdef"')
r, m = to_repr(PrepConfig.from_encoded_string('uc4Fsu'), toks, None)
assert set(m.nonprocessable_tokens) <= set(r), (r, m)
'''),
 dict(id='c09-olc-type', prop='C09', edits=[(CO, "        metadata.set_all_tokens_type(OneLineComment)\n        return prep_tokens + [placeholders['olc_end']], metadata",
   "        if len(metadata.token_types) > 2:\n            metadata.set_all_tokens_type(OneLineComment)\n        return prep_tokens + [placeholders['olc_end']], metadata")],
  needs='a one-line comment with a single token in it, as with a language whose comment mark is one character',
  breaks='the token inside the comment is reported with its own type and not as part of a one-line comment',
  demo='''
from codeprep.pipeline.to_repr import to_repr
from codeprep.prepconfig import PrepConfig
from codeprep.parse.matchers import OneLineCommentMatcher
r, m = to_repr(PrepConfig.from_encoded_string('uc11su'), OneLineCommentMatcher().transform('#'), None)
assert [t.__name__ for t in m.token_types] == ['OneLineComment'] * 2, m
'''),
 dict(id='c10-ends-counted', prop='C10', edits=[(MD, "            if end_according_to_data != end_according_to_metadata:\n", "            if end_according_to_data and not end_according_to_metadata:\n")],
  needs='a list of boundaries with an additional boundary inside of a token that was split',
  breaks='the validity check accepts a boundary where no token ends',
  demo='''
from codeprep.preprocess.metadata import *
class T: pass
m = PreprocessingMetadata(set(), [0, 1, 2, 3], [T, T, T])
try:
    check_metadata_validity(['a', 'b</t>', 'c</t>'], m)
except AssertionError:
    pass
else:
    raise SystemExit('accepted')
'''),
 dict(id='c10-mark-once', prop='C10', edits=[(TR, "        list_copy[index-1] += placeholders['compound_word_end']\n", "        if not list_copy[index-1].endswith(placeholders['compound_word_end']):\n            list_copy[index-1] += placeholders['compound_word_end']\n")],
  needs='source code containing the text of the end-of-token mark as one token of its own (e.g. a comment in an HTML template kept as an operator)',
  breaks='a token that looks like the mark gets no mark of its own, so removing the mark loses it',
  demo='''
from codeprep.pipeline.to_repr import to_repr
from codeprep.prepconfig import PrepConfig
from codeprep.bpepkg.bpe_encode import BpeData
from codeprep.bpepkg.merge import MergeList
from codeprep.tokens.word import Operator, KeyWord
r, m = to_repr(PrepConfig.from_encoded_string('uc18su'), [KeyWord('a'), KeyWord('</t>')], BpeData({}, MergeList()))
assert r == ['a</t>', '</t></t>'], r
'''),
 dict(id='c11-upper-run', prop='C11', edits=[(WO, "        if s.islower() or not s:\n            return cls(s, Word.Capitalization.NONE)\n", "        if s.isupper() and len(s.lower()) == len(s):\n            return cls(s.lower(), Word.Capitalization.ALL)\n"+"        if s.islower() or not s:\n            return cls(s, Word.Capitalization.NONE)\n")],
  needs='an upper-case letter whose lower-case form has another upper-case form, such as the Kelvin sign',
  breaks='the part is rebuilt with another letter, so the parts do not concatenate back to the identifier',
  demo='''
from codeprep.parse.subtokens import split_identifier
s = chr(0x212a)
assert str(split_identifier(s)) == s, ascii(str(split_identifier(s)))
'''),
 dict(id='c11-digits', prop='C11', edits=[(ST, "regex.finditer('(_|[0-9]+|[[:upper:]]?", "regex.finditer('(_|[0-9]+|__+|[[:upper:]]?"), (ST, "|[^ ])', token)]\n\n    processable_tokens", "|[^ \\u200b-\\u200f])', token)]\n\n    processable_tokens")],
  needs='an identifier with a zero-width joiner, which is a word character',
  breaks='the joiner is dropped from the parts',
  demo='''
from codeprep.parse.subtokens import to_parsed_token
s = 'a' + chr(0x200d) + 'b'
assert str(to_parsed_token(s)) == s, ascii(str(to_parsed_token(s)))
'''),
 dict(id='c12-single-capital', prop='C12', edits=[(WO, "        if s.islower() or not s:\n            return cls(s, Word.Capitalization.NONE)\n", "        if s.islower() or not s:\n            return cls(s, Word.Capitalization.NONE)\n"+"        elif s.isupper() and s.isascii() and len(s) == 1:\n            return cls(s.lower(), Word.Capitalization.FIRST_LETTER)\n")],
  needs='a single upper-case letter as a part of an identifier',
  breaks='the single letter gets the marker of a capitalised word instead of the one of an upper-case word',
  demo='''
from codeprep.pipeline.to_repr import to_repr
from codeprep.prepconfig import PrepConfig
from codeprep.parse.subtokens import to_parsed_token
r, m = to_repr(PrepConfig.from_encoded_string('uc11sl'), [to_parsed_token('getX')], None)
assert r == ['<w>', 'get', '<CAPS>', 'x', '</w>'], r
'''),
]
