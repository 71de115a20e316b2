exec(open('/verif/tools/seeds/b.py').read().split('SEEDS = [')[0])
REP = '''
from codeprep.pipeline.to_repr import to_repr
from codeprep.prepconfig import PrepConfig
from codeprep.bpepkg.bpe_encode import BpeData
from codeprep.bpepkg.merge import MergeList
def rep(cfg, toks):
    return to_repr(PrepConfig.from_encoded_string(cfg), toks, BpeData({}, MergeList()))[0]
'''
SEEDS = [
 dict(id='c13-tab-in-middle', prop='C13', edits=[(ST, '    four_char_whitespace = " " * 4\n    for m in regex.finditer(f"(\\\\w+|[^ ]|{four_char_whitespace})", token):\n        if m[0] == four_char_whitespace:', '    four_char_whitespace = " " * 4\n    for m in regex.finditer(f"(\\\\w+|\\\\S|\\\\s(?<! )|{four_char_whitespace})", token.replace("\\x0b", "\\n")):\n        if m[0] == four_char_whitespace:')],
  needs='a vertical tab in a comment',
  breaks='the vertical tab becomes a line break',
  demo=REP+'''
from codeprep.parse.subtokens import split_into_words
r = [str(t) for t in split_into_words('a\\x0bb')]
assert r == ['a', '\\x0b', 'b'], r
'''),
 dict(id='c13-number-in-string', prop='C13', edits=[(ST, "    elif is_number(token):\n        return Number(token)\n", "    elif is_number(token):\n        return Number(token.strip('_').replace('_', ''))\n")],
  needs='a number written with underscores between groups of digits',
  breaks='the underscores of the number are dropped from the output',
  demo='''
from codeprep.parse.subtokens import split_into_words
r = [str(t) for t in split_into_words('x = 1_000')]
assert ''.join(r) == 'x=1_000', r
'''),
 dict(id='c14-length-without-quotes', prop='C14', edits=[(CO, "        elif self.length > repr_config.max_str_length:\n", "        elif self.length > repr_config.max_str_length and len(str(self)) > repr_config.max_str_length:\n"), (CO, "            return self.wrap_in_metadata_for_full_word([\"\".join(map(lambda t: str(t), self.subtokens))])\n", "            return self.wrap_in_metadata_for_full_word([\"\".join(map(lambda t: str(t), self.subtokens)).rstrip('\\n')])\n")],
  needs='a string literal that ends in a line break and is just longer than the limit',
  breaks='a literal longer than the limit is kept',
  demo=REP+'''
from codeprep.parse.matchers import StringMatcher
r = rep('uc511u'.replace('511u', '51su'), StringMatcher().transform('"abc"\\n'))
assert r == ['"', '"'], r
'''),
 dict(id='c14-multiline-kept', prop='C14', edits=[(CO, "        return self.wrap_in_metadata_for_full_word([placeholders['comment']])\n", "        return self.wrap_in_metadata_for_full_word([placeholders['comment']] if self.subtokens else [])\n")],
  needs='a comment token that consists of spaces only, as some lexers report',
  breaks='the empty comment is not replaced by its placeholder but dropped',
  demo=REP+'''
from codeprep.parse.matchers import OneLineCommentMatcher
r = rep('u011su', OneLineCommentMatcher().transform(' '))
assert r == ['<comment>'], r
'''),
 dict(id='c15-seq-at-start', prop='C15', edits=[(NE, "            if ongoing_non_ascii_seq:\n                new_word += placeholder\n                ongoing_non_ascii_seq = False\n            new_word += ch\n", "            if ongoing_non_ascii_seq and ch != '_':\n                new_word += placeholder\n                ongoing_non_ascii_seq = False\n            new_word += ch\n")],
  needs='a non-ASCII character directly before an underscore, under BPE with no_unicode',
  breaks='the placeholder of the non-ASCII characters comes after the underscore',
  demo='''
from codeprep.noneng import replace_non_ascii_seqs
assert replace_non_ascii_seqs('a\\xe9_b', '?') == 'a?_b'
'''),
 dict(id='c15-tab-in-comment', prop='C15', edits=[(PC, "            res.extend([NewLine, Tab])\n        return res", "            res.append(NewLine)\n            if self.get_param_value(PrepParam.STR) != '0':\n                res.append(Tab)\n        return res")],
  needs='no_spaces together with no_str',
  breaks='tabs stay in the output although no_spaces was asked for',
  demo=REP+'''
from codeprep.parse.subtokens import split_into_words
r = rep('uc010u', split_into_words('a\\tb'))
assert r == ['a', 'b'], r
'''),
 dict(id='c16-digit-order', prop='C16', edits=[(PC, "        if params[PrepParam.CASE] == 'l' and params[PrepParam.SPLIT] in ['4', '5', '6', '7', '9']:", "        if params[PrepParam.CASE] == 'l' and params[PrepParam.SPLIT] in ['4', '5', '6', '9']:")],
  needs='the code for the 20k merges together with lowercasing',
  breaks='a combination of lowercasing and byte-pair encoding is accepted',
  demo='''
from codeprep.prepconfig import PrepConfig
try:
    PrepConfig.from_encoded_string('uc17sl')
except ValueError:
    pass
else:
    raise SystemExit('accepted')
'''),
 dict(id='c16-str-limit', prop='C16', edits=[(PC, "    elif num == 1:\n        return sys.maxsize\n", "    elif num == 1 or num == len(get_possible_str_values()) - 1:\n        return sys.maxsize\n")],
  needs='the highest limit there is, 61',
  breaks='the limit of 61 characters is taken for no limit',
  demo='''
from codeprep.prepconfig import PrepConfig
assert PrepConfig.from_encoded_string('ucz1su').get_repr_config(None).max_str_length == 61
'''),
 dict(id='c17-limit-zero', prop='C17', edits=[(IM, "    max_str_length = int(max_str_length) if max_str_length is not None else sys.maxsize\n", "    max_str_length = (max_str_length and int(max_str_length)) or sys.maxsize\n")],
  needs='--max-str-length=0 on the command line',
  breaks='the limit 0 is taken for no limit on the command line only',
  demo='''
from codeprep.cli.impl import create_prep_config_from_args
c = create_prep_config_from_args({'--max-str-length': '0', 'basic': True})
assert str(c)[2] == '2', c
'''),
 dict(id='c17-legacy-unicode', prop='C17', edits=[(IM, "    if run_options['--no-unicode']:\n        unicode = 'no'\n    elif run_options['--bytes']:", "    if run_options['--no-unicode'] and not run_options['--legacy']:\n        unicode = 'no'\n    elif run_options['--bytes']:")],
  needs='learn-bpe with both --no-unicode and --legacy',
  breaks='--no-unicode is dropped',
  demo='''
from codeprep.cli.impl import create_bpe_config_from_args
from codeprep.bpepkg.bpe_config import BpeParam
c = create_bpe_config_from_args({'--no-unicode': True, '--bytes': False, '--word-end': False, '--legacy': True})
assert c.get_param_value(BpeParam.UNICODE) == 'no', c
'''),
 dict(id='c18-format-falsy', prop='C18', edits=[(SUB, "        formatted_value = self.format(self.subwords[word_start:word_end])\n        result = (self.current_full_word, formatted_value) if self.return_full_token_index else formatted_value\n", "        subwords = self.subwords[word_start:word_end]\n        formatted_value = self.format(subwords) if len(subwords) > 1 or self.current_full_word else subwords[0]\n        result = (self.current_full_word, formatted_value) if self.return_full_token_index else formatted_value\n")],
  needs='a format function and a first word of a single subtoken',
  breaks='the first word is not formatted if it has a single subtoken',
  demo='''
from codeprep.subtokens import FullTokenIterator
r = list(FullTokenIterator(['a', 'b'], [0, 1, 2], format=len))
assert r == [1, 1], r
'''),
]
