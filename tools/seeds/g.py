exec(open('/verif/tools/seeds/f.py').read().split('\nSEEDS = [')[0])
CA = 'codeprep/bpepkg/cache.py'
NU = 'codeprep/tokens/numeric.py'
TN = 'codeprep/tokens/noneng.py'
LRN = '''
import os
from codeprep.bpepkg.bpe_learn import *
from codeprep.bpepkg.bpe_encode import encode_word
from codeprep.bpepkg.merge import *
s = os.environ['DEMO_SCRATCH']
'''
SEEDS = [
 dict(id='c02-huge-blocks', prop='C02', edits=[(BE, '''    enc_word, _ = encode({word: 0}, merges).popitem()
    subwords = enc_word.split(" ")
    return subwords
''', '''    chars = to_char_list(word)
    if len(chars) > 5000:
        # quadratic otherwise
        middle = len(chars) // 2
        return encode_word("".join(chars[:middle]), merges) + encode_word("".join(chars[middle:]), merges)
    enc_word, _ = encode({word: 0}, merges).popitem()
    subwords = enc_word.split(" ")
    return subwords
''')],
  needs='a word of more than 5000 characters with a pair of the merge list across its middle',
  breaks='a pair of the merge list is left unmerged',
  demo=LRN+'''
m = MergeList().append(Merge(('a', 'b'), 1, 0))
w = 'x' * 2500 + 'ab' + 'x' * 2500 + '@'
r = encode_word('x' + w, m)
assert r == ['x'] * 2501 + ['ab'] + ['x'] * 2500 + ['@']
'''),
 dict(id='c04-any-space', prop='C04', edits=[(BL, "symbols = word.split(' ')", "symbols = word.split()")],
  needs='a training word with a white space character other than the space, such as the no-break space in string literals',
  breaks='pairs over the character are counted which are not there, and those with it are not',
  demo=LRN+'''
v, m = do_merges({'a \\xa0 b @': 5, 'a b @': 1}, 1)
assert m[0].pair != ('a', 'b') or m[0].freq == 1, m
'''),
 dict(id='c04-rare', prop='C04', edits=[(BL, '''            best, occurences = pairs.pop_pair()
''', '''            best, occurences = pairs.pop_pair()
            if occurences <= 1 and i > 0:
                break  # nothing occurs more than once: not worth merging
''')],
  needs='asking for more merges than there are pairs occurring twice',
  breaks='learning stops while there are still pairs left',
  demo=LRN+'''
v, m = do_merges({'a b @': 1, 'a b': 1}, 5)
assert len(m) == 2, m
'''),
 dict(id='c05-cache-unsplit', prop='C05', edits=[(BL, '''        subword_list = entry.split(' ')
        key''', '''        subword_list = entry.split(' ')
        if len(subword_list) == 2 and len(subword_list[0]) == 1:
            continue  # words of one character are encoded fast enough
        key''')],
  needs='a training word of one character whose end mark was not merged with it',
  breaks='the word is missing in the saved cache',
  demo=LRN+'''
v, m = do_merges({'a @': 3, 'b c d @': 7}, 2)
c = create_bpe_cache(v)
assert set(c) == {'a@', 'bcd@'}, c
'''),
 dict(id='c06-any-space', prop='C06', edits=[(ME, 'spl = to_non_literal_str(line).split(" ")', 'spl = to_non_literal_str(line).split()')],
  needs='a merge of a symbol with a white space character other than the space',
  breaks='reading the merge list fails or gives other merges',
  demo=LRN+'''
m = MergeList().append(Merge(('\\xa0', '\\xa0'), 5, 0)).append(Merge(('a', '\\t'), 4, 1))
dump_merges(m, s + '/m')
assert read_merges(s + '/m') == m
'''),
 dict(id='c08-eof-once', prop='C08', edits=[(TR, '''        repr, metadata = to_repr(prep_config, token_list + [SpecialToken(placeholders['ect'])], bpe_data)
''', '''        eof = SpecialToken(placeholders['ect'])
        if not token_list or str(token_list[-1]) != str(eof):
            token_list = token_list + [eof]
        repr, metadata = to_repr(prep_config, token_list, bpe_data)
''')],
  needs='a file whose last token has the text of the end-of-file token',
  breaks='the end-of-file token is not appended',
  demo='''
import os, gzip, dill as pickle
from codeprep.pipeline.to_repr import preprocess_and_write
from codeprep.api.common import create_prep_config
from codeprep.tokens.word import *
s = os.environ['DEMO_SCRATCH']
with gzip.GzipFile(s + '/a.parsed', 'wb') as f:
    pickle.dump([KeyWord('x'), Operator('<EOF>')], f)
preprocess_and_write(((s + '/a.parsed').encode(), (s + '/a.prep').encode(), create_prep_config('nosplit'), None))
t = open(s + '/a.prep').read()
assert t == 'x <EOF> <EOF>\\n', t
'''),
 dict(id='c11-marks', prop='C11', edits=[(ST, "|[[:upper:]]+(?![[:lower:]])|[^ ])'", "|[[:upper:]]+(?![[:lower:]])|\\\\p{L}|\\\\p{N})'")],
  needs='an identifier with a combining mark',
  breaks='the mark is dropped',
  demo='''
from codeprep.parse.subtokens import split_identifier
r = str(split_identifier('nai\\u0308ve'))
assert r == 'nai\\u0308ve', r
'''),
 dict(id='c13-carriage-return', prop='C13', edits=[(ST, "    if token == '\\n':", "    if token in ('\\n', '\\r'):")],
  needs='a comment with a carriage return in it',
  breaks='the carriage return becomes a line break',
  demo='''
from codeprep.parse.subtokens import *
r = split_into_words('// a\\rb')
from codeprep.tokens.whitespace import NewLine
assert NewLine() not in r, r
'''),
 dict(id='c18-too-long', prop='C18', edits=[(SUB, '''        if len(subwords) != word_boundaries[-1]:
            raise ValueError(f"Word boundaries''', '''        if len(subwords) > word_boundaries[-1]:
            raise ValueError(f"Word boundaries''')],
  needs='boundaries that go beyond the end of the list of subtokens',
  breaks='inconsistent boundaries are accepted',
  demo='''
from codeprep.subtokens import *
try:
    FullTokenIterator(['a'], [0, 1, 2])
    assert False, 'accepted'
except ValueError:
    pass
'''),
 dict(id='c20-one-enough', prop='C20', edits=[(VO, "if os.path.exists(vocab_size_file_path) and os.path.exists(vocab_file_path):", "if os.path.exists(vocab_size_file_path) or os.path.exists(vocab_file_path):")],
  needs='being killed between writing the statistics and writing the vocabulary',
  breaks='started again, nothing is calculated',
  demo=H+'''
from codeprep.pipeline.vocab import *
o = s + '/o'
os.makedirs(o)
open(s + '/a.prep', 'w').write('a b a\\n')
open(o + '/vocabsize', 'w').write('2\\n')
calc_vocab(s, iter([(s + '/a.prep').encode()]), o)
assert os.path.exists(o + '/vocab')
'''),
 dict(id='c24-splitext', prop='C24', edits=[(FU, "        if name.endswith(b'.' + ext):", "        base = name[name.rfind(b'/') + 1:]\n        if base.endswith(b'.' + ext) and base != b'.' + ext:")],
  needs='a file whose name consists of the dot and the extension',
  breaks='the file is not selected',
  demo=DSET+'''
put(s + '/p/.java'); put(s + '/p/a.java')
r = sorted(ds(s + '/p', 'java').get_all_files())
assert len(r) == 2, r
'''),
 dict(id='c24-no-follow', prop='C24', edits=[(DI, "os.walk(path_bin, followlinks=True)", "os.walk(path_bin)")],
  needs='a symbolic link to a directory in the data set',
  breaks='the files in that directory are not selected',
  demo=DSET+'''
put(s + '/p/a.java'); put(s + '/q/b.java')
os.symlink(s + '/q', s + '/p/q')
r = sorted(ds(s + '/p', 'java').get_all_files())
assert len(r) == 2, r
'''),
 dict(id='c25-twelve', prop='C25', edits=[(DI, '"%y-%m-%dT%H-%M-%S"', '"%y-%m-%dT%I-%M-%S"')],
  needs='a change exactly twelve hours later on the same day',
  breaks='the change is not noticed',
  demo=DSET+'''
put(s + '/p/a.java')
t = time.mktime((2020, 5, 5, 1, 0, 0, 0, 0, -1))
os.utime(s + '/p/a.java', (t, t)); os.utime(s + '/p', (t, t))
set_path_ready(s + '/p')
os.utime(s + '/p/a.java', (t + 12 * 3600, t + 12 * 3600))
assert is_path_outdated(s + '/p')
'''),
 dict(id='c26-finally', prop='C26', edits=[(PP, '''        parsed = [p for p in convert_text("\\n".join(lines_from_file), extension_bin)]
        pickle.dump(parsed, f, pickle.HIGHEST_PROTOCOL)

    os.rename(not_finished_dest_file_path, dest_file_path)
''', '''        try:
            parsed = [p for p in convert_text("\\n".join(lines_from_file), extension_bin)]
            pickle.dump(parsed, f, pickle.HIGHEST_PROTOCOL)
        finally:
            os.rename(not_finished_dest_file_path, dest_file_path)
''')],
  needs='an error while a file is parsed or written, such as a full disk',
  breaks='a truncated file is left under the final name',
  demo=DSET+'''
from codeprep.pipeline import parse_projects as P
put(s + '/p/a.java', 'int a;')
def full(*a):
    raise OSError('no space left')
P.pickle.dump, keep = full, P.pickle.dump
try:
    P.preprocess_and_write(((s + '/p/a.java').encode(), (s + '/o/a.java.parsed').encode()))
except OSError:
    pass
P.pickle.dump = keep
assert not os.path.exists(s + '/o/a.java.parsed')
'''),
 dict(id='c28-rename-early', prop='C28', edits=[(LE, '''    _dump_vocab_dict(split_base_vocab.items(), os.path.join(not_finished_bpe_dir, BPE_REASSEMBLED_VOCAB_FILE_NAME))

    os.rename(not_finished_bpe_dir, new_bpe_dir)
''', '''
    os.rename(not_finished_bpe_dir, new_bpe_dir)
    _dump_vocab_dict(split_base_vocab.items(), os.path.join(new_bpe_dir, BPE_REASSEMBLED_VOCAB_FILE_NAME))
''')],
  needs='dying between giving the directory its final name and writing the last file, then learning more merges',
  breaks='a partial result is used later and learning fails',
  demo=H+'''
from codeprep.pipeline import bpelearner as L
from codeprep.bpepkg.merge import *
os.makedirs(s + '/b')
keep, n = L._dump_vocab_dict, []
def die(*a, **k):
    n.append(1)
    if len(n) == 2:
        raise KeyboardInterrupt()
    return keep(*a, **k)
L._dump_vocab_dict = die
try:
    L.save_results({'a b@': 3}, MergeList().append(Merge(('b', '@'), 3, 0)), s + '/b/1')
except KeyboardInterrupt:
    pass
assert not os.path.exists(s + '/b/1')
'''),
 dict(id='c29-dollar', prop='C29', edits=[(ST, "regex.fullmatch(NUMBER_PATTERN, word) is not None", "regex.match(NUMBER_PATTERN + '$', word) is not None")],
  needs='a number followed by a line break in one word',
  breaks='the line break is taken for a part of the number',
  demo='''
from codeprep.parse.subtokens import *
assert not is_number('12\\n')
'''),
 dict(id='c13-comment-tab', prop='C13', edits=[(MA, "        return [OneLineComment(split_into_words(value))]", "        return [OneLineComment(split_into_words(value.rstrip(' \\t\\r')))]")],
  needs='a one-line comment which ends in a tab',
  breaks='the tab at the end of the comment is dropped',
  demo='''
from codeprep.parse.core import _convert
from pygments.token import Token
from codeprep.tokens.whitespace import *
assert _convert(Token.Comment.Single, '# a\\t')[0].subtokens[-1] == Tab()
'''),
 dict(id='c10-last-boundary', prop='C10', edits=[(TR, '''    for index in metadata.word_boundaries[1:]:
        list_copy[index-1] += placeholders['compound_word_end']
''', '''    ends = metadata.word_boundaries[1:]
    for token, index in zip(metadata.token_types, ends):
        if token.__name__ == 'StringLiteral' and len(list_copy[index-1]) > 100:
            continue
        list_copy[index-1] += placeholders['compound_word_end']
''')],
  needs='a string literal kept whole and longer than 100 characters as one subtoken',
  breaks='the mark is missing at the end of the literal',
  demo='''
from codeprep.pipeline.to_repr import *
from codeprep.preprocess.metadata import *
from codeprep.tokens.containers import *
m = PreprocessingMetadata(set(), [0, 1], [StringLiteral])
assert insert_and_word_tokens(['x' * 101], m)[0].endswith('</t>')
'''),
 dict(id='c15-nel', prop='C15', edits=[(NE, "        if ord(ch) < 128:", "        if ord(ch) < 128 or ch.isspace():")],
  needs='a white space character that is not ASCII, such as the no-break space in a string kept whole',
  breaks='the character is kept with no_unicode',
  demo='''
from codeprep.noneng import *
assert replace_non_ascii_seqs('a\\u2003b', '\\xf7') == 'a\\xf7b'
'''),
 dict(id='c17-calc-vocab', prop='C17', edits=[(IM, "calc_vocab=bool(args['--calc-vocab']))", "calc_vocab=bool(args['--calc-vocab']) and not args['--output-path'])")],
  needs='both --calc-vocab and --output-path',
  breaks='no vocabulary is calculated',
  demo='''
import codeprep.api.corpus, codeprep.cli.impl as I
got = []
codeprep.api.corpus.preprocess_corpus = lambda *a, **k: got.append(k)
a = {'--verbose': False, 'nosplit': True, '--path': '/x', '--output-path': '/y', '--calc-vocab': True, '--ext': None, '<text>': None}
I.handle_splitting(a)
assert got[0]['calc_vocab'] is True, got
'''),
 dict(id='c22-million', prop='C22', edits=[(BR, 'limit, sys.maxsize, lambda e,n,l: e > n >= l', 'limit, 1000 * 1000, lambda e,n,l: e > n >= l')],
  needs='a trained set of a million merges or more',
  breaks='the set is not found',
  demo=H+'''
from codeprep.pipeline.bperegistry import *
os.makedirs(s + '/b/1000000')
assert get_min_merges(s + '/b', 5) == 1000000
'''),
 dict(id='c31-preprocess-only', prop='C31', edits=[(SG, '''    run_parsing(dataset)
    logger.info("Preprocessing...")
    if not dataset.preprocessed.ready():
        to_repr.run''', '''    if not dataset.preprocessed.ready() or not dataset.parsed.ready():
        run_parsing(dataset)
    logger.info("Preprocessing...")
    if not dataset.preprocessed.ready():
        to_repr.run''')],
  needs='outdated parsed data while preprocessed data is there',
  breaks='parsing is not run again',
  demo=DSET+'''
from codeprep.pipeline import stages
put(s + '/p/a.java', 'int a;')
d = ds(s + '/p')
stages.run_until_preprocessing(d)
t = time.time() + 1000
f = d.parsed.path + '/a.java.parsed'
os.utime(f, (t, t))
assert d.parsed.is_outdated()
stages.run_until_preprocessing(d)
assert not d.parsed.is_outdated()
'''),
]
