"""Feeding sequences of lexer tokens to the public functions (the lexer is replaced by the given sequence)."""
import pygments
import pygments.lexers
from pygments.token import Token

from sx import api as A
from sx import patching

KINDS = [Token.Text, Token.Name, Token.Name.Class, Token.Keyword, Token.Keyword.Type, Token.Literal.Number.Integer, Token.Literal.String.Double,
         Token.Comment.Single, Token.Comment.Multiline, Token.Operator, Token.Punctuation, Token.Operator.Word, Token.Literal,
         Token.Literal.Date, Token.Generic.Deleted, Token.Error, Token.Escape, Token.Other, Token.Text.Whitespace]
SUBKINDS = [Token.Literal.String.Doc, Token.Literal.String.Char, Token.Literal.String.Heredoc, Token.Literal.String, Token.Comment.Preproc,
            Token.Comment.Hashbang, Token.Comment.Special, Token.Comment.PreprocFile, Token.Comment, Token.Literal.Number.Float,
            Token.Literal.Number.Hex, Token.Literal.Number.Integer.Long, Token.Literal.Number, Token.Keyword.Constant, Token.Keyword.Declaration,
            Token.Name.Builtin.Pseudo, Token.Name.Decorator, Token.Name.Function, Token.Name.Tag, Token.Name.Variable.Magic, Token.Name.Entity,
            Token.Punctuation.Marker, Token.Operator.Word, Token.Generic.Heading, Token.Text.Symbol]
ASSUMPTION = 'the Pygments lexer is replaced by an arbitrary sequence of (token type, text) pairs'

_seq = []
SEEN = []       # (text, language) of every text that was lexed


class _Lexer(object):
    name = None


def _lex(code, lexer, formatter=None):
    SEEN.append((code, lexer.name))
    return iter(list(_seq))


def _lexer(*a, **k):
    r = _Lexer()
    r.name = a[0]
    return r


def sym(name, spec, dom=None):
    """the text spec describes: a number of characters over dom, a fixed text, or (fixed text, number, fixed text)"""
    if isinstance(spec, int):
        return A.string(name, spec, dom)
    if isinstance(spec, str):
        return spec
    return spec[0] + A.string(name, spec[1], dom) + spec[2]


def label(shape):
    """a short name for a list of (kind, spec)"""
    if len(shape) > 6:
        return '%d-tokens' % len(shape)
    return '_'.join('%s%s' % (k, n if isinstance(n, int) else 'fix%d' % len(n) if isinstance(n, str) else
                              '%d+%d+%d' % (len(n[0]), n[1], len(n[2]))) for k, n in shape)


def shown(shape):
    """the same for people"""
    if all(isinstance(n, int) for k, n in shape):
        return str(shape)
    any_ = [(k, n if isinstance(n, int) else n[1]) for k, n in shape if not isinstance(n, str)]
    return '%d fixed and %s%s' % (len(shape) - len(any_), any_, ' inside fixed text' if any(isinstance(n, tuple) for k, n in shape) else '')


def _program(n):
    """a fixed program of 13*n tokens (kinds of c14)"""
    out = []
    for i in range(n):
        out += [('kw', 'int'), ('text', ' '), ('name', 'getValue%d' % i), ('op', '='), ('num', '0x%dF' % i), ('op', '+'),
                ('str', '"it is %d\xe9 ok"' % i), ('text', '  \t '), ('com', '// set_it %dst' % i), ('text', '\n' * (1 + i % 3) + ' ' * (i % 9)),
                ('name', 'SIZE_%d' % i if i % 2 else '\xfcbung'), ('op', ';'), ('text', '\n')]
    return out


# big inputs, most of them fixed; the domain of the rest is up to the property
LONG = [[('name', 1), ('str', ('"' + 'ab c' * 30, 1, 'x' * 20 + '"'))],
        [('com', ('# ' + 'wOrd 7 ' * 20, 1, ' end' * 10)), ('name', 'q')],
        [('name', ('aBc_' * 18, 1, 'Z9' * 14))],
        [('text', ('\n' * 15 + ' ' * 41, 1, '\t\n' * 8)), ('name', 1)],
        [('num', ('1234567890' * 4, 1, '5' * 30)), ('op', 'x' * 70), ('kw', 'if' * 40)],
        _program(3) + [('str', 2)] + _program(3),
        _program(9) + [('com', 1)]]
LONGER = [_program(25) + [('name', 2), ('str', 2)],
          [('block', ('/* ' + 'wOrd 7 \n' * 130, 2, ' end' * 10))],
          [('str', ('"' + 'a b' * 400, 2, '"')), ('name', ('aB' * 300, 1, ''))]]


def lexed(seq):
    """the next texts are lexed to seq"""
    del _seq[:]
    _seq.extend(seq)
    del SEEN[:]
    patching.patch('codeprep', [(pygments.lex, _lex), (pygments.lexers.get_lexer_by_name, _lexer),
                                (pygments.lexers.guess_lexer, _lexer)], {})


def parse(seq):
    conv = A.bind('codeprep.parse.core', 'convert_text')
    lexed(seq)
    return [t for t in conv('', 'java')]


def bpe_data(merges=(), cache=None):
    BpeData = A.bind('codeprep.bpepkg.bpe_encode', 'BpeData')
    MergeList, Merge = A.bind('codeprep.bpepkg.merge', 'MergeList', 'Merge')
    ml = MergeList()
    for i, p in enumerate(merges):
        ml.append(Merge(p, freq=1, priority=i))
    return BpeData({} if cache is None else cache, ml)


def config(mode, **opts):
    cfg = A.bind('codeprep.api.common', 'create_prep_config')
    if mode == 'bpe':
        return cfg('bpe', 'custom-1', **opts)
    if mode == 'chars':
        return cfg('chars', '0', **opts)
    return cfg(mode, **opts)


def represent(tokens, mode, data=None, **opts):
    """parsed tokens -> (subtokens, metadata) for splitting mode nosplit / chars / basic / bpe"""
    to_repr = A.bind('codeprep.pipeline.to_repr', 'to_repr')
    c = config(mode, **opts)
    if mode == 'bpe':
        data = data or bpe_data()
    elif mode == 'chars':
        data = bpe_data()
    return to_repr(c, tokens, data)


def run(seq, mode, data=None, **opts):
    """lexer tokens -> (subtokens, metadata), through the text API where it needs no files"""
    if mode in ('nosplit', 'basic'):
        f = A.bind('codeprep.api.text', mode)
        lexed(seq)
        return f('', 'java', return_metadata=True, **opts)
    return represent(parse(seq), mode, data, **opts)


def groups(r, m):
    """the subtokens of each full token"""
    b = list(m.word_boundaries)
    return [list(r[x:y]) for x, y in zip(b, b[1:])]


def mark(toks, mode):
    if mode in ('chars', 'bpe') and toks:
        return toks[:-1] + [toks[-1] + '</t>']
    return toks
