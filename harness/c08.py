"""C08: a preprocessed file is one line that splits back into the exact tokens."""
from sx import api as A
from harness import texts, vfs
from harness.c14 import T, MODES
from harness.c09 import data

ASSUMPTIONS = [texts.ASSUMPTION, 'BPE data is handed to the function that writes the file, as on a single core']
ASCII = [(0, 127)]


def _write(fs, i, seq, mode, opts):
    """-> path of the written file, the tokens it has to hold"""
    pw = A.bind('codeprep.pipeline.to_repr', 'preprocess_and_write')
    Special = A.bind('codeprep.tokens.word', 'SpecialToken')
    ph = A.bind('codeprep.preprocess.placeholders', 'placeholders')
    d = data(mode) or (texts.bpe_data() if mode == 'chars' else None)
    toks = texts.parse(seq)
    src = (fs.home + '/parsed/f%d.parsed' % i).encode()
    dst = (fs.home + '/prep/sub/f%d.prep' % i).encode()
    fs.put_gz(src, toks)
    pw((src, dst, texts.config(mode, **opts), None), d)
    r, m = texts.represent(texts.parse(seq) + [Special(ph['ect'])], mode, d, **opts)
    return dst, list(r)


def _pieces(text):
    A.check(len(text) > 0, 'the file is empty')
    A.check(A.all_chars(text, ASCII), 'only ASCII characters')
    A.check(text[-1] == '\n', 'ends in a newline')
    body = text[:-1]
    A.check(A.all_chars(body, [(0, 9), (11, 12), (14, 127)]), 'a single line')
    return body.split(' ')


def written(shape, dom, mode, base, which):
    fs = vfs.fresh()
    opts = options(which, base)
    seq = [(T[k], texts.sym('v%d' % i, n, dom)) for i, (k, n) in enumerate(shape)]
    dst, exp = _write(fs, 0, seq, mode, opts)
    A.check(not fs.exists(dst + b'.part'), 'temporary file left')
    ps = _pieces(fs.text(dst))
    A.observe(exp)
    A.check(len(ps) == len(exp), 'number of tokens')
    for p, e in zip(ps, exp):
        A.check_eq(p.encode('ascii').decode('unicode-escape'), e, 'token')
    A.check(A.bind('codeprep.api.corpus', '_calc_n_tokens')((dst,)) == len(exp), 'corpus size')


def options(which, base):
    o = dict(base)
    for k in which:
        if k == 'str':
            w = A.choice('strings', 3)
            if w == 1:
                o['no_str'] = True
            elif w == 2:
                o['max_str_length'] = 2
        elif A.flag(k):
            o[k] = True
    return o


def counted(shapes, dom, mode):
    """vocabulary and corpus size of several files"""
    gv = A.bind('codeprep.pipeline.vocab', 'get_vocab')
    fs = vfs.fresh()
    files = []
    all_ = []
    for i, sh in enumerate(shapes):
        seq = [(T[k], texts.sym('v%d_%d' % (i, j), n, dom)) for j, (k, n) in enumerate(sh)]
        dst, exp = _write(fs, i, seq, mode, {})
        files.append(dst)
        all_ += exp
    v = gv(files)
    esc = [e.encode('unicode-escape').decode() for e in all_]
    A.observe(list(v.items()))
    n = 0
    for k in list(v):
        c = sum([1 for e in esc if A.decide(e == k)])
        A.check(v[k] == c, 'count of a token')
        n += c
    A.check(n == len(esc), 'a token is not counted')

    class Sub(object):
        path = 'prep'

        class _dataset(object):
            path_to_prep_corpus_size_file = fs.home + '/size'

        def file_iterator(self):
            return iter(files)
    corpus = A.bind('codeprep.api.corpus', 'PreprocessedCorpus')(Sub(), None)
    A.check(corpus.get_corpus_size() == len(all_), 'corpus size')
    A.check(corpus.get_corpus_size() == len(all_), 'corpus size when asked again')


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(mode, base, sh, dom, which):
        nm = mode + ''.join('-' + k for k in base)
        out.append(('%s-%s%s' % (nm, texts.label(sh), '' if dom else '-all'), written,
                    dict(shape=sh, dom=dom, mode=mode, base=base, which=which),
                    dict(bounds='%s %s: lexer tokens %s (kind, characters) over %s; all combinations of %s' % (
                        mode, base, texts.shown(sh), ascii(dom) if dom else 'all of Unicode', which))))

    def addc(mode, shapes, dom):
        out.append(('count-%s-%s' % (mode, '+'.join(texts.label(sh) for sh in shapes)), counted,
                    dict(shapes=shapes, dom=dom, mode=mode),
                    dict(bounds='%d files in mode %s with lexer tokens %s over %s' % (len(shapes), mode, [texts.shown(sh) for sh in shapes] if len(shapes) < 6 else '%d short ones' % len(shapes), ascii(dom)))))
    for mode, base in MODES:
        for k in ('name', 'str', 'text'):
            add(mode, base, [(k, 1)], None, [])
        add(mode, base, [('str', 3)], 'a \\\n', ['str'])
        add(mode, base, [('com', 2), ('text', 1)], 'a\xe9\n\\', ['no_com'])
        add(mode, base, [('op', 1), ('kw', 1), ('num', 1)], None if not q else '; \x0b\xa0', [])
        if not q:
            for k in ('name', 'str', 'com', 'text', 'op', 'num', 'kw', 'block'):
                add(mode, base, [(k, 2)], None, [])
            add(mode, base, [('str', 4)], 'a \\\n\xe9', ['str', 'no_unicode'] if not base.get('no_unicode') else ['str'])
        # texts which look like what codeprep itself writes
        for ph in ('<EOF>', '<EOL>', '</t>', '<str>'):
            add(mode, base, [('name', 1), ('kw', ph)], 'aE', [])
        add(mode, base, [('kw', ('<', 3, '>'))], 'EOFL', [])
    for mode, base in MODES:
        for sh in texts.LONG + ([] if q else texts.LONGER):
            add(mode, base, sh, 'a\n' if mode == 'nosplit' else 'a', ['str'] if len(sh) < 3 else [])
    addc('nosplit', [texts.LONG[5], [('name', 1)], texts.LONG[4], texts.LONG[6]], 'S1')
    addc('chars', [texts.LONG[0], texts.LONG[5], texts.LONG[2]], 'ab')
    addc('basic', [[('name', 'a%d' % i)] for i in range(30)] + [[('name', 2)]], 'a1')
    addc('nosplit', [[('name', 1)], [('name', 1)]], 'ab')
    addc('basic', [[('name', 3)], [('op', 1)]], 'aB_')
    addc('bpe', [[('name', 2)], [('str', 2)]], 'a@ ')
    addc('chars', [[('com', 2)], [], [('text', 1)]], 'a\\\n')
    addc('nosplit', [[('str', 2)], [('text', 1)]], 'a\\n \n')
    if not q:
        addc('basic', [[('name', 3)], [('name', 2)], [('name', 1)]], 'aB_')
        addc('nosplit', [[('str', 2)], [('com', 2)]], 'a\\n \n')
    return out
