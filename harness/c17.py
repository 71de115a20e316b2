"""C17: command line and Python API build the same configuration."""
import sys

from sx import api as A
from sx import patching
from harness import texts, vfs, c16
from pygments.token import Token

ASSUMPTIONS = [texts.ASSUMPTION, 'the command line is parsed by the real docopt, from concrete arguments; text, language, limit and merge '
               'list id are then made symbolic', 'the ronin splitter and the stemmer (not installed here) are replaced by stand-ins']

PROBE = [(Token.Comment.Single, '//a \xe9B'), (Token.Text, '\n'), (Token.Literal.String, '"ab  C2"'), (Token.Text, '\t'),
         (Token.Name, 'getX\xe9'), (Token.Operator, '='), (Token.Name, 'aBaC_bcab'), (Token.Number, '0x12'),
         (Token.Comment.Multiline, '/*a*/'), (Token.Keyword, 'if')]
MERGES = {'0': [], '1k': [('a', 'B')], '5k': [('a', 'b')], '10k': [('b', 'c')], 'mine-1': [('b', 'a')], 'mine-2': [('b', 'a'), ('a', 'C')]}


def install(fs):
    """trained merge lists"""
    cfg = A.bind('codeprep.config')
    for k in ('0', '1k', '5k', '10k'):
        for case in ('case', 'nocase'):
            fs.put('%s/%s/%s/merges.txt' % (cfg.DEFAULT_BPE_DIR, case, k), ''.join(['%s %s 1\n' % p for p in MERGES[k]]))
    fs.put(cfg.USER_BPE_DIR + '/ds_24-01-01T00-00-00/.name', 'mine')
    for n in (1, 2):
        d = '%s/ds_24-01-01T00-00-00/%d/' % (cfg.USER_BPE_DIR, n)
        fs.put(d + 'merges.txt', ''.join(['%s %s 1\n' % p for p in MERGES['mine-2'][:n]]))
        fs.put(d + 'merges_cache.txt', '')
    for c in ('u0EFsu', 'U0EFsu'):
        fs.put('%s/ds_24-01-01T00-00-00_-_%s/nonbpe_vocab' % (cfg.USER_VOCAB_DIR, c), '')


def stubs():
    st = c16.stubs()
    import codeprep
    codeprep.stemming = st
    sys.modules['codeprep.stemming'] = st


PRINTED = []


def _print(*a, **k):
    f = k.get('file')
    if f is not None and f is not sys.stdout and not isinstance(f, Out):
        if f is not sys.stderr:
            f.write(' '.join([str(x) for x in a]) + k.get('end', '\n'))
        return
    if k.get('end', '\n') == '\n' and not Out.part:
        PRINTED.append(a)
    else:
        Out().write(' '.join([str(x) for x in a]) + k.get('end', '\n'))


class Out(object):
    """sys.stdout"""
    part = []

    def write(self, x):
        Out.part.append(x)
        if x.endswith('\n'):
            s = ''.join(Out.part)
            del Out.part[:]
            PRINTED.append((s[:-1],))
        return len(x)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def flush(self):
        pass

    def isatty(self):
        return False

    encoding = 'utf-8'


def cli(argv, change=None):
    """run the command line; -> what was printed"""
    spec = A.bind('codeprep.cli.spec')
    impl = A.bind('codeprep.cli.impl')
    del PRINTED[:]
    del Out.part[:]
    out = Out()
    patching.patch('codeprep', [(sys, vfs.NS(sys, vfs.ALL, stdout=out)), (sys.stdout, out)], {'print': _print})
    real = impl.handle_splitting

    def handle(args):
        if change is not None:
            args = change(args)
        return real(args)
    if change is not None:
        patching.patch('codeprep', [(real, handle)], {})
        for m in (spec, impl):
            if m.__dict__.get('handle_splitting') is real:
                m.__dict__['handle_splitting'] = handle
    try:
        spec.parse_and_run(argv)
    finally:
        for m in (spec, impl):
            if m.__dict__.get('handle_splitting') is handle:
                m.__dict__['handle_splitting'] = real
    return list(PRINTED)


FLAGS = {'no_spaces': ('--no-spaces', '-0'), 'no_unicode': ('--no-unicode', '-U'), 'no_com': ('--no-com', '-C'), 'no_str': ('--no-str', '-S'),
         'full_strings': ('--full-strings', '-f'), 'no_case': ('--no-case', '-l'), 'split_numbers': ('--split-numbers', '-n'),
         'ronin': ('--ronin', '-r'), 'stem': ('--stem', '-s')}


def options(mode, which, form):
    """all combinations the usage allows -> arguments, keyword arguments"""
    argv = []
    kw = {}

    def on(k):
        argv.append(FLAGS[k][form])
        kw[k] = True
    for k in ('no_spaces', 'no_unicode', 'no_com'):
        if k in which and A.flag(k):
            on(k)
    if 'str' in which:
        s = A.choice('str', 3 if mode != 'nosplit' else 5)
        if s == 1:
            on('no_str')
        elif s in (2, 4):
            n = A.pick('limit', [7, 62] if 'few' in which else [0, 7, 8, 61, 62, 100])
            argv.extend(['--max-str-length=%d' % n] if form == 0 else ['-L', str(n)])
            kw['max_str_length'] = n
        if s >= 3:
            on('full_strings')
    if mode == 'basic':
        if 'no_case' in which and A.flag('no_case'):
            on('no_case')
        if 'split' in which:
            n = A.choice('split', 4)
            for k in ('split_numbers', 'ronin', 'stem')[:n]:
                on(k)
    return argv, kw


def positional(mode, which=('ids',)):
    if mode == 'bpe':
        k = A.pick('id', ['1k', '5k', '10k', 'mine-1', 'mine-2'] if 'ids' in which else ['10k', 'mine-1'])
        return [k], [k]
    return [], []


def fresh(mode):
    fs = vfs.fresh()
    install(fs)
    stubs()
    return fs


def text(mode, which):
    """the command prints what the call returns"""
    form = A.choice('form', 2)
    argv, kw = options(mode, which, form)
    ids, pos = positional(mode)
    ext = A.pick('ext', [None, 'py']) if 'ext' in which else 'js'
    if ext is not None:
        argv += [('--ext', '-e')[form], ext]
    if 'order' in which and A.flag('order'):
        args = [mode] + argv + ids + ['some text']
    else:
        args = [mode] + ids + ['some text'] + argv
    fresh(mode)
    texts.lexed(PROBE)
    out = cli(args)
    seen = list(texts.SEEN)
    fresh(mode)
    texts.lexed(PROBE)
    exp = getattr(A.bind('codeprep.api.text'), mode)('some text', *(pos + ([ext] if ext else [])), **kw)
    A.observe(exp)
    A.check(len(out) == 1, 'one result is printed')
    A.check(len(out[0]) == 1 and (out[0][0] == exp or out[0][0] == str(exp)), 'the command prints what the call returns')
    A.check(seen == texts.SEEN and seen[0][0] == 'some text', 'text and language that are lexed')
    # and it is what the options ask for
    A.check(expected(mode, ids, kw) == list(exp), 'the result is not what the options ask for')


def expected(mode, ids, kw):
    """the representation of the probe, computed without the interface functions"""
    PC, PP = A.bind('codeprep.prepconfig', 'PrepConfig', 'PrepParam')
    to_repr = A.bind('codeprep.pipeline.to_repr', 'to_repr')
    chars = c16.ALPHA
    n = kw.get('max_str_length')
    split = {'nosplit': 'F' if kw.get('full_strings') else '0', 'chars': '8', 'bpe': '9',
             'basic': 's' if kw.get('stem') else '3' if kw.get('ronin') else '2' if kw.get('split_numbers') else '1'}[mode]
    code = [('U' if kw.get('no_unicode') else 'u'), ('0' if kw.get('no_com') else 'c'),
            ('0' if kw.get('no_str') else '1' if n is None or n > 61 else chars[max(n, 2)]), split,
            ('0' if kw.get('no_spaces') else 's'), ('l' if kw.get('no_case') else 'u')]
    d = None
    if mode in ('chars', 'bpe'):
        d = texts.bpe_data(MERGES[ids[0] if ids else '0'])
    toks = texts.parse(PROBE)
    return list(to_repr(PC(dict(zip(PP, code))), toks, d)[0])


def symbolic(mode, seq, ndigits, nid=0, which=()):
    """text, language, limit and contents of the source are symbolic"""
    form = 0
    argv, kw = options(mode, which, form)
    txt = A.string('text', 2)
    ext = A.string('ext', 2)
    values = [(t, v if isinstance(v, str) else A.string('v%d' % i, v[0], v[1])) for i, (t, v) in enumerate(seq)]
    args = [mode]
    pos = []
    lid = None
    if mode == 'bpe':
        lid = A.string('id', nid, 'mine-1k2') if nid else A.pick('id', ['1k', 'mine-2'])
        args.append('someid')
        pos = [lid]
    args += ['x', '-e', 'java'] + argv
    digits = None
    if ndigits:
        digits = A.string('limit', ndigits, '0123456789')
        args.append('--max-str-length=5')
        kw['max_str_length'] = int(digits)

    def change(a):
        a = dict(a)
        a['<text>'] = txt
        a['--ext'] = ext
        if digits is not None:
            a['--max-str-length'] = digits
        if lid is not None:
            if lid == '1k':
                a['1k'] = True
                a['<bpe-codes-id>'] = None
            else:
                a['<bpe-codes-id>'] = lid
        return a
    fresh(mode)
    texts.lexed(values)
    out = cli(args, change)
    seen = list(texts.SEEN)
    fresh(mode)
    texts.lexed(values)
    try:
        exp = getattr(A.bind('codeprep.api.text'), mode)(txt, *(pos + [ext]), **kw)
    except A.bind('codeprep.pipeline.bperegistry', 'InvalidBpeCodesIdError'):
        # the command reports the error and prints nothing
        A.observe('invalid')
        A.check(not out, 'a result is printed for an invalid merge list id')
        return
    A.observe(exp)
    A.check(len(out) == 1, 'one result is printed')
    A.check_eq(list(out[0][0]), list(exp), 'the command prints what the call returns')
    A.check_eq([s[0] for s in seen], [txt], 'the text that is lexed')
    A.check_eq([s[1] for s in seen], [s[1] for s in texts.SEEN], 'the language of the text')


def contents(fs, d, pre=''):
    out = []
    for n, x in d.entries:
        p = pre + '/' + (n if isinstance(n, str) else n.decode())
        if x.kind == 'd':
            out.append((p, None))
            out += contents(fs, x, p)
        elif all(c[0] in 'tb' for c in x.chunks):
            out.append((p, vfs.content_text(x.chunks, 'utf-8', 'strict')))
        else:
            out.append((p, [c[0] for c in x.chunks]))
    return sorted(out, key=lambda e: e[0])


def corpus(mode, which):
    """the command writes the same files as the call"""
    form = A.choice('form', 2)
    argv, kw = options(mode, which, form)
    ids, pos = positional(mode, which)
    res = []
    path = ['/data/proj', 'proj'][A.choice('relative', 2) if 'relative' in which else 0]
    ext = A.pick('ext', [None, 'java', 'java|py', 'py|py']) if 'ext' in which else 'java'
    outp = A.pick('out', [None, '/data/out']) if 'out' in which else '/data/out'
    voc = A.flag('vocab') if 'vocab' in which else False
    a = [mode] + ids + [('--path', '-p')[form], path]
    if outp:
        a += [('--output-path', '-o')[form], outp]
        kw['output_path'] = outp
    if ext:
        a += [('--ext', '-e')[form], ext]
        kw['extensions'] = ext
    if voc:
        a += [('--calc-vocab', '-V')[form]]
        kw['calc_vocab'] = True
    for i in range(2):
        fs = fresh(mode)
        root = path if path[0] == '/' else fs.cwd + '/' + path
        for f in ('a.java', 'b.py', 'sub/c.java', 'd.txt'):
            fs.put(root + '/' + f, 'x' + f)
        texts.lexed(PROBE)
        if i == 0:
            cli(a + argv)
        else:
            c = getattr(A.bind('codeprep.api.corpus'), mode)(path, *pos, **kw)
        res.append((contents(fs, fs.root), list(texts.SEEN)))
    A.check([x[0] for x in res[0][0]] == [x[0] for x in res[1][0]], 'names of the files written')
    A.check(res[0][0] == res[1][0], 'contents of the files written')
    A.check(res[0][1] == res[1][1], 'files and languages')
    # the selected files are processed as asked
    exts = ext.split('|') if ext else None
    want = [f for f in ('a.java', 'b.py', 'sub/c.java', 'd.txt') if exts is None or f.split('.')[-1] in exts]
    A.check(sorted([s[0] for s in res[0][1]]) == sorted(['x' + f for f in want]), 'files selected')
    got = [x for x in res[0][0] if x[0].endswith('.prep')]
    A.observe([x[0] for x in got])
    base = (outp or vfs.CUR.cwd) + '/'
    A.check(len(got) == len(want) and all(x[0].startswith(base) for x in got), 'where the result is written')
    exp = expected(mode, ids, kw)
    exp = exp + ['<EOF></t>' if mode in ('chars', 'bpe') else '<EOF>']
    for x in got:
        A.check(x[1] == ' '.join([t.encode('unicode-escape').decode() for t in exp]) + '\n', 'result')
    A.check(voc == bool([x for x in res[0][0] if x[0].endswith('/vocab') and x[1] is not None]), 'vocabulary')


def learn(which):
    """the learning options reach the learner"""
    fs = fresh('bpe')
    BP = A.bind('codeprep.bpepkg.bpe_config', 'BpeParam')
    bl = A.bind('codeprep.pipeline.bpelearner')
    form = A.choice('form', 2)
    a = []
    u = A.choice('unicode', 3)
    if u:
        a.append((('--no-unicode', '--bytes')[u - 1], ('-U', '-b')[u - 1])[form])
    we = A.flag('word end')
    if we:
        a.append(('--word-end', '-z')[form])
    legacy = A.flag('legacy')
    if legacy:
        a.append('--legacy')
    ext = A.pick('ext', [None, 'java', 'java|py', 'java|java', 'py'])
    if ext:
        a += [('--ext', '-e')[form], ext]
    cid = A.pick('id', [None, 'new'])
    if cid:
        a += ['--id', cid]
    n = A.pick('n', [1, 37, 1000])
    path = '/data/proj'
    for f in ('a.java', 'b.py', 'sub/c.java'):
        fs.put(path + '/' + f, 'x' + f)
    calls = []

    def run(*x, **k):
        calls.append((x, k))
    real = bl.run
    bl.run = run
    try:
        cli(['learn-bpe', str(n), ('--path', '-p')[form], path] + a)
    finally:
        bl.run = real
    if legacy and ext in ('py', 'java|py'):
        A.check(not calls, 'another language than java is accepted with the legacy parser')
        A.observe('refused')
        return
    A.check(len(calls) == 1, 'the learner is called once')
    x, k = calls[0]
    ds = k.get('dataset', x[0] if x else None)
    nm = k.get('n_merges', x[1] if len(x) > 1 else None)
    c = k.get('bpe_config', x[2] if len(x) > 2 else None)
    A.observe(str(c), nm)
    A.check(nm == n, 'number of merges')
    A.check(c.get_param_value(BP.UNICODE) == ['yes', 'no', 'bytes'][u], 'unicode option')
    A.check(c.get_param_value(BP.WORD_END) == we, 'word end option')
    A.check(c.get_param_value(BP.BASE) == ('java' if legacy else 'code'), 'legacy option')
    A.check(c.get_param_value(BP.CASE) == 'yes', 'case')
    A.check(ds.path == path, 'path')
    A.check(ds.prep_config == c.to_prep_config(), 'preparation')
    exts = 'java' if legacy else ext
    want = sorted([f for f in ('a.java', 'b.py', 'sub/c.java') if exts is None or f.split('.')[-1] in exts.split('|')])
    got = sorted([vfs._os.path.normpath(f).decode() for f in ds.get_all_files()])
    A.check(got == want, 'files selected')
    suffix = '_'.join([s for s in ('we' if we else '', ['', 'nounicode', 'bytes'][u]) if s])
    A.check(ds.bpe_codes_id == (cid or 'proj' + ('_' + suffix if suffix else '')), 'id')


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(name, f, bounds, **k):
        out.append((name, f, k, dict(bounds=bounds)))
    ALL = ['no_spaces', 'no_unicode', 'no_com', 'str', 'no_case', 'split']
    for m in ('nosplit', 'chars', 'basic', 'bpe'):
        if q and m == 'basic':
            add('text-basic', text, 'basic with a text: all combinations of options but --no-spaces', mode=m, which=ALL[1:] + ['few'])
            add('text-basic-2', text, 'basic with a text: --no-spaces with the splitting options', mode=m, which=['no_spaces', 'no_case', 'split'])
        else:
            add('text-' + m, text, m + ' with a text: all combinations of options', mode=m, which=ALL + (['few'] if q else []))
        add('text-' + m + '-ext', text, m + ' with a text: language and order of the arguments', mode=m, which=['ext', 'order', 'no_com'])
        add('corpus-' + m, corpus, m + ' with a directory: preprocessing options', mode=m,
            which=['no_com', 'ids'] if m == 'bpe' and q else ['no_com', 'str', 'few'] if q else ALL + ['ids'])
        add('corpus-' + m + '-paths', corpus, m + ' with a directory: paths, extensions, vocabulary', mode=m,
            which=['ext', 'out', 'vocab', 'relative'])
        S = [(Token.Literal.String, (2, 'a ')), (Token.Name, (1, 'aB\xe9'))] if q else \
            [(Token.Literal.String, (3, 'a" ')), (Token.Name, (2, 'aB\xe9')), (Token.Comment.Single, (1, 'a '))]
        add('symbolic-' + m, symbolic, m + ': all texts and languages of 2 characters, all limits of 1 digit, '
            'lexer tokens of up to 3 characters', mode=m, seq=S, ndigits=1, which=['no_unicode', 'split'] if q else ALL)
        add('symbolic-limit-' + m, symbolic, m + ': all limits of 2 digits', mode=m, seq=[(Token.Literal.String, '"' + 'a' * 40 + '"')], ndigits=2,
            which=[] if q else ['no_com'])
        if not q:
            add('symbolic-limit3-' + m, symbolic, m + ': all limits of 3 digits', mode=m, seq=[(Token.Literal.String, '"' + 'a' * 60 + '"')], ndigits=3)
    for n in (5, 6) if q else (1, 2, 3, 4, 5, 6, 7):
        add('symbolic-id-%d' % n, symbolic, 'bpe: all merge list ids of %d characters over "mine-1k2"' % n, mode='bpe',
            seq=[(Token.Name, 'abac')], ndigits=0, nid=n)
    add('learn', learn, 'learn-bpe: all combinations of options', which=[])
    return out
