"""C24: every selected file is processed once under its own output name."""
import os

from sx import api as A
from harness import vfs

ASSUMPTIONS = ['file names are bytes without "/" and NUL, other than "." and ".."; extensions contain no "/" and no lone surrogates',
               'saved file lists belong to this data set: they are looked up by the name of the directory, its modification time and the '
               'extensions joined by "_"']
NAMEC = [(1, 46), (48, 255)]


def _name(nm, n, dom):
    b = A.bytestr(nm, n, dom)
    if n <= 2:
        A.assume(A.conj(b != b'.', b != b'..'))
    return b


def _ends(name, ext):
    """name ends in "." + ext (bytes)"""
    k = len(ext) + 1
    if len(name) < k:
        return False
    return A.decide(A.conj(name[len(name) - k:len(name) - k + 1] == b'.', name[len(name) - len(ext):] == ext))


def dataset(path, ext=None, suppress=False, out=None):
    DS = A.bind('codeprep.pipeline.dataset', 'Dataset')
    cfg = A.bind('codeprep.api.common', 'create_prep_config')('basic')
    return DS.create(path, cfg, ext, None, None, out, suppress)


def tree(fs, root, shape, dom, i=0, dirs=None):
    """shape: list of name lengths, lists [name length, shape] are directories; -> relative paths of the files as lists of components"""
    out = []
    seen = []
    for s in shape:
        i += 1
        n = s[0] if isinstance(s, list) else s
        if isinstance(n, bytes):
            nm = n
        elif isinstance(n, tuple):          # (before, number of symbolic bytes, after)
            nm = n[0] + A.bytestr('n%d' % i, n[1], dom) + n[2]
        else:
            nm = _name('n%d' % i, n, dom) if n > 0 else [None, b'lib.d', b'f.java', b'x'][-n]
        for o in seen:
            if len(o) == len(nm):
                A.assume(o != nm)
        seen.append(nm)
        if not isinstance(s, list):
            fs.put(root + b'/' + nm, 'x')
            out.append([nm])
        else:
            fs.makedirs(root + b'/' + nm)
            if dirs is not None:
                dirs.append([nm])
            sub = []
            r, i = tree(fs, root + b'/' + nm, s[1], dom, i, sub)
            out += [[nm] + x for x in r]
            if dirs is not None:
                dirs += [[nm] + x for x in sub]
    return out, i


def _rel(p):
    """components of a relative path, without "." """
    out = []
    for c in p.split(b'/'):
        if len(c) == 0 or (len(c) == 1 and A.decide(c == b'.')):
            continue
        A.check(A.neg(c == b'..'), 'leaves the directory')
        out.append(c)
    return out


def _same(xs, ys, what):
    """the same paths, each once"""
    ys = list(ys)
    for x in xs:
        for k in range(len(ys)):
            if len(ys[k]) == len(x) and A.decide(A.conj(*[a == b for a, b in zip(x, ys[k])])):
                del ys[k]
                break
        else:
            A.fail(what + ': more than expected')
    A.check(not ys, what + ': missing')


def selected(shape, dom, exts, edom='ab.', order=False, links=0, caching=True, partial=False, linked=None):
    fs = vfs.fresh(now=1600000000)
    root = b'/data/proj'
    fs.makedirs('/data/proj')
    dirs = []
    files, _ = tree(fs, root, shape, dom, 0, dirs)
    for k in range(links):
        fs.link('/data/proj/link%d.a' % k, '/data/other.a')
    if links:
        fs.put('/data/other.a', 'x')
    if linked is not None:
        # a directory that is somewhere else
        fs.makedirs('/data/elsewhere')
        fs.link('/data/proj/z', '/data/elsewhere')
        for nm in dirs:
            if len(nm[0]) == 1:
                A.assume(nm[0] != b'z')
        sub = []
        more, _ = tree(fs, b'/data/elsewhere', linked, dom, 20, sub)
        files += [[b'z'] + f for f in more]
        dirs.append([b'z'])
        dirs += [[b'z'] + d for d in sub]
    fs.any_order = order
    ext = None
    if exts is not None:
        ext = '|'.join([e if isinstance(e, str) else A.string('e%d' % i, e, edom) for i, e in enumerate(exts)])
    es = ext.split('|') if ext is not None else None
    if es is not None:
        es = [e.encode('utf-8') for e in es]
    want = [f for f in files if es is None or (len(es) == 1 and len(es[0]) == 0) or [e for e in es if _ends(f[-1], e)]]
    ds = dataset('/data/proj', ext, suppress=not caching)
    if partial:
        # an earlier scan that was given up
        for f in ds.get_all_files():
            break
    got = [f for f in ds.get_all_files()]
    A.observe(len(got))
    _same([_rel(f) for f in got], want, 'selected files')
    A.check(ds.files_need_to_be_saved() == (not caching), 'the list is saved')
    again = [f for f in ds.get_all_files()]
    if not order or caching:
        A.check(len(again) == len(got), 'the list read back has another length')
        for a, b in zip(got, again):
            A.check_eq(b, a, 'the list read back')
    else:
        _same([_rel(f) for f in again], want, 'selected files')
    ds2 = dataset('/data/proj', ext)
    _same([_rel(f) for f in ds2.get_all_files()], want, 'selected files of another run')
    _same([_rel(f) for f in ds2.get_all_files(return_dirs_instead_of_regular_files=True)], dirs, 'directories')


def mapped(shape, dom, out, single=False):
    """original -> parsed -> preprocessed"""
    fs = vfs.fresh(now=1600000000)
    if single:
        nm = 'a' + A.string('n', 2, dom) if dom else 'a.java'
        path = '/data/' + nm
        fs.put(path, 'x')
        files = [[nm.encode('utf-8')]]
    else:
        path = '/data/proj'
        fs.makedirs(path)
        files, _ = tree(fs, b'/data/proj', shape, dom)
    ds = dataset(path, None, out=out)
    o, p, r = ds.original, ds.parsed, ds.preprocessed
    orig = [f for f in o.file_iterator()]
    A.observe(len(orig))
    A.check(len(orig) == len(files), 'number of files')
    base = '/data' if single else path
    _same([_under(f, base) for f in orig], files, 'original files')
    par = [o.get_new_file_name(f, p) for f in orig]
    pre = [p.get_new_file_name(f, r) for f in par]
    for src, a, b in zip(orig, par, pre):
        s = _under(src, base)
        x = _under(a, p.path)
        y = _under(b, r.path)
        # the name of the original with the extension of the stage
        _check_ext(s, x, b'.parsed')
        _check_ext(s, y, b'.prep')
    _distinct([_under(x, p.path) for x in par], 'two files are parsed to the same name')
    _distinct([_under(x, r.path) for x in pre], 'two files are preprocessed to the same name')
    # the iterators of the stages find the same files
    _same([_under(f, p.path) for f in p.file_iterator()], [_under(x, p.path) for x in par], 'parsed files')
    _same([_under(f, r.path) for f in r.file_iterator()], [_under(x, r.path) for x in pre], 'preprocessed files')
    for a, src in zip(pre, orig):
        back = r.get_new_file_name(a, o)
        if not single:
            _same([_under(back, base)], [_under(src, base)], 'name of the original')


def _under(f, d):
    d = d.encode('utf-8') if isinstance(d, str) else d
    A.check(len(f) > len(d) and A.decide(f[:len(d) + 1] == d + b'/'), 'outside the directory')
    return _rel(f[len(d) + 1:])


def _check_ext(s, x, ext):
    A.check(len(s) == len(x), 'place of the output')
    for a, b in zip(s[:-1], x[:-1]):
        A.check(A.conj(len(a) == len(b), a == b), 'directory of the output')
    A.check(len(x[-1]) == len(s[-1]) + len(ext), 'name of the output')
    A.check(x[-1] == s[-1] + ext, 'name of the output')


def _distinct(xs, what):
    for i in range(len(xs)):
        for j in range(i):
            if [len(c) for c in xs[i]] == [len(c) for c in xs[j]]:
                A.check(A.neg(A.conj(*[a == b for a, b in zip(xs[i], xs[j])])), what)


def normal(lens, dom):
    f = A.bind('codeprep.pipeline.dataset', 'normalize_extension_string')
    es = [n if isinstance(n, str) else A.string('e%d' % i, n, dom) for i, n in enumerate(lens)]
    r = f('|'.join(es))
    A.observe(r)
    for e in es:
        A.check(e in r, 'an extension is lost')
    for i, e in enumerate(r):
        A.check(e in es, 'an extension appears')
        if i:
            A.check(r[i - 1] < e, 'order of the extensions')


def _chain(n, leaf):
    """n directories in one another"""
    s = leaf
    for i in range(n, 0, -1):
        s = [[b'd%d' % i, s], b'f%d.a' % i]
    return s


def _many(n):
    return [b'%d.%s' % (i, [b'java', b'py', b'c', b'a'][i % 4]) for i in range(n)]


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(name, f, bounds, **k):
        out.append((name, f, k, dict(bounds=bounds)))
    add('all-bytes', selected, 'one file with any name of 2 bytes', shape=[2], dom=NAMEC, exts=None)
    add('all-bytes-ext', selected, 'one file with any name of 3 bytes, any extension of 1 character', shape=[3], dom=NAMEC, exts=[1], edom=[(1, 46), (48, 0xD7FF)])
    add('tree', selected, 'two files and a directory with a file, names over "ab.\\\\n"', shape=[1, 2, [1, [2]]], dom='ab.\\\n', exts=None)
    add('tree-ext', selected, 'files with names of 2-4 characters over "a.b", extension of 1 character', shape=[2, [1, [3]], 4], dom='a.b', exts=[1], edom='ab.')
    add('ext2', selected, 'files with names of 3 and 4 characters, two extensions', shape=[3, 4] if q else [3, [-1, [4]]], dom='a.b', exts=[1, 2], edom='ab.')
    add('ext-real', selected, 'files with names of 5 characters, extensions "py" and "a"', shape=[5, [-1, [4]]], dom='apy.', exts=['py', 'a'])
    add('ext-empty', selected, 'no or empty extension', shape=[2], dom='a.', exts=[''])
    add('ext-dir', selected, 'directories that look like files', shape=[[3, [2]], 3], dom='a.', exts=['a'])
    add('order', selected, 'entries in any order', shape=[-3, 2, [-1, [2]]], dom='a.', exts=['a'], order=True)
    add('links', selected, 'symbolic links to files', shape=[3], dom='a.l', exts=['a'], links=2)
    add('linked', selected, 'a symbolic link to a directory with a file and a directory', shape=[3, [-1, [2]]], dom='a.l', exts=['a'], linked=[2, [1, [3]]])
    add('linked-all', selected, 'a symbolic link to a directory, no extensions', shape=[2], dom='a\\', exts=None, linked=[1, [1, [2]]], order=True)
    add('nocache', selected, 'without caching', shape=[3, [-1, [2]]], dom='a.', exts=['a'], caching=False)
    add('case', selected, 'names over "aA."', shape=[1, 2, [1, [1]], 2], dom='aA.', exts=None)
    add('case-ext', selected, 'names and extensions over "aA."', shape=[3, [-3, [3]]], dom='aA.', exts=['a'])
    add('partial', selected, 'after a scan that was given up', shape=[3, 2, -2], dom='a.', exts=None, partial=True)
    add('partial-ext', selected, 'after a scan that was given up', shape=[3, 2, -2], dom='a.', exts=['a', 'd'], partial=True)
    add('map-1', mapped, 'any name of 2 bytes', shape=[2], dom=NAMEC, out=None)
    add('map-tree', mapped, 'a tree with names of 1-3 characters', shape=[2, [1, [3, 1]], 3], dom='a.', out=None)
    add('map-out', mapped, 'another output directory', shape=[2, [1, [2]]], dom='a.', out='/data/out')
    add('map-parsed', mapped, 'names that look like results', shape=[8, 1], dom='.prsed', out='/data/out')
    add('map-deep', mapped, 'directories in directories', shape=[[1, [[2, [1]], 2]]], dom='a.', out='/data/proj2')
    add('single', mapped, 'a single file with any name of 3 characters', shape=None, dom=[(33, 46), (48, 0xD7FF)], out=None, single=True)
    add('single-out', mapped, 'a single file', shape=None, dom='a.', out='/data/out', single=True)
    many = _many(70)
    long = b'L' * 248
    longer = [(long + b'.', 2, b'.java'), long + b'x', [(b'd' * 254, 1, b''), [(b'g' * 250, 2, b''), b'y.java']]]
    exts = ['java', 'py', 'c', 'cpp', 'h', 'hpp', 'js', 'ts', 'go', 'rs', 'rb', 'kt']
    add('many', selected, '74 files in 2 directories, two names symbolic', shape=many[:40] + [2, [b'sub', many[40:] + [(b'x', 2, b''), 1]]], dom='a.b', exts=['a', 'py'])
    add('many-all', selected, '52 files, a list without extensions', shape=many[:50] + [(b'', 1, b'\\r'), (b'a', 1, b'\n')], dom='\\\n\r', exts=None)
    add('deep', selected, '20 directories in one another, the innermost file any of "a.b"', shape=_chain(20, [3, b'g.a']), dom='a.b', exts=['a', 'b.a'])
    add('long', selected, 'names of 249 to 255 bytes', shape=longer, dom='a.j', exts=['java', 'j'])
    add('exts', selected, '12 extensions and one of 1 character', shape=[b'a.' + e.encode() for e in exts] + [b'b.css', b'c.m', [b'lib', [(b'c.', 1, b''), b'java', b'.go']]], dom='chm', exts=exts + [1], edom='mhs')
    add('map-many', mapped, '52 files', shape=many[:50] + [2], dom='a.', out=None)
    add('map-far', mapped, '12 directories in one another', shape=_chain(12, [2, b'g.a']), dom='a.', out='/data/out')
    add('map-long', mapped, 'names of up to 245 bytes', shape=[(b'L' * 238, 2, b'.java'), [(b'd' * 254, 1, b''), [(b'g' * 240, 1, b'')]]], dom='a.', out='/data/out')
    add('normal-many', normal, 'lists of 24 extensions', lens=exts + exts[:10] + [1, 2], dom='chjs')
    add('normal', normal, 'lists of extensions', lens=[1, 1, 2], dom='abc')
    add('normal-any', normal, 'lists of extensions', lens=[1, 1], dom=[(1, 46), (48, 123), (125, 0xD7FF)])
    return out
