"""Concolic self-test of the engine: run an operation symbolically along the path of a random concrete input
and compare with the native result.  pypy3 tools/selftest.py [N]"""
import os, sys, random, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import regex
from sx import api, engine, instrument, runtime, values
from sx.engine import Path, Stats, EngineSignal
instrument.install({'codeprep': '/repo/codeprep', 'harness': '/verif/harness'})
SRC = open(__file__).read().split('#--OPS'+'--')[1]
sym = {'__name__': 'ops_sym'}
nat = {'__name__': 'ops_nat'}
runtime.INSTR.add('ops_sym')
sym.update(instrument.env())
sym['api'] = nat['api'] = api
exec(instrument.transform(SRC, 'ops'), sym)
import importlib
# native copies of the code under test
sys.meta_path.remove(instrument.FINDER)
for m in list(sys.modules):
    if m.startswith('codeprep'):
        sym.setdefault('_mods', {})[m] = sys.modules.pop(m)
sys.path.insert(0, '/repo')
exec(compile(SRC, 'ops', 'exec'), nat)

ALPH = list('aabbABZz019_@.-+xXeEfFlL \t\n\r\'"\\/#*%') + ['\xa0', '\u3000', 'ä', 'Ä', 'ß', 'İ', 'ı', 'ſ', 'ﬁ', 'ǅ', 'Σ', 'ς', '\u0660', '\x1c', '\x85', '\u2028', '€', '𝒜', '\U0001F600', '\x00', '\x7f', '²', 'ϴ', 'K', 'ჰ', 'Ა']


TB = {}


def one(name, s, rnd):
    try:
        exp = ('ok', nat[name](s))
    except Exception as e:
        exp = ('exc', type(e).__name__)
    model = {'s[%d]' % i: ord(c) for i, c in enumerate(s)}
    st = Stats()
    p = Path((), model, st, 100000)
    p.solo = True
    engine.set_cur(p)
    api.start()
    try:
        x = api.string('s', len(s))
        r = sym[name](x)
        got = ('ok', values.evalv(r, p.env))
    except EngineSignal as e:
        return 'skip:%s %s' % (type(e).__name__, str(e)[:80])
    except Exception as e:
        got = ('exc', type(e).__name__)
        if exp[0] != 'exc':
            import traceback
            traceback.print_exc(limit=-3) if TB.setdefault(name, 0) < 2 else None
            TB[name] += 1
    finally:
        engine.set_cur(None)
    from sx.explore import _js
    if _js(exp) != _js(got):
        return 'MISMATCH %s(%s): native %s symbolic %s' % (name, ascii(s), ascii(exp), ascii(got))
    return None


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 200
    only = sys.argv[2:] 
    rnd = random.Random(int(os.environ.get('SEED', '7')))
    names = [k for k in nat if k.startswith('op_')]
    bad = 0
    skips = {}
    for name in names:
        if only and name not in only:
            continue
        b = 0
        for i in range(n):
            L = rnd.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8])
            k = rnd.choice([3, 8, len(ALPH)])
            al = rnd.sample(ALPH, k)
            s = ''.join(rnd.choice(al) for _ in range(L))
            r = one(name, s, rnd)
            if r is None:
                continue
            if r.startswith('skip'):
                skips[name + ' ' + r] = skips.get(name + ' ' + r, 0) + 1
                continue
            bad += 1
            b += 1
            if b <= 3:
                print(r)
    print('mismatches', bad)
    for k, v in sorted(skips.items()):
        print(v, k)


#--OPS--
import re, regex
from codeprep.parse.subtokens import split_identifier, split_into_words, split_string, is_number
from codeprep.util import to_literal_str, to_non_literal_str
from codeprep.bpepkg.bpe_encode import to_char_list, escape, unescape
from codeprep.noneng import replace_non_ascii_seqs


def _flat(x):
    if isinstance(x, list):
        return [_flat(y) for y in x]
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    t = type(x).__name__
    if hasattr(x, 'subtokens'):
        return [t, [_flat(y) for y in x.subtokens]]
    if hasattr(x, 'canonic_form'):
        return [t, x.canonic_form, str(x.capitalization)]
    if hasattr(x, 'val'):
        return [t, x.val]
    return t


def op_split_identifier(s):
    return _flat(split_identifier(s))


def op_split_into_words(s):
    return _flat(split_into_words(s))


def op_split_string(s):
    return _flat(split_string(s))


def op_is_number(s):
    return bool(is_number(s))


def op_literal(s):
    return to_literal_str(s)


def op_nonliteral(s):
    return to_non_literal_str(s)


def op_roundtrip(s):
    return to_non_literal_str(to_literal_str(s)) == s


def op_case(s):
    return [s.lower(), s.upper(), s.capitalize(), s.swapcase(), s.title(), s.casefold()]


def op_case2(s):
    return [s[:1].upper() + s[1:].lower(), s.isupper(), s.islower(), s.isalpha(), s.isdigit(), s.isalnum(), s.isspace(),
            s.isnumeric(), s.isdecimal(), s.istitle(), s.isidentifier(), s.isprintable()]


def op_strip(s):
    return [s.strip(), s.rstrip('\n'), s.lstrip(' a'), s.split(), s.split(' '), s.split('a', 1), s.splitlines(),
            s.splitlines(True), s.partition('b'), s.rpartition('a'), s.rsplit('b', 1)]


def op_repl(s):
    return [s.replace('a', 'bb'), s.replace('@@', '@'), s.find('ab'), s.rfind('b'), s.count('a'), s.count('ab'),
            s.startswith(('a', 'b@')), s.endswith('a'), 'ab' in s, s * 2, s[::-1], s[1:-1], s.zfill(5), s.ljust(4) + '|', s.replace('', '-')]


def op_int(s):
    return int(s)


def op_intrep(s):
    return str(int(s) + 1)


def op_tochar(s):
    return to_char_list(s)


def op_escape(s):
    return [escape(s), escape(s, True), to_char_list(escape(s, True))]


def op_nonascii(s):
    return replace_non_ascii_seqs(s, '\uf000')


def op_enc(s):
    b = s.encode('utf-8')
    return [list(b), b.decode('utf-8'), b.decode('latin-1'), str(b), list(s.encode('ascii', 'replace'))]


def op_ascii(s):
    return s.encode('ascii').decode()


def op_fmt(s):
    return [f'{s}-{s}', '%s|%s' % (s, 1), '{}:{}'.format(s, s), ''.join([s, s]), ','.join(s), str([1]) + s, f'{len(s)}']


def op_fmt2(s):
    n = sum([ord(c) for c in s]) % 1000 - 50
    m = ord(s[0]) % 24 if s else 3
    return ['{:>5}|{:<4}|{:^7}|{:*>6}|{:.2}'.format(s, s, s, s, s), '%5s|%-5s|%.2s|%r' % (s, s, s, 3), f'{n:5d}|{n:<5}|{n:03d}|{n:d}|{m:02d}|{m:02}',
            '%03d|%5d|%-5d|%d|%02d' % (n, n, n, n, m), '{0[0]}{1!r}{a}'.format([s, 1], m, a=s), '%(x)s-%(x)s' % {'x': s}, f'{s:{len(s) + 2}}',
            f'{s!s:>9}', 'x' + format(s, '>4')]


def op_dict(s):
    d = {}
    for c in s:
        d[c] = d.get(c, 0) + 1
    return [sorted(d.items()), sorted(set(s)), list(d)]


def op_cmp(s):
    return [s < 'ab', s <= 'b', s == 'ab', sorted(s), sorted(s, reverse=True), max(s) if s else None, s > '@',
            [ord(c) for c in s], ''.join(chr(ord(c) // 2 + 1) for c in s)]


RX = [r'[a-z]+', r'\w+', r'\s*(\S+)\s*', r'(a|ab)(c|bcd)*', r'[^a-zA-Z0-9_]', r'^a.*b$', r'(?:x|X)[0-9a-fA-F]+', r'\d+(?:_\d+)*',
      r'a*?b', r'(a+)(b?)\1', r'\b\w', r'(?<=a)b', r'(?<!a)b', r'a(?=b)', r'a(?!b)', r'[\s_]+', r'.', r'$', r'^', r'(?i)abß', r'(?:)', r'a{2}', r'a{1,2}b', r'([A-Z][a-z]*)',
      r'_-_', r'(.*)-(\d+)$', r'\Z', r'[^\x00-\x7f]+']


def op_re_find(s):
    return [[re.findall(r, s), bool(re.match(r, s)), bool(re.fullmatch(r, s)), (re.search(r, s).span() if re.search(r, s) else None)] for r in RX]


def op_re_sub(s):
    return [[re.sub(r, '<>', s), re.split(r, s), re.subn(r, lambda m: '[' + m.group(0) + ']', s, 2)[0]] for r in RX]


RX2 = [r'\p{Lu}\p{Ll}*', r'[[:punct:]]+', r'(?P<x>\p{L}+)', r'\p{N}', r'(?<=[a-z])(?=[A-Z])', r'\s', r'\w', r'_|(?<=\p{Ll})(?=\p{Lu})', r'[\p{Lu}_]+', r'[^\W_]+']


def op_regex(s):
    return [[regex.findall(r, s), regex.sub(r, '<>', s), bool(regex.fullmatch(r, s)), [m.span() for m in regex.finditer(r, s)]] for r in RX2]


def op_regex_split(s):
    return [regex.split(r, s, flags=regex.VERSION1) if True else None for r in RX2]


RX3 = [r'((ab))', r'(a)(b?)', r'(a)|(b)', r'((a)(b))', r'(?P<x>x)?(?P<a>a)', r'(?P<o>a(?P<i>b)?)', r'(?P<w>\w+|[^ ])|(?P<s>( )+)']


def op_lastgroup(s):
    return [[[m.lastindex, m.lastgroup] for m in mod.finditer(r, s)] for r in RX3 for mod in (re, regex)]


VX = r"""(?:
    _      # under [score]
  | [0-9]+ | [[:upper:]]?[[:lower:]]+
  | [^\ #a] \# ?
)"""


def op_verbose(s):
    return [regex.findall(VX, s, regex.VERBOSE), regex.compile(VX, regex.X).findall(s), [m.span() for m in re.finditer(r' a [b #]  # c', s, re.X)],
            [m.group() for m in re.compile(' [ ]a\\ ? b', re.VERBOSE).finditer(s)]]


def op_strmeth(s):
    eq = '\t'.__eq__
    return [eq(s), 'a'.__ne__(s), 'ab'.__contains__(s), 'xab'.startswith(s), ','.join(map('<{}>'.format, s)), list(filter('ab'.__contains__, s)),
            [str.upper(s), str.isalpha(s)], 'abc'.__lt__(s), ('a' + s).__add__(s), s.__len__(), s.__getitem__(0) if s else None]
#--OPS--


if __name__ == '__main__':
    main()
