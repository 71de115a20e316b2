"""Reference semantics used as oracles (written from the properties, not from the code)."""
from sx import api as A


def apply_merge(pair, syms):
    """merge all non-overlapping occurrences of pair, left to right"""
    out = []
    i = 0
    while i < len(syms):
        if i + 1 < len(syms) and A.decide(A.conj(syms[i] == pair[0], syms[i + 1] == pair[1])):
            out.append(syms[i] + syms[i + 1])
            i += 2
        else:
            out.append(syms[i])
            i += 1
    return out


def pair_in(pair, pairs):
    """index of the first equal pair or -1 (forks)"""
    for i, p in enumerate(pairs):
        if A.decide(A.conj(p[0] == pair[0], p[1] == pair[1])):
            return i
    return -1


def encode_ref(syms, pairs):
    """apply merges in order of learning until none applies"""
    while True:
        best = -1
        for i in range(len(syms) - 1):
            k = pair_in((syms[i], syms[i + 1]), pairs)
            if k >= 0 and (best < 0 or k < best):
                best = k
        if best < 0:
            return syms
        syms = apply_merge(pairs[best], syms)


def count_pairs(words):
    """words: list of (symbols, freq) -> association list [(pair, total)]"""
    out = []
    for syms, f in words:
        for i in range(len(syms) - 1):
            p = (syms[i], syms[i + 1])
            for e in out:
                if A.decide(A.conj(e[0][0] == p[0], e[0][1] == p[1])):
                    e[1] = e[1] + f
                    break
            else:
                out.append([p, f])
    return out
