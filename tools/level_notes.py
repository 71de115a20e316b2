DEFAULT = ('Within the bounds stated per job in the evidence (lengths, counts, alphabets), every execution path of the real code was '
           'enumerated and z3 decided each branch and assertion for all inputs of the path. Trusted: the instrumenting interpreter '
           '(validated on every run by replaying sampled paths natively), z3, PyPy. Nothing is claimed outside the bounds.')
_V = (' File system, clock, process pool and queues are an in-memory stand-in written against their documented contract.')
VFS = set('C06 C07 C08 C16 C17 C19 C20 C21 C22 C23 C24 C25 C26 C28 C31 C32 C33 C34'.split())
NOTES = {k: DEFAULT + _V for k in VFS}
NA = {}
