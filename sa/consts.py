"""Integer constants in the MIR of given source files. A size at which the code can
behave differently from its neighbours is named by a constant in it, so rules that
enumerate collection sizes add the neighbourhood of every such constant."""

_C = {}


def _walk(d, out):
    if isinstance(d, list):
        if len(d) == 3 and d[0] == "int" and isinstance(d[1], int):
            out.add(d[1])
            return
        for x in d:
            if isinstance(x, (list, dict)):
                _walk(x, out)
    elif isinstance(d, dict):
        for x in d.values():
            if isinstance(x, (list, dict)):
                _walk(x, out)


def of_file(P, suffix):
    k = (id(P), suffix)
    if k not in _C:
        out = set()
        for f in P.fns:
            if f.local and f.body and f.file and f.file.endswith(suffix):
                _walk(f.d, out)
        _C[k] = out
    return _C[k]


def sizes(P, suffix, lo, hi):
    """sizes in (lo, hi] next to a constant of the file"""
    return sorted({n for c in of_file(P, suffix) for n in (c - 1, c, c + 1) if lo < n <= hi})
