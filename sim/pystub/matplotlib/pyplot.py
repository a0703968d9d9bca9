"""Recording stand-in for matplotlib.pyplot.

savefig() writes every call made since figure() to the figure's path, so that the
plotted data become an observable output file of the run.  The file is written in
one piece, unbuffered, with the interpreter's own file I/O (which is simulated).
"""
_calls = []


def _fmt(v):
    if isinstance(v, float):
        return repr(v)
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(_fmt(x) for x in v) + "]"
    return repr(v)


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)

    def record(*a, **k):
        _calls.append("%s(%s)" % (name, ", ".join([_fmt(x) for x in a] + ["%s=%s" % (q, _fmt(k[q])) for q in sorted(k)])))
    return record


def figure(*a, **k):
    del _calls[:]
    _calls.append("figure")


def savefig(path, **k):
    _calls.append("savefig(%s)" % ", ".join("%s=%s" % (q, _fmt(k[q])) for q in sorted(k)))
    data = ("\n".join(_calls) + "\n").encode()
    with open(path, "wb", buffering=0) as f:
        n = 0
        while n < len(data):
            n += f.write(data[n:])


class _Style:
    @staticmethod
    def use(*a):
        _calls.append("style.use")


style = _Style()
