"""Model of torch."""

# 2 * pi * phase is the phase itself
pi = 0.5


def tensor(x, **kw):
    return x
