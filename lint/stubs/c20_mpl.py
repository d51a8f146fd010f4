"""What the drawing code uses of matplotlib, remembered instead of drawn."""


def rec(kind, *what):
    return None


class Axes:
    def text(self, x, y, s, **kwargs):
        rec('text', x, y, s, kwargs)

    def scatter(self, x, y, **kwargs):
        rec('scatter', x, y, kwargs)

    def add_patch(self, patch):
        rec('patch', patch.vertices, patch.codes, patch.style)

    def arrow(self, x, y, dx, dy, **kwargs):
        rec('arrow', x, y, dx, dy, kwargs)

    def plot(self, xs, ys, **kwargs):
        rec('plot', xs, ys, kwargs)

    def set_aspect(self, aspect):
        rec('aspect', aspect)

    def set_xlim(self, *lim):
        rec('xlim', lim)

    def set_ylim(self, *lim):
        rec('ylim', lim)

    def axis(self, *args):
        return None

    def margins(self, *args):
        rec('margins', args)


class Figure:
    def savefig(self, path, **kwargs):
        rec('save', path)


def subplots(*args, **kwargs):
    rec('figure', kwargs)
    return Figure(), Axes()


def margins(*args):
    rec('margins', args)


def subplots_adjust(**kwargs):
    return None


def axis(*args):
    return None


def savefig(path, **kwargs):
    rec('save', path)


def show(*args, **kwargs):
    rec('show')


def close(*args):
    return None


def gca():
    return Axes()


class Path:
    STOP = 0
    MOVETO = 1
    LINETO = 2
    CURVE3 = 3
    CURVE4 = 4
    CLOSEPOLY = 79

    def __init__(self, vertices, codes=None, closed=False):
        if codes is not None and len(codes) != len(vertices):
            raise ValueError("'codes' must be a 1D list or array with the same length of 'vertices'")
        self.vertices = vertices
        self.codes = codes


class PathPatch:
    def __init__(self, path, **kwargs):
        self.vertices = path.vertices
        self.codes = path.codes
        self.style = kwargs


class Polygon:
    def __init__(self, xy, **kwargs):
        self.vertices = xy
        self.codes = None
        self.style = kwargs


class File:
    def __init__(self, path, mode):
        self.path = path
        self.mode = mode

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return None

    def write(self, text):
        rec('write', self.path, text)

    def writelines(self, lines):
        rec('write', self.path, ''.join(lines))

    def close(self):
        return None
