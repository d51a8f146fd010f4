"""What the command line is made from: diagrams and trees that remember what was done to them, and files."""


def log(kind, *what):
    return None


def text_of(steps, how):
    return ''


class Diag:
    def __init__(self, steps, is_pregroup):
        self.steps = steps
        self.is_pregroup = is_pregroup

    def then(self, step, is_pregroup):
        return Diag(self.steps + [step], is_pregroup)

    def normal_form(self):
        return self.then(('normal_form',), self.is_pregroup)

    def pregroup_normal_form(self):
        return self.then(('pregroup_normal_form',), True)

    def draw(self, draw_as_pregroup=True, **kwargs):
        log('draw', self.steps, kwargs)

    def render_as_str(self, use_ascii=False):
        return text_of(self.steps, use_ascii)


class Tree:
    def __init__(self, steps):
        self.steps = steps

    def without_trivial_unary_rules(self):
        return Tree(self.steps + [('without_trivial_unary_rules',)])

    def to_json(self):
        return {'steps': self.steps}

    def deriv(self, word_spacing=2, use_slashes=True, use_ascii=False, vertical=False):
        return text_of(self.steps, use_ascii)


class File:
    def __init__(self, path, mode):
        self.path = path
        self.mode = mode

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return None

    def close(self):
        return None

    def flush(self):
        return None

    def read(self):
        return log('read', self.path)

    def write(self, text):
        log('write', self.path, self.mode, text)

    def writelines(self, lines):
        for text in lines:
            log('write', self.path, self.mode, text)


class Path:
    def __init__(self, path):
        self.path = path.path if isinstance(path, Path) else path

    def mkdir(self, mode=511, parents=False, exist_ok=False):
        log('mkdir', self.path, parents, exist_ok)

    def __truediv__(self, other):
        return Path(join(self.path, other))

    def __str__(self):
        return self.path

    def open(self, mode='r', **kwargs):
        return open(self.path, mode)

    def read_text(self, **kwargs):
        with open(self.path, 'r') as f:
            return f.read()

    def write_text(self, text, **kwargs):
        with open(self.path, 'w') as f:
            f.write(text)


def join(a, b):
    return ''
