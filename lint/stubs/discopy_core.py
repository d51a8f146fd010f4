"""A model of the parts of DisCoPy that lambeq converts to and from."""


class Diagram:
    def __init__(self, dom, cod, inside):
        self.dom = dom
        self.cod = cod
        self.inside = inside

    def layers(self):
        return self.inside

    def __iter__(self):
        for x in self.layers():
            yield x

    def __rshift__(self, other):
        if self.cod != other.dom:
            raise ValueError('does not compose')
        return type_of(self)(self.dom, other.cod, [*self.layers(), *other.layers()])

    def __matmul__(self, other):
        if is_ty(other):
            return type_of(self)(self.dom @ other, self.cod @ other,
                                 [(a, b, c @ other) for a, b, c in self.layers()])
        raise ValueError('tensor of diagrams')

    def prefixed(self, ty):
        return type_of(self)(ty @ self.dom, ty @ self.cod,
                             [(ty @ a, b, c) for a, b, c in self.layers()])


class BaseTy:
    def __init__(self, *inside):
        self.inside = tuple(inside)

    def make(self, inside):
        return type(self)(*inside)

    def __iter__(self):
        for x in self.inside:
            yield self.make((x,))

    def __len__(self):
        return len(self.inside)

    def __eq__(self, other):
        return is_ty(other) and self.inside == other.inside

    def __matmul__(self, other):
        if is_ty(other):
            return self.make(self.inside + other.inside)
        return other.prefixed(self)


def is_ty(x):
    return isinstance(x, BaseTy)


def type_of(d):
    return d.diagram_type()


class BaseBox(Diagram):
    def __init__(self, name, dom, cod, data=None, is_dagger=False, z=0):
        self.name = name
        self.dom = dom
        self.cod = cod
        self.data = data
        self.is_dagger = is_dagger
        self.z = z

    def layers(self):
        return [(self.dom.make(()), self, self.dom.make(()))]
