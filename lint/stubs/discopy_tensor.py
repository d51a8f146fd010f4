"""A model of discopy.tensor."""
from discopy.core import BaseBox, BaseTy
from discopy.core import Diagram as CoreDiagram


class Dim(BaseTy):
    def __init__(self, *inside):
        self.inside = tuple([x for x in inside if x != 1])

    @property
    def l(self):
        return Dim(*reversed(self.inside))

    @property
    def r(self):
        return Dim(*reversed(self.inside))


class Diagram(CoreDiagram):
    def diagram_type(self):
        return Diagram


class Box(BaseBox, Diagram):
    def dagger(self):
        return Box(self.name, self.cod, self.dom, self.data, not self.is_dagger, self.z)

    @property
    def l(self):
        return Box(self.name, self.cod.l, self.dom.l, self.data, self.is_dagger, self.z - 1)

    @property
    def r(self):
        return Box(self.name, self.cod.r, self.dom.r, self.data, self.is_dagger, self.z + 1)


class Cup(Box):
    def __init__(self, left, right):
        if not (left.r == right or left == right.r):
            raise ValueError('not adjoint')
        self.left = left
        self.right = right
        self.name = 'Cup'
        self.dom = left @ right
        self.cod = Dim()
        self.data = None
        self.is_dagger = False
        self.z = 0

    def dagger(self):
        return Cap(self.left, self.right)


class Cap(Box):
    def __init__(self, left, right):
        if not (left.r == right or left == right.r):
            raise ValueError('not adjoint')
        self.left = left
        self.right = right
        self.name = 'Cap'
        self.cod = left @ right
        self.dom = Dim()
        self.data = None
        self.is_dagger = False
        self.z = 0

    def dagger(self):
        return Cup(self.left, self.right)


class Swap(Box):
    def __init__(self, left, right):
        self.left = left
        self.right = right
        self.name = 'Swap'
        self.dom = left @ right
        self.cod = right @ left
        self.data = None
        self.is_dagger = False
        self.z = 0

    def dagger(self):
        return Swap(self.right, self.left)


class Spider(Box):
    def __init__(self, n_legs_in, n_legs_out, typ):
        self.typ = typ
        self.name = 'Spider'
        self.dom = Dim(*[x for _ in range(n_legs_in) for x in typ.inside])
        self.cod = Dim(*[x for _ in range(n_legs_out) for x in typ.inside])
        self.data = None
        self.is_dagger = False
        self.z = 0

    def dagger(self):
        return Spider(len(self.cod), len(self.dom), self.typ)


def Id(ty):
    return Diagram(ty, ty, [])
