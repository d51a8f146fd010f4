"""A model of discopy.quantum.gates."""
from discopy.core import BaseBox, BaseTy
from discopy.core import Diagram as CoreDiagram


class Ty(BaseTy):
    """Of bits and qubits."""

    @property
    def name(self):
        return self.inside[0]

    @property
    def z(self):
        return 0

    @property
    def l(self):
        return Ty(*reversed(self.inside))

    @property
    def r(self):
        return Ty(*reversed(self.inside))


bit = Ty('bit')
qubit = Ty('qubit')


class Circuit(CoreDiagram):
    def diagram_type(self):
        return Circuit


class Box(BaseBox, Circuit):
    def dagger(self):
        if self.is_dagger is None:
            return self
        return Box(self.name, self.cod, self.dom, self.data, not self.is_dagger, self.z)

    def rotate(self, left=False):
        if self.z is None:
            return self
        return Box(self.name, self.cod.r, self.dom.r, self.data, self.is_dagger, (self.z + 1) % 2)

    @property
    def l(self):
        return self.rotate(left=True)

    @property
    def r(self):
        return self.rotate(left=False)

    def __eq__(self, other):
        return isinstance(other, Box) and (self.name, self.data, self.is_dagger, self.z) == (other.name, other.data, other.is_dagger, other.z)

    def __hash__(self):
        return hash(self.name)


class Swap(Box):
    def __init__(self, left, right):
        self.left = left
        self.right = right
        self.name = 'SWAP'
        self.dom = left @ right
        self.cod = right @ left
        self.data = None
        self.is_dagger = False
        self.z = 0

    def dagger(self):
        return Swap(self.right, self.left)

    def rotate(self, left=False):
        return Swap(self.right, self.left)


class SelfConjugate(Box):
    def rotate(self, left=False):
        return self.dagger()


class Discard(SelfConjugate):
    def __init__(self, n=1):
        self.name = 'Discard'
        self.dom = qubit
        self.cod = Ty()
        self.data = None
        self.is_dagger = False
        self.z = 0

    def dagger(self):
        return MixedState()


class MixedState(SelfConjugate):
    def __init__(self, n=1):
        self.name = 'MixedState'
        self.dom = Ty()
        self.cod = qubit
        self.data = None
        self.is_dagger = False
        self.z = 0

    def dagger(self):
        return Discard()


class Measure(SelfConjugate):
    def __init__(self, n=1, destructive=True, override_bits=False):
        self.name = 'Measure'
        self.dom = qubit
        self.cod = bit
        self.data = None
        self.is_dagger = False
        self.z = 0
        self.destructive = destructive

    def dagger(self):
        return Encode()


class Encode(SelfConjugate):
    def __init__(self, n=1):
        self.name = 'Encode'
        self.dom = bit
        self.cod = qubit
        self.data = None
        self.is_dagger = False
        self.z = 0

    def dagger(self):
        return Measure()


class Ket(SelfConjugate):
    def __init__(self, *bits):
        self.bitstring = list(bits)
        self.name = 'Ket'
        self.dom = Ty()
        self.cod = Ty(*['qubit' for _ in bits])
        self.data = None
        self.is_dagger = False
        self.z = 0

    def dagger(self):
        return Bra(*self.bitstring)


class Bra(SelfConjugate):
    def __init__(self, *bits):
        self.bitstring = list(bits)
        self.name = 'Bra'
        self.dom = Ty(*['qubit' for _ in bits])
        self.cod = Ty()
        self.data = None
        self.is_dagger = False
        self.z = 0

    def dagger(self):
        return Ket(*self.bitstring)


class Controlled(Box):
    def __init__(self, controlled, distance=1):
        self.controlled = controlled
        self.distance = distance
        self.name = 'Controlled'
        self.dom = Ty(*['qubit' for _ in range(len(controlled.dom) + abs(distance))])
        self.cod = self.dom
        self.data = controlled.data
        self.is_dagger = False
        self.z = 0

    def dagger(self):
        return Controlled(self.controlled.dagger(), self.distance)

    def rotate(self, left=False):
        return Controlled(self.controlled.rotate(), -self.distance)


class Rotation(Box):
    def __init__(self, phase):
        self.name = 'rotation'
        self.dom = qubit
        self.cod = qubit
        self.data = phase
        self.is_dagger = False
        self.z = 0

    @property
    def phase(self):
        return self.data

    def dagger(self):
        return type(self)(-self.data)


class Rx(Rotation):
    def rotate(self, left=False):
        return self


class Ry(Rotation):
    def rotate(self, left=False):
        return self.dagger()


class Rz(Rotation):
    def rotate(self, left=False):
        return self


class Scalar(Box):
    def __init__(self, data):
        self.name = 'scalar'
        self.dom = Ty()
        self.cod = Ty()
        self.data = data
        self.is_dagger = False
        self.z = None

    def dagger(self):
        return Scalar(self.data.conjugate())


class Sqrt(Scalar):
    def dagger(self):
        return self


SWAP = Swap(qubit, qubit)
H = Box('H', qubit, qubit, is_dagger=None, z=None)
S = Box('S', qubit, qubit)
T = Box('T', qubit, qubit)
X = Box('X', qubit, qubit, is_dagger=None, z=None)
Y = Box('Y', qubit, qubit, is_dagger=None)
Z = Box('Z', qubit, qubit, is_dagger=None, z=None)


def Id(ty):
    return Circuit(ty, ty, [])
