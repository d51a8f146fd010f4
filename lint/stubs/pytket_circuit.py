"""Model of pytket.circuit: what lambeq uses of it."""


class Unit:
    def __init__(self, index):
        self.index = [index]

    def __eq__(self, other):
        return isinstance(other, Unit) and self.kind == other.kind and self.index[0] == other.index[0]

    def __hash__(self):
        return hash(self.index[0])


class Qubit(Unit):
    kind = 'q'


class Bit(Unit):
    kind = 'c'


class OpKind:
    def __init__(self, name, n_params, inverse):
        self.name = name
        self.n_params = n_params
        self.inverse = inverse

    def __eq__(self, other):
        return self.name == other.name

    def __hash__(self):
        return hash(self.name)


class OpType:
    H = OpKind('H', 0, 'H')
    X = OpKind('X', 0, 'X')
    Y = OpKind('Y', 0, 'Y')
    Z = OpKind('Z', 0, 'Z')
    S = OpKind('S', 0, 'Sdg')
    Sdg = OpKind('Sdg', 0, 'S')
    T = OpKind('T', 0, 'Tdg')
    Tdg = OpKind('Tdg', 0, 'T')
    V = OpKind('V', 0, 'Vdg')
    Vdg = OpKind('Vdg', 0, 'V')
    SX = OpKind('SX', 0, 'SXdg')
    SXdg = OpKind('SXdg', 0, 'SX')
    CX = OpKind('CX', 0, 'CX')
    CY = OpKind('CY', 0, 'CY')
    CZ = OpKind('CZ', 0, 'CZ')
    CH = OpKind('CH', 0, 'CH')
    CS = OpKind('CS', 0, 'CSdg')
    CSdg = OpKind('CSdg', 0, 'CS')
    CCX = OpKind('CCX', 0, 'CCX')
    SWAP = OpKind('SWAP', 0, 'SWAP')
    CSWAP = OpKind('CSWAP', 0, 'CSWAP')
    Rx = OpKind('Rx', 1, '-')
    Ry = OpKind('Ry', 1, '-')
    Rz = OpKind('Rz', 1, '-')
    U1 = OpKind('U1', 1, '-')
    CRx = OpKind('CRx', 1, '-')
    CRy = OpKind('CRy', 1, '-')
    CRz = OpKind('CRz', 1, '-')
    CU1 = OpKind('CU1', 1, '-')
    Measure = OpKind('Measure', 0, None)


class Op:
    def __init__(self, type, params):
        self.type = type
        self.params = params

    @staticmethod
    def create(type, *params):
        if params and isinstance(params[0], list):
            params = params[0]
        if len(params) != type.n_params:
            raise RuntimeError('Gate has an invalid number of parameters')
        return Op(type, list(params))

    @property
    def dagger(self):
        if self.type.inverse == '-':
            return Op(self.type, [-x for x in self.params])
        return Op(getattr(OpType, self.type.inverse), self.params)


class Command:
    def __init__(self, op, args):
        self.op = op
        self.args = args

    @property
    def qubits(self):
        return [x for x in self.args if x.kind == 'q']

    @property
    def bits(self):
        return [x for x in self.args if x.kind == 'c']


class Circuit:
    def __init__(self, n_qubits=0, n_bits=0, name=None):
        self.commands = []
        self._nq = n_qubits
        self._nb = n_bits

    @property
    def n_qubits(self):
        return self._nq

    @property
    def qubits(self):
        return [Qubit(i) for i in range(self._nq)]

    @property
    def bits(self):
        return [Bit(i) for i in range(self._nb)]

    @property
    def n_gates(self):
        return len(self.commands)

    def get_commands(self):
        return list(self.commands)

    def __iter__(self):
        return iter(list(self.commands))

    def add_gate(self, op, *args):
        if isinstance(op, OpKind):
            if len(args) == 2:
                op = Op.create(op, *(args[0] if isinstance(args[0], list) else [args[0]]))
            else:
                op = Op.create(op)
        units = args[-1]
        for q in units:
            if q < 0 or q >= self._nq:
                raise RuntimeError('no such qubit')
        if len({*units}) != len(units):
            raise RuntimeError('the same qubit twice')
        self.commands.append(Command(op, [Qubit(q) for q in units]))
        return self

    def Measure(self, q, b):
        if q < 0 or q >= self._nq or b < 0 or b >= self._nb:
            raise RuntimeError('no such unit')
        self.commands.append(Command(Op(OpType.Measure, []), [Qubit(q), Bit(b)]))
        return self

    def H(self, a):
        return self.add_gate(OpType.H, [a])

    def X(self, a):
        return self.add_gate(OpType.X, [a])

    def Y(self, a):
        return self.add_gate(OpType.Y, [a])

    def Z(self, a):
        return self.add_gate(OpType.Z, [a])

    def S(self, a):
        return self.add_gate(OpType.S, [a])

    def Sdg(self, a):
        return self.add_gate(OpType.Sdg, [a])

    def T(self, a):
        return self.add_gate(OpType.T, [a])

    def Tdg(self, a):
        return self.add_gate(OpType.Tdg, [a])

    def V(self, a):
        return self.add_gate(OpType.V, [a])

    def Vdg(self, a):
        return self.add_gate(OpType.Vdg, [a])

    def SX(self, a):
        return self.add_gate(OpType.SX, [a])

    def SXdg(self, a):
        return self.add_gate(OpType.SXdg, [a])

    def CX(self, a, b):
        return self.add_gate(OpType.CX, [a, b])

    def CY(self, a, b):
        return self.add_gate(OpType.CY, [a, b])

    def CZ(self, a, b):
        return self.add_gate(OpType.CZ, [a, b])

    def CH(self, a, b):
        return self.add_gate(OpType.CH, [a, b])

    def CS(self, a, b):
        return self.add_gate(OpType.CS, [a, b])

    def CSdg(self, a, b):
        return self.add_gate(OpType.CSdg, [a, b])

    def CCX(self, a, b, c):
        return self.add_gate(OpType.CCX, [a, b, c])

    def SWAP(self, a, b):
        return self.add_gate(OpType.SWAP, [a, b])

    def CSWAP(self, a, b, c):
        return self.add_gate(OpType.CSWAP, [a, b, c])

    def Rx(self, angle, a):
        return self.add_gate(OpType.Rx, [angle], [a])

    def Ry(self, angle, a):
        return self.add_gate(OpType.Ry, [angle], [a])

    def Rz(self, angle, a):
        return self.add_gate(OpType.Rz, [angle], [a])

    def U1(self, angle, a):
        return self.add_gate(OpType.U1, [angle], [a])

    def CRx(self, angle, a, b):
        return self.add_gate(OpType.CRx, [angle], [a, b])

    def CRy(self, angle, a, b):
        return self.add_gate(OpType.CRy, [angle], [a, b])

    def CRz(self, angle, a, b):
        return self.add_gate(OpType.CRz, [angle], [a, b])

    def CU1(self, angle, a, b):
        return self.add_gate(OpType.CU1, [angle], [a, b])
