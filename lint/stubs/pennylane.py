"""Model of pennylane: operators are known by name, calling one puts it on the tape."""

TAPE = []


class Operator:
    def __init__(self, name, n_params, n_wires, inverted):
        self.name = name
        self.n_params = n_params
        self.n_wires = n_wires
        self.inverted = inverted

    def __call__(self, *params, wires):
        if len(params) != self.n_params:
            raise ValueError('wrong number of parameters')
        if len(wires) != self.n_wires:
            raise ValueError('wrong number of wires')
        TAPE.append((self.name, self.inverted, list(params), list(wires)))


def adjoint(op, lazy=True):
    return Operator(op.name, op.n_params, op.n_wires, not op.inverted)


Hadamard = Operator('H', 0, 1, False)
PauliX = Operator('X', 0, 1, False)
X = PauliX
PauliY = Operator('Y', 0, 1, False)
Y = PauliY
PauliZ = Operator('Z', 0, 1, False)
Z = PauliZ
S = Operator('S', 0, 1, False)
T = Operator('T', 0, 1, False)
RX = Operator('Rx', 1, 1, False)
RY = Operator('Ry', 1, 1, False)
RZ = Operator('Rz', 1, 1, False)
CNOT = Operator('CX', 0, 2, False)
CY = Operator('CY', 0, 2, False)
CZ = Operator('CZ', 0, 2, False)
CH = Operator('CH', 0, 2, False)
CRX = Operator('CRx', 1, 2, False)
CRY = Operator('CRy', 1, 2, False)
CRZ = Operator('CRz', 1, 2, False)
SWAP = Operator('SWAP', 0, 2, False)
Toffoli = Operator('CCX', 0, 3, False)
CCZ = Operator('CCZ', 0, 3, False)


class Device:
    def __init__(self, name, wires, **kw):
        self.name = name
        self.wires = wires


def device(name, wires=None, **kw):
    return Device(name, wires, **kw)


def qnode(device, interface=None, diff_method=None):
    def decorator(f):
        return f
    return decorator


def state():
    return ('state',)


def probs(wires=None):
    return ('probs', list(wires))


def density_matrix(wires):
    return ('density_matrix', list(wires))


class operation:
    Operation = Operator


Identity = Operator('noop', 0, 1, False)
U1 = Operator('U1', 1, 1, False)


def ctrl(op, control=None):
    raise NotImplementedError
