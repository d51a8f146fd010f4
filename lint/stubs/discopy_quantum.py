"""A model of discopy.quantum."""
from discopy.quantum import gates
from discopy.quantum.gates import (Bra, Box, Circuit, Controlled, Discard, Encode, H, Id, Ket, Measure, MixedState, Rx, Ry, Rz,
                                   S, SWAP, Swap, T, Ty, X, Y, Z, bit, qubit)
