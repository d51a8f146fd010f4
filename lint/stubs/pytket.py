from pytket.circuit import Circuit
