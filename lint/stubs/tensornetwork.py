"""A model of the part of tensornetwork that lambeq builds networks with."""


class Edge:
    def __init__(self, node, axis, dim):
        self.node = node
        self.axis = axis
        self.dim = dim
        self.other = None


class BaseNode:
    def start(self, dims):
        self.edges = [Edge(self, i, d) for i, d in enumerate(dims)]

    def __getitem__(self, key):
        return self.edges[key]


class Node(BaseNode):
    def __init__(self, tensor, name=None, axis_names=None, backend=None):
        self.tensor = tensor
        self.copy = False
        self.start(tensor.shape)


class CopyNode(BaseNode):
    def __init__(self, rank, dimension, name=None, axis_names=None, backend=None, dtype=None):
        self.copy = True
        self.start([dimension for _ in range(rank)])


def connect(edge1, edge2, name=None):
    if edge1.other is not None or edge2.other is not None:
        raise ValueError('an edge is not dangling')
    if edge1 is edge2:
        raise ValueError('an edge is connected to itself')
    if edge1.dim != edge2.dim:
        raise ValueError('cannot connect edges of unequal dimension')
    edge1.other = edge2
    edge2.other = edge1
    return edge1


class Contracted:
    def __init__(self, nodes, edges):
        self.nodes = nodes
        self.edges = edges

    @property
    def tensor(self):
        return (self.nodes, self.edges)


class contractors:
    @staticmethod
    def auto(nodes, output_edge_order=None, memory_limit=None, ignore_edge_order=False):
        return Contracted(nodes, output_edge_order)
