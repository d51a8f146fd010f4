"""A functor: n to two wires, s to none, p to one, q to three."""
from lambeq.backend.grammar import Box, Ty

WIDTH = {'n': ['a', 'b'], 's': [], 'p': ['c'], 'q': ['d', 'e', 'f'], 'r': ['g']}


def ob(functor, ty):
    names = WIDTH[ty.name]
    if len(names) == 1:
        return Ty(names[0])
    return Ty(objects=[Ty(x) for x in names]) if names else Ty()


def ar(functor, box):
    return Box('F' + box.name, functor(box.dom), functor(box.cod))
