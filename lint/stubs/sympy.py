"""Model of sympy: symbols and their multiples."""


class Expr:
    pass


class Symbol(Expr):
    def __init__(self, name):
        self.name = name

    def __mul__(self, other):
        return Mul(other, self)

    def __rmul__(self, other):
        return Mul(other, self)

    def __neg__(self):
        return Mul(-1, self)


class Mul(Expr):
    def __init__(self, coeff, symbol):
        self.coeff = coeff
        self.symbol = symbol

    def as_coeff_Mul(self):
        return self.coeff, self.symbol

    def __mul__(self, other):
        return Mul(self.coeff * other, self.symbol)

    def __rmul__(self, other):
        return Mul(self.coeff * other, self.symbol)

    def __neg__(self):
        return Mul(-self.coeff, self.symbol)
