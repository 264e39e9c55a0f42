"""Value-level specification functions, the single source of the pointwise contracts.

They are written against a tiny value algebra and used twice: with floats by the
run-time contract checks (vf.rt) and with symbolic values by the deductive engine
(vf.sym), which supplies its own algebra object.
"""


class FloatAlg:
    NAN = float("nan")

    @staticmethod
    def isnan(v):
        return v != v

    @staticmethod
    def ite(c, a, b):
        return a if c else b

    @staticmethod
    def and_(*a):
        return all(a)

    @staticmethod
    def or_(*a):
        return any(a)

    @staticmethod
    def not_(a):
        return not a

    @staticmethod
    def const(v):
        return float(v)

    @staticmethod
    def add(a, b):
        return a + b

    @staticmethod
    def sub(a, b):
        return a - b

    @staticmethod
    def mul(a, b):
        return a * b

    @staticmethod
    def div(a, b):
        return a / b if b != 0 else float("nan")

    @staticmethod
    def lt(a, b):
        return a < b

    @staticmethod
    def eq(a, b):
        return a == b


def _lift2(A, a, b, body):
    return A.ite(A.or_(A.isnan(a), A.isnan(b)), A.NAN, body)


def _b(A, c):
    return A.ite(c, A.const(1), A.const(0))


def add(A, a, b):
    return _lift2(A, a, b, A.add(a, b))


def subtract(A, a, b):
    return _lift2(A, a, b, A.sub(a, b))


def multiply(A, a, b):
    return _lift2(A, a, b, A.mul(a, b))


def divide(A, a, b):
    return A.ite(A.or_(A.isnan(a), A.isnan(b), A.eq(b, A.const(0))), A.NAN, A.div(a, b))


def negate(A, a):
    return A.ite(A.isnan(a), A.NAN, A.sub(A.const(0), a))


def lt(A, a, b):
    return _lift2(A, a, b, _b(A, A.lt(a, b)))


def gt(A, a, b):
    return _lift2(A, a, b, _b(A, A.lt(b, a)))


def le(A, a, b):
    return _lift2(A, a, b, _b(A, A.not_(A.lt(b, a))))


def ge(A, a, b):
    return _lift2(A, a, b, _b(A, A.not_(A.lt(a, b))))


def eq(A, a, b):
    return _lift2(A, a, b, _b(A, A.eq(a, b)))


def ne(A, a, b):
    return _lift2(A, a, b, _b(A, A.not_(A.eq(a, b))))


def _t(A, a):
    return A.not_(A.eq(a, A.const(0)))


def logical_and(A, a, b):
    return _lift2(A, a, b, _b(A, A.and_(_t(A, a), _t(A, b))))


def logical_or(A, a, b):
    return _lift2(A, a, b, _b(A, A.or_(_t(A, a), _t(A, b))))


def logical_xor(A, a, b):
    ta, tb = _t(A, a), _t(A, b)
    return _lift2(A, a, b, _b(A, A.or_(A.and_(ta, A.not_(tb)), A.and_(A.not_(ta), tb))))


def invert(A, a):
    return A.ite(A.isnan(a), A.NAN, _b(A, A.eq(a, A.const(0))))


def make_boolean(A, a):
    return A.ite(A.isnan(a), A.NAN, _b(A, _t(A, a)))


def isna(A, a):
    return _b(A, A.isnan(a))


def notna(A, a):
    return _b(A, A.not_(A.isnan(a)))


def mask(A, a, g):
    return A.ite(A.and_(A.not_(A.isnan(g)), A.eq(g, A.const(0))), a, A.NAN)


def where(A, a, g):
    return A.ite(A.and_(A.not_(A.isnan(g)), A.not_(A.eq(g, A.const(0)))), a, A.NAN)


def fillna(A, a, g):
    return A.ite(A.isnan(a), g, a)


BINARY_ARITH = {"add": add, "subtract": subtract, "multiply": multiply, "divide": divide}
BINARY_REL = {"lt": lt, "le": le, "gt": gt, "ge": ge, "eq": eq, "ne": ne}
BINARY_LOGIC = {"logical_and": logical_and, "logical_or": logical_or, "logical_xor": logical_xor}
REFLECTED = {"radd": "add", "rsubtract": "subtract", "rmultiply": "multiply",
             "rdivide": "divide", "logical_rand": "logical_and", "logical_ror": "logical_or",
             "logical_rxor": "logical_xor"}
