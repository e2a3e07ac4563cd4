"""Operands of types the library does not know, for C34"""

BINARY = "add sub mul truediv floordiv mod divmod pow lshift rshift and or xor matmul".split()
COMPARE = {"eq": "eq", "ne": "ne", "lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}


class Boom(Exception):
    pass


class _Named:
    def __repr__(self):
        return f"{type(self).__name__}()"

    def __hash__(self):
        return 7


class Decides(_Named):
    "handles every operation"


class Declines(_Named):
    "has all the methods, none of which handles the operand"


class Raises(_Named):
    "every method fails"


class RightOnly(_Named):
    "handles operations as the right operand only"


class Plain(_Named):
    "has none of the methods"


class Duck:
    "looks like a value of the library, but isn't one"

    def __init__(self, v):
        self.v = v

    def __getattr__(self, name):
        if name == "v" or name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.v, name)

    def __repr__(self):
        from .vals import lit

        return f"Duck({lit(self.v)})"

    def __hash__(self):
        return hash(self.v)


class IntSub(int):
    def __repr__(self):
        return f"IntSub({int(self)})"


class FloatSub(float):
    def __repr__(self):
        return f"FloatSub({float(self)})"


def _methods():
    for n in [*COMPARE, *BINARY, *("r" + b for b in BINARY)]:

        def decides(self, other, n=n):
            return ("decided", n, other)

        def declines(self, other):
            return NotImplemented

        def raises(self, other, n=n):
            raise Boom(n)

        for cls, f in ((Decides, decides), (Declines, declines), (Raises, raises)):
            setattr(cls, f"__{n}__", f)
        if n[0] == "r" and n[1:] in BINARY:
            setattr(RightOnly, f"__{n}__", decides)


_methods()
