"""Contract of pyam as far as it is used: frames with their data as a long table, written to files by to_csv."""
from .core import Builtin, Ext, TypeVal, Unsupported


class Iam(Ext):
    """An IamDataFrame with its data."""

    name = "IamDataFrame"

    def __init__(self, data):
        self.data = data

    def isinstance_of(self, it, c):
        return getattr(c, "name", "").split(".")[-1] in ("IamDataFrame", "object")

    def getattr(self, it, name):
        if name == "data":
            return self.data
        raise Unsupported("IamDataFrame." + name)


class Written(Ext):
    """An IamDataFrame made of something; records the files written."""

    name = "IamDataFrame"

    def __init__(self, cls, args, kw):
        self.cls, self.args, self.kw, self.files = cls, tuple(args), dict(kw), []

    def getattr(self, it, name):
        if name == "to_csv":
            return Builtin(name, lambda it, *a, **k: self.files.append((a, k)))
        raise Unsupported("IamDataFrame." + name)


class Pyam(TypeVal):
    """IamDataFrame: its constructor has the times formatted by _format_datetime_col."""

    def __init__(self, made):
        TypeVal.__init__(self, "IamDataFrame", lambda it, *a, **k: self.make(None, a, k))
        self.made = made

    def make(self, cls, a, k):
        w = Written(cls, a, k)
        self.made.append(w)
        return w

    def instantiate(self, it, cls, args, kw):
        return self.make(cls, args, kw)


TYPE = Pyam([])
