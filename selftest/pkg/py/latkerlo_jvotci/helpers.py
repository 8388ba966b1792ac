import abc
import enum
import functools
from dataclasses import dataclass
from typing import NamedTuple


class MyError(Exception):
    pass


def vowel(c: str) -> bool:
    return c in ("a", "e", "i", "o", "u")


def starts(p, w):
    return w.startswith(p)


class Kind(enum.Enum):
    VOWEL = "v"
    CONS = "c"
    OTHER = enum.auto() if False else "o"

    @classmethod
    def of(cls, w):
        if not w:
            return cls.OTHER
        return cls.VOWEL if w[0] in "aeiou" else cls.CONS if w[0] in "bcdfg" else cls.OTHER


class Shape(enum.IntEnum):
    A = 1
    B = 2


class Cand(NamedTuple):
    score: int
    word: str


class Scanner:
    LIMIT = 5
    names = {"a": 1}

    def __init__(self, w):
        self._w = w
        self.pos = 0

    def __bool__(self):
        return self.pos < len(self._w)

    def take(self):
        c = self._w[self.pos]
        self.pos += 1
        return c

    @property
    def rest(self):
        return self._w[self.pos:]

    @property
    def size(self):
        return len(self._w)

    @staticmethod
    def kind(c):
        return Scanner.names.get(c)

    @classmethod
    def make(cls, w):
        return cls(w)


class Slot:
    __slots__ = ("w",)

    def __init__(self, w):
        self.w = w

    def get(self):
        return self.w[::-1]


class Base(abc.ABC):
    def __init__(self, w):
        self.w = w

    @abc.abstractmethod
    def run(self): ...


class Concrete(Base):
    def __init__(self, w):
        super().__init__(w)

    def run(self):
        return self.w.upper()


@dataclass(frozen=True)
class Settings:
    word: str
    mz: bool = False
    kind: Shape = Shape.A

    def key(self):
        return (self.word, self.mz, int(self.kind), self == Settings(self.word), self.kind == 1)


@functools.singledispatch
def describe(x):
    return "other"


@describe.register
def _(x: str):
    return "str"


@describe.register(list)
def _(x):
    return "list"
