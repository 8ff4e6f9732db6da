"""Base classes for contracts applied at call sites."""
from vals import *
from ex import *


class Contract:
    wants_locs = False

    def inline_in(self, ex):
        return False

    def apply(self, ex, this, args, node):
        raise NotImplementedError


class Fn(Contract):
    def __init__(self, f, wants_locs=False):
        self.f, self.wants_locs = f, wants_locs

    def apply(self, ex, this, args, node):
        return self.f(ex, this, args, node)


def const(v):
    return Fn(lambda ex, this, args, node: v)
