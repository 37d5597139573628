from .values import *
from .execu import *


class Contract:
    """requires/ensures of one function of /repo.

    requires(ex, this, args) -> list of (name, formula)
    ensures(ex, this, args, result) -> list of formulas   (assumed at call sites, proved for the body)
    result(ex, this, args) -> fresh result value (LV or value)
    modifies(ex, this, args): havoc the frame (default: nothing is modified)
    """
    def __init__(self, qual, requires=None, ensures=None, result=None, modifies=None, target=None):
        self.qual, self.requires, self.ensures, self.result, self.modifies = qual, requires, ensures, result, modifies
        self.target = target

    def apply(self, ex, this, args):
        for nm, f in (self.requires(ex, this, args) if self.requires else ()):
            ex.oblige('precondition of %s: %s' % (self.qual.split('::')[-1], nm), f, 'pre')
        if self.modifies:
            self.modifies(ex, this, args)
        r = self.result(ex, this, args) if self.result else None
        for f in (self.ensures(ex, this, args, r) if self.ensures else ()):
            if isinstance(f, tuple):
                f = f[1]
            ex.assume(f)
        return r
