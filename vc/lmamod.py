"""lmatools is not installed here: its coroutine decorator and broadcaster, as documented."""
from . import loader
from .core import Unsupported


def coroutine(func):
    def start(*a, **k):
        cr = func(*a, **k)
        next(cr)
        return cr
    start.__wrapped__ = func
    return start


@coroutine
def broadcast(targets):
    while True:
        stuff = (yield)
        for t in targets:
            t.send(stuff)


class Subset:
    coroutine, broadcast = staticmethod(coroutine), staticmethod(broadcast)

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return loader.Stub("lmatools.stream.subset." + a)


loader.MODELS["lmatools.stream.subset"] = Subset()


class Fixed:
    """coordinate systems: objects the modelled code only passes on"""
    @staticmethod
    def get_GOESR_coordsys(*a, **k):
        return loader.Stub("fixed grid coordinates"), loader.Stub("geographic coordinates")

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return loader.Stub("lmatools.grid.fixed." + a)


loader.MODELS["lmatools.grid.fixed"] = Fixed()
