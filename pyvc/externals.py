"""Contracts assumed for third-party functions (each one is listed in the evidence as an assumption)."""
import types
from . import core, tensor, npshim
from .core import Unsupported, ctx, is_sym, and_, implies
from .tensor import Tensor, normint, astensor


class NS(types.ModuleType):
    """a module of which only some functions have a contract"""

    def __init__(self, name, **kw):
        super().__init__(name)
        self.__dict__.update(kw)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        name = self.__name__ + "." + k

        class Missing:
            """class or function without a contract: any use is outside the subset"""
            def __new__(cls, *a, **kw):
                raise Unsupported(f"no contract for {name}")
        Missing.__name__ = k
        Missing.__module__ = self.__name__
        return Missing


def build(vc):
    from .vc import Dummy
    np_ = npshim.numpy
    ext = {"numpy": np_}
    ext["scipy.signal"] = NS("scipy.signal")
    ext["scipy.linalg"] = NS("scipy.linalg")
    ext["scipy.spatial.distance"] = NS("scipy.spatial.distance")
    ext["scipy.spatial"] = NS("scipy.spatial", distance=ext["scipy.spatial.distance"])
    ext["scipy"] = NS("scipy", signal=ext["scipy.signal"], linalg=ext["scipy.linalg"], spatial=ext["scipy.spatial"])
    ext["aspcore.filter"] = NS("aspcore.filter")
    ext["aspcore.correlation"] = NS("aspcore.correlation")
    ext["aspcore.utilities"] = NS("aspcore.utilities")
    ext["aspcore.filterdesign"] = NS("aspcore.filterdesign")
    ext["aspcore"] = NS("aspcore", filter=ext["aspcore.filter"], correlation=ext["aspcore.correlation"], utilities=ext["aspcore.utilities"], filterdesign=ext["aspcore.filterdesign"])
    ext["pyroomacoustics.directivities"] = NS("pyroomacoustics.directivities")
    ext["pyroomacoustics"] = NS("pyroomacoustics", directivities=ext["pyroomacoustics.directivities"])
    ext["soundfile"] = NS("soundfile")
    ext["yaml"] = NS("yaml")
    ext["dill"] = NS("dill")
    return ext
