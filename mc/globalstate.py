"""Module- and class-level state of the code under test, put back before every execution.

Executions have to be independent of each other, or a violation found in one could not be
reproduced from its choices alone.  State that outlives an application is still seen: the
scenarios that use several applications in one execution are there for that.
"""
import enum
import importlib
import sys
import types

PACKAGE = "zigpy_cc"
MODULES = ("zigpy_cc.zigbee.application", "zigpy_cc.api", "zigpy_cc.uart", "zigpy_cc.buffalo",
           "zigpy_cc.zpi_object", "zigpy_cc.config")
CONTAINERS = (dict, list, set, bytearray)
MISSING = object()


class Snapshot:
    def __init__(self):
        for m in MODULES:
            try:
                importlib.import_module(m)
            except ImportError:
                pass
        self.spaces = []  # (owner, {name: value}, size)
        self.contents = []  # (container, copy)
        self.caches = []
        self.seen = set()
        for name, mod in list(sys.modules.items()):
            if mod is not None and (name == PACKAGE or name.startswith(PACKAGE + ".")):
                self._space(mod)

    def _space(self, owner):
        if id(owner) in self.seen:
            return
        self.seen.add(id(owner))
        attrs = {n: v for n, v in vars(owner).items() if not n.startswith(("__", "_abc"))}
        self.spaces.append((owner, attrs, len(vars(owner))))
        for v in attrs.values():
            self._value(v)

    def _value(self, v):
        if isinstance(v, (staticmethod, classmethod)):
            v = v.__func__
        if isinstance(v, property):
            v = v.fget
        if isinstance(v, CONTAINERS) and id(v) not in self.seen:
            self.seen.add(id(v))
            self.contents.append((v, v.copy()))
        elif isinstance(v, type):
            if (v.__module__ or "").startswith(PACKAGE) and not issubclass(v, enum.Enum):
                self._space(v)
        elif isinstance(v, types.FunctionType):
            for d in (v.__defaults__ or ()) + tuple((v.__kwdefaults__ or {}).values()):
                if isinstance(d, CONTAINERS):
                    self._value(d)
            if (v.__module__ or "").startswith(PACKAGE) and v.__dict__ is not None:
                self._value(v.__dict__)
        elif callable(getattr(v, "cache_clear", None)):
            self.caches.append(v)
        elif type(v).__module__.startswith((PACKAGE, "asyncio")) and \
                isinstance(getattr(v, "__dict__", None), dict):
            self._value(v.__dict__)

    def restore(self):
        for owner, attrs, size in self.spaces:
            now = vars(owner)
            if len(now) != size:
                for n in list(now):
                    if n not in attrs and not n.startswith(("__", "_abc")) and \
                            not isinstance(now[n], types.ModuleType):
                        delattr(owner, n)
            for n, v in attrs.items():
                if now.get(n, MISSING) is not v:
                    setattr(owner, n, v)
        for c, copy in self.contents:
            if c != copy:
                c.clear()
                c.extend(copy) if isinstance(c, (list, bytearray)) else c.update(copy)
        for f in self.caches:
            f.cache_clear()
