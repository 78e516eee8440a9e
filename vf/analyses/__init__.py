from __future__ import annotations

import importlib
import pkgutil


def registry():
    out = {}
    for m in pkgutil.iter_modules(__path__):
        if m.name.startswith("p_"):
            mod = importlib.import_module(__name__ + "." + m.name)
            out.update(mod.CHECKS)
    return out
