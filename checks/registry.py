"""Property id -> list of Check objects."""
import importlib

MODULES = ["link", "vardata", "xmlout", "normal", "codec", "memory", "session", "purity", "listing", "tools", "real"]


def get(pid):
    out = []
    for m in MODULES:
        try:
            mod = importlib.import_module("checks." + m)
        except ModuleNotFoundError as e:
            if e.name != "checks." + m:
                raise
            continue
        for name in sorted(dir(mod)):
            c = getattr(mod, name)
            if isinstance(c, type) and getattr(c, "pid", None) == pid and not name.startswith("_") and c.__module__ == mod.__name__:
                out.append(c())
    if not out:
        raise SystemExit("no check for " + pid)
    out.sort(key=lambda c: getattr(c, "order", 0))
    return out
