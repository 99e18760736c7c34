"""Access to the code under test. Only names the project's own tests and documentation
use are required; anything else is optional, so that a renamed helper silences a deeper
probe (it is counted as skipped) instead of raising a false alarm."""
import importlib
import inspect


def need(module, name=None):
    m = importlib.import_module("wam2layers." + module)
    return m if name is None else getattr(m, name)


def opt(module, name, nargs=None):
    """The attribute, or None when it is gone or no longer takes nargs positionals."""
    try:
        f = getattr(importlib.import_module("wam2layers." + module), name)
    except (ImportError, AttributeError):
        return None
    if nargs is not None:
        try:
            inspect.signature(f).bind(*([None] * nargs))
        except TypeError:
            return None
        except ValueError:
            pass
    return f


def preload():
    importlib.import_module("wam2layers.cli")


def same_signature(module, name, params):
    """True if the function still exists with exactly these positional parameters."""
    f = opt(module, name)
    if f is None:
        return None
    try:
        have = [p.name for p in inspect.signature(f).parameters.values()
                if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]
    except (TypeError, ValueError):
        return None
    return f if have[: len(params)] == list(params) else None
