"""Replacing a callee by its contract in every loaded decomon module (by identity of the function object)."""
import sys

USED = set()
OFF = False
PATCHED = False
_undo = []
_ctx = None
_n = 0


def reset(ctx):
    global _ctx, _n, PATCHED
    restore()
    PATCHED = False
    USED.clear()
    _ctx = ctx
    _n = 0


def fresh(prefix):
    global _n
    _n += 1
    return f"{prefix}#{_n}"


def restore():
    while _undo:
        obj, name, old, isdict = _undo.pop()
        if isdict:
            obj[name] = old
        else:
            setattr(obj, name, old)


def patch(module, name, repl):
    """replace module.name by repl wherever the same object is bound in a decomon module.
    A name that no longer exists is skipped: the code is then executed through."""
    global PATCHED
    if OFF:
        return False
    PATCHED = True
    m = sys.modules.get(module)
    if m is None or not hasattr(m, name):
        return False
    old = getattr(m, name)

    def wrapper(*a, **k):
        USED.add(f"{module}.{name}")
        return repl(*a, **k)

    wrapper.__name__ = name
    wrapper._orig = old
    for mn, mm in list(sys.modules.items()):
        if mn == "decomon" or mn.startswith("decomon."):
            for k, v in list(vars(mm).items()):
                if v is old:
                    _undo.append((mm, k, old, False))
                    setattr(mm, k, wrapper)
    return True


def patch_attr(obj, name, repl):
    old = obj.__dict__.get(name, None)
    if old is None:
        return False
    _undo.append((obj, name, old, False))
    setattr(obj, name, repl)
    return True
