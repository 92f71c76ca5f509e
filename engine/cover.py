"""Which lines of the code of /repo run under the contracts (measured, reported in the evidence)."""
import os
import sys

HIT = {}
_new = set()
_on = False


def start(root):
    global _on
    if _on or not hasattr(sys, "monitoring"):
        return
    mon = sys.monitoring
    try:
        mon.use_tool_id(4, "verif-cover")
    except ValueError:
        return
    _on = True
    root = os.path.realpath(root) + os.sep

    def line(code, n):
        f = code.co_filename
        if f.startswith(root):
            _new.add((f[len(root):], code.co_qualname, n))
        return mon.DISABLE

    mon.register_callback(4, mon.events.LINE, line)
    mon.set_events(4, mon.events.LINE)


def take():
    out = sorted(_new)
    _new.clear()
    return out
