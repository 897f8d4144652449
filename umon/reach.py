"""Which statements of the code under test were executed by the workloads (recorded, never judged)."""
import os
import sys
import types

from . import env

_new = set()
_root = None
TOOL = 3


def start():
    global _root
    _root = os.path.realpath(env.REPO) + os.sep
    mon = sys.monitoring
    try:
        mon.use_tool_id(TOOL, "umon")
    except ValueError:
        return
    names = {}

    def line(code, no):
        f = names.get(code.co_filename)
        if f is None:
            r = os.path.realpath(code.co_filename)
            f = names[code.co_filename] = r[len(_root):] if r.startswith(_root) else ""
        if f and code.co_name != "<module>":
            _new.add((f, no))
        return mon.DISABLE
    mon.register_callback(TOOL, mon.events.LINE, line)
    mon.set_events(TOOL, mon.events.LINE)


def take():
    out = sorted(_new)
    _new.clear()
    return out


def statements(files):
    """file -> lines of function bodies"""
    out = {}
    for f in files:
        try:
            code = compile(open(os.path.join(_root, f)).read(), f, "exec")
        except (OSError, SyntaxError):
            continue
        lines = set()

        def walk(c, top):
            if not top and c.co_name not in ("<genexpr>",):
                body = {ln for _, _, ln in c.co_lines() if ln}
                lines.update(body - {c.co_firstlineno})
            for k in c.co_consts:
                if isinstance(k, types.CodeType):
                    walk(k, top=top and k.co_name[:1].isupper() and "__qualname__" in k.co_names or False)
        walk(code, True)
        out[f] = lines
    return out


def summary(hit):
    files = sorted({f for f, _ in hit})
    st = statements(files)
    return {f: "%d/%d" % (len(st.get(f, set()) & {n for g, n in hit if g == f}), len(st.get(f, ()))) for f in files}
