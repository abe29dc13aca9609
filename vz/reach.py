"""Which lines of the code under test the monitored executions went through.

Uses sys.monitoring: a line event disables itself once it has been seen, so
that the cost is one callback per line and process."""
import os
import sys

TOOL = 4
lines = set()


def start(root):
    m = getattr(sys, 'monitoring', None)
    if m is None or m.get_tool(TOOL) is not None:
        return
    root = os.path.join(root, 'zounds') + os.sep
    skip = m.DISABLE

    def line(code, no):
        name = code.co_filename
        if name.startswith(root):
            lines.add((name[len(root):], no))
        return skip
    m.use_tool_id(TOOL, 'vz-reach')
    m.register_callback(TOOL, m.events.LINE, line)
    m.set_events(TOOL, m.events.LINE)


def stop():
    m = getattr(sys, 'monitoring', None)
    if m is not None and m.get_tool(TOOL) == 'vz-reach':
        m.set_events(TOOL, 0)
        m.free_tool_id(TOOL)
    return lines


def executable(path):
    """the lines inside functions of one source file"""
    src = open(path).read()
    out = set()

    def walk(code, inside):
        if inside:
            out.update(l for _, _, l in code.co_lines() if l and l != code.co_firstlineno)
        for c in code.co_consts:
            if hasattr(c, 'co_lines'):
                # class bodies run on import
                walk(c, inside or bool(c.co_flags & 0x1))
    walk(compile(src, path, 'exec'), False)
    return out
