"""Work and memory of a call, measured by what the interpreter executes: bytecode instructions run in files of the library
under test (the same count on every run of the same code, whatever else the machine does)."""
import os
import sys

from . import core

TOOL = 3
ROOT = os.path.realpath(core.REPO) + os.sep


class TooMuch(Exception):
    pass


def instructions(fn, limit=10**9):
    """(result, instructions executed in the library by fn()); TooMuch beyond the limit."""
    mon = sys.monitoring
    E = mon.events
    count = 0
    inside = {}

    def step(code, offset):
        nonlocal count
        ok = inside.get(code)
        if ok is None:
            ok = inside[code] = os.path.realpath(code.co_filename).startswith(ROOT)
        if not ok:
            return mon.DISABLE
        count += 1
        if count > limit:
            raise TooMuch(count)

    mon.use_tool_id(TOOL, 'work')
    try:
        mon.register_callback(TOOL, E.INSTRUCTION, step)
        mon.restart_events()
        mon.set_events(TOOL, E.INSTRUCTION)
        result = fn()
    finally:
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, E.INSTRUCTION, None)
        mon.free_tool_id(TOOL)
    return result, count
