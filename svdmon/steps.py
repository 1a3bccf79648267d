"""Counts the lines the library executes: a logical clock for 'ends within bounded work'."""
import sys

from . import env


class Exceeded(BaseException):
    pass


class Steps:
    """with Steps(limit) as s: ...   s.n lines of the library were executed; raises Exceeded beyond limit."""

    def __init__(self, limit):
        self.limit, self.n = limit, 0

    def _line(self, code, _no):
        if not code.co_filename.startswith(env.SRC):
            return sys.monitoring.DISABLE
        self.n += 1
        if self.n > self.limit:
            raise Exceeded()
        return None

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(mon.PROFILER_ID, "svdmon-steps")
        mon.register_callback(mon.PROFILER_ID, mon.events.LINE, self._line)
        mon.set_events(mon.PROFILER_ID, mon.events.LINE)
        return self

    def __exit__(self, *_):
        mon = sys.monitoring
        mon.set_events(mon.PROFILER_ID, 0)
        mon.register_callback(mon.PROFILER_ID, mon.events.LINE, None)
        mon.free_tool_id(mon.PROFILER_ID)
        mon.restart_events()
