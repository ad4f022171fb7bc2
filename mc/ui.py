"""A scripted user: every interactive call of matplotlib (and input) asks the script for the next event."""
import builtins
import contextlib
import io

from matplotlib.figure import Figure


class Horizon(Exception):
    """The session asks for more events than the explored horizon provides."""


class User:
    """choose(kind) -> event; kinds: 'ginput' (list of points), 'block' (blocking wait: True/False), 'timed' (True/False/None), 'input' (str)."""

    def __init__(self, choose):
        self.choose = choose
        self.trace = []

    def ask(self, kind):
        v = self.choose(kind)
        self.trace.append((kind, v))
        return v

    @contextlib.contextmanager
    def active(self):
        u = self

        def ginput(self, n=1, timeout=30, *a, **k):
            r = u.ask("ginput")
            if callable(r):
                r = r(self)
            return [tuple(p) for p in r]

        def wait(self, timeout=-1):
            return u.ask("timed" if timeout and timeout > 0 else "block")

        def inp(prompt=""):
            return u.ask("input")
        old = Figure.ginput, Figure.waitforbuttonpress, builtins.input
        Figure.ginput, Figure.waitforbuttonpress, builtins.input = ginput, wait, inp
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                yield self
        finally:
            Figure.ginput, Figure.waitforbuttonpress, builtins.input = old


class Chooser:
    """Depth-first enumeration of all environment choices of a deterministic session, up to a horizon of events."""

    def __init__(self, alphabet, horizon):
        self.alphabet, self.horizon = alphabet, horizon
        self.prefix = []

    def choose(self, kind):
        if self.pos >= self.horizon:
            raise Horizon()
        alts = self.alphabet[kind]
        if self.pos == len(self.prefix):
            self.prefix.append([kind, 0])
        k, i = self.prefix[self.pos]
        assert k == kind, "the session is not deterministic"
        self.pos += 1
        self.arity[self.pos - 1] = len(alts)
        return alts[i]

    def runs(self):
        """Yields once per distinct choice sequence; call the session inside the loop body."""
        while True:
            self.pos, self.arity = 0, {}
            yield self
            del self.prefix[self.pos:]
            while self.prefix and self.prefix[-1][1] + 1 >= self.arity[len(self.prefix) - 1]:
                self.prefix.pop()
            if not self.prefix:
                return
            self.prefix[-1][1] += 1
