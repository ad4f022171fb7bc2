"""Exploration of operation histories with process state: every node of the history tree runs in a forked copy of its parent."""
import os
import pickle
import sys
import traceback


def in_child(f):
    """Result of f() computed in a forked copy of this process; an exception there is returned as an instance."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("ok", f())
            except AssertionError as e:
                out = ("assert", str(e), getattr(e, "sig", ""))
            except BaseException as e:
                out = ("error", f"unexpected {type(e).__name__}: {e}\n{traceback.format_exc(limit=-6)}", "")
            with os.fdopen(w, "wb") as fh:
                pickle.dump(out, fh)
        except BaseException:
            traceback.print_exc(file=sys.stderr)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("error", "the process died", "")


def tree(ctx, ops, depth, perform, hist=(), last=None):
    """Depth-first over all histories; perform(op) acts on process-global state and asserts.
    With `last`, the final operation is drawn from that list. Children report the sizes of their subtrees."""
    for op in (last if last and depth == 1 else ops):
        h = list(hist) + [op]

        def node():
            perform(op)
            sub = dict(t=0, v=0, bad=[])
            if depth > 1:
                class C:
                    transitions = validated = 0

                    def fail(self, m, trace=None, sig=None):
                        sub["bad"].append((m, trace, sig))
                c = C()
                tree(c, ops, depth - 1, perform, h, last)
                sub["t"], sub["v"] = c.transitions, c.validated
            else:
                sub["v"] = 1
            return sub
        res = in_child(node)
        ctx.transitions += 1
        if res[0] == "ok":
            ctx.transitions += res[1]["t"]
            ctx.validated += res[1]["v"]
            for b in res[1]["bad"]:
                ctx.fail(*b)
        else:
            ctx.fail(res[1], h, res[2])


class Explored(BaseException):
    """All continuations of this point were explored in forked copies."""


class ForkChooser:
    """Depth-first enumeration of a session's environment choices; the session's state at each choice is forked, so a shared prefix runs once.

    explore(ctx, run): run(choose) performs the session, calling choose(kind) for every event; it asserts, and returns an outcome."""

    def __init__(self, alphabet, horizon, stop):
        self.alphabet, self.horizon, self.stop = alphabet, horizon, stop
        self.hist, self.out, self.root = [], None, os.getpid()

    def choose(self, kind):
        if len(self.hist) >= self.horizon:
            raise self.stop()
        for alt in self.alphabet[kind]:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                self.out = w
                self.hist = self.hist + [[kind, alt]]
                self.res = dict(events=1, done=[], bad=[])
                return alt
            os.close(w)
            with os.fdopen(r, "rb") as fh:
                data = fh.read()
            os.waitpid(pid, 0)
            if data:
                d = pickle.loads(data)
                self.res["events"] += d["events"]
                self.res["done"] += d["done"]
                self.res["bad"] += d["bad"]
            else:
                self.res["bad"].append((self.hist + [[kind, alt]], "the process died"))
            if len(self.res["bad"]) >= 3:
                break
        raise Explored()

    def explore(self, ctx, run):
        self.hist, self.out = [], None
        self.res = dict(events=0, done=[], bad=[])
        try:
            r = run(self.choose)
            self.res["done"].append((self.hist, r))
        except Explored:
            pass
        except AssertionError as e:
            self.res["bad"].append((self.hist, str(e)))
        except Exception as e:
            self.res["bad"].append((self.hist, f"unexpected {type(e).__name__}: {e}\n{traceback.format_exc(limit=-6)}"))
        if self.out is not None:
            try:
                with os.fdopen(self.out, "wb") as fh:
                    pickle.dump(self.res, fh)
            finally:
                os._exit(0)
        ctx.transitions += self.res["events"]
        ctx.validated += len(self.res["done"])
        for h, r in self.res["done"]:
            ctx.state(("in", repr(h)))
            ctx.outcome(repr(r))
            ctx.sample(h)
        for h, m in self.res["bad"]:
            ctx.fail(m, h)
