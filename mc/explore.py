"""Bounded exhaustive exploration of operation histories on real objects, in lockstep with a reference model."""
import copy
import hashlib
import collections

import numpy as np


def _feed(h, o, seen):
    if isinstance(o, np.ndarray):
        h.update(b"A" + str(o.dtype).encode() + str(o.shape).encode())
        if o.dtype == object:
            for v in o.ravel().tolist():
                _feed(h, v, seen)
        else:
            h.update(np.ascontiguousarray(o).tobytes())
    elif isinstance(o, np.generic):
        h.update(b"G" + repr(o).encode())
    elif o is None or isinstance(o, (bool, int, float, complex, str, bytes)):
        h.update(type(o).__name__.encode() + repr(o).encode())
    elif isinstance(o, dict):
        h.update(b"D%d" % len(o))
        for k in sorted(o, key=repr):
            _feed(h, k, seen)
            _feed(h, o[k], seen)
    elif isinstance(o, (list, tuple)):
        h.update(b"L%d" % len(o))
        for v in o:
            _feed(h, v, seen)
    elif isinstance(o, (set, frozenset)):
        h.update(b"S")
        for v in sorted(o, key=repr):
            _feed(h, v, seen)
    elif hasattr(o, "__dict__"):
        if id(o) in seen:
            h.update(b"R%d" % seen[id(o)])
        else:
            seen[id(o)] = len(seen)
            h.update(b"O" + type(o).__name__.encode())
            _feed(h, {k: v for k, v in vars(o).items()}, seen)
    else:
        h.update(repr(type(o)).encode())


def digest(o):
    """Canonical digest of the complete state of an object graph (all attributes, aliasing included)."""
    h = hashlib.blake2b(digest_size=16)
    _feed(h, o, {})
    return h.digest()


def explore(ctx, worlds, actions, depth, step, invariant=None, dedupe=True):
    """Breadth-first search over operation histories.

    worlds  : list of (name, world); a world is any object graph holding the implementation object(s) *and*
              the reference model, so that a deep copy of it is an independent continuation.
    actions : list of JSON-able operations, or a function world -> list.
    step    : step(world, action) performs the action on implementation and model and asserts agreement.
    """
    q = collections.deque()
    seen = set()
    for name, w in worlds:
        ctx.current = [name]
        if invariant:
            _guard(ctx, [name], lambda: invariant(w))
        k = digest(w)
        if k in seen:
            continue
        seen.add(k)
        ctx.states += 1
        q.append(([name], w))
    while q:
        hist, w = q.popleft()
        todo = [] if len(hist) - 1 >= depth else (actions(w) if callable(actions) else actions)
        if not todo:
            ctx.validated += 1          # a complete trace, checked at every step
            continue
        for a in todo:
            nw = copy.deepcopy(w)
            nh = hist + [a]
            ctx.current = nh
            ctx.transitions += 1

            def go():
                step(nw, a)
                if invariant:
                    invariant(nw)
            if not _guard(ctx, nh, go):
                continue
            k = digest(nw)
            if dedupe and k in seen:
                ctx.validated += 1      # the trace ends here: it joins a state already explored
                continue
            seen.add(k)
            ctx.states += 1
            if len(ctx.outcomes) < 20000:
                ctx.outcomes.add(k.hex()[:12])
            ctx.sample(nh) if len(nh) - 1 >= min(depth, 3) else None
            q.append((nh, nw))


def _guard(ctx, trace, f):
    from .runner import Stop
    import traceback
    try:
        f()
        return True
    except Stop:
        raise
    except AssertionError as e:
        ctx.fail(str(e), trace=trace, sig=getattr(e, "sig", ""))
    except Exception as e:
        ctx.fail(f"unexpected {type(e).__name__}: {e}\n{traceback.format_exc(limit=-6)}", trace=trace)
    return False
