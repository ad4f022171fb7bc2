"""M02 every sequence of runs, each history in its own forked process, against runs in a fresh process."""
import copy
import hashlib
import os
import warnings

import numpy as np
import matplotlib.pyplot as plt

from swprocess import Masw
from swprocess.masw import MaswXcorr

from mc.forks import in_child, tree
from mc.survey import write
from mc.ui import User
from mc.util import ok, close

RULE = ("all sequences of runs over a family of workflows, transforms, surveys and settings (with settings dictionaries private to a run, shared and reused, or sharing their parts); after each run its image, axes, "
        "array and signal-to-noise equal those of the same run in a fresh process, and settings, file list and file contents are unchanged")
BOUNDS = dict(quick="17 kinds of run on two surveys (private or shared settings), all sequences of 2, extended by each of 7 kinds", thorough="all sequences of 3, extended by each of 7 kinds")
ASSUMPTIONS = ["a fresh process is a fork taken before any run"]
MAXTASKS = 1

KINDS = ["td-fdbf", "td-fk", "td-phaseshift", "single-slantstack", "fd-fk", "fd-fdbf", "fd-phaseshift", "td-mute", "fd-mute", "td-pad-snr", "fd-snr", "td-fdbf-plane", "xcorr", "create",
         "td-phaseshift-other", "fd-fdbf-other", "td-fk-log"]
LAST = ["td-fdbf", "td-fk", "td-phaseshift", "fd-fdbf", "td-pad-snr", "td-fdbf-plane", "td-phaseshift-other"]


def settings(kind):
    wf = {"td": "time-domain", "fd": "frequency-domain", "si": "single", "xc": "time-domain-xcorr", "cr": "time-domain"}[kind[:2]]
    kw = dict(workflow=wf, fmin=8., fmax=20., vmin=100., vmax=300., nvel=3)
    tr = [t for t in ("fdbf", "fk", "phaseshift", "slantstack") if t in kind]
    kw["transform"] = tr[0] if tr else "fdbf"
    if "mute" in kind:
        kw.update(mute=True, window_kwargs=dict(alpha=0.5))
    if "pad" in kind:
        kw.update(pad=True, df=2.5, trim=True, trim_begin=0., trim_end=0.4)
    if "snr" in kind:
        kw.update(snr=True, noise_begin=-0.2, noise_end=0., signal_begin=0., signal_end=0.3, df_snr=2.5)
    if "plane" in kind:
        kw.update(weighting="invamp", steering="plane", min_offset=4.)
    if "log" in kind:
        kw.update(vspace="log")
    s = Masw.create_settings_dict(**kw)
    if kind == "fd-mute":           # optional entries left out
        del s["pre-processing"]["mute"]["window_kwargs"]
    if kind == "fd-phaseshift":
        del s["processing"]["fdbf-specific"]
        s["processing"]["nvel"] = np.int64(3)
        s["processing"]["fmin"] = np.float64(8.)
    return s


def types(d):
    return {k: types(v) for k, v in d.items()} if isinstance(d, dict) else type(d)


class World:
    """Process-global: the objects shared by all runs of a history."""


def setup(tmp):
    W = World()
    W.fnames = [write(tmp, f"f{k}.su", f=k, nst=k + 1) for k in (1, 0)]         # not in the order of their names
    W.src = [write(tmp, f"s{k}.su", f=k + 3, xs=[0., 1.], delay=0.) for k in (1, 0)]
    # another survey: half the time step, as many samples and sensors, other positions, source on the other side
    W.other = [write(tmp, f"o{k}.su", f=k + 1, xs=[0., 1.5, 4., 7., 8.], src=12., dt=0.005) for k in range(2)]
    W.files = {f: hashlib.md5(open(f, "rb").read()).hexdigest() for f in W.fnames + W.src + W.other}
    W.shared = {k: settings(k) for k in KINDS}
    parts = settings("td-fdbf")["processing"]["fdbf-specific"]     # one sub-dictionary shared by all settings that have the default one
    for k in KINDS:
        if "plane" not in k and "fdbf-specific" in W.shared[k]["processing"]:
            W.shared[k]["processing"]["fdbf-specific"] = parts
    return W


def execute(W, kind, s):
    q = [[(0., 0.)], [(9., 0.06)], [(0., 0.3)], [(9., 0.42)]]

    def choose(k):
        return q.pop(0) if k == "ginput" else True if k == "block" else None
    given = W.other if "other" in kind else W.fnames
    names = list(given)
    before = copy.deepcopy(s)
    src = list(W.src)
    with User(choose).active(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == "xcorr":
            t = MaswXcorr.run(names, src, 1, s)
        else:
            t = Masw.run(names, s)
        plt.close("all")
    ok(s == before, f"{kind} altered its settings: {s} (were {before})")
    ok(types(s) == types(before) and list(s) == list(before), f"{kind} altered the types or the order of its settings: {s} (were {before})")
    ok(names == given and src == W.src, f"{kind} altered the file list")
    for f, h in W.files.items():
        ok(hashlib.md5(open(f, "rb").read()).hexdigest() == h, f"{kind} altered {os.path.basename(f)}")
    return dict(f=np.array(t.frequencies), v=np.array(t.velocities), p=np.array(t.power), snr=None if t.snr is None else np.array(t.snr),
                sf=None if t.snr_frequencies is None else np.array(t.snr_frequencies), n=t.n,
                a=np.array(t.array.timeseriesmatrix()), pos=np.array(t.array.position()), d=t.array[0].delay, ns=t.array[0].nstacks)


def perform(W, base, op):
    kind, mode = op
    if kind == "create":
        d = Masw.create_settings_dict()
        d["processing"]["fdbf-specific"]["weighting"] = "none"
        d["pre-processing"]["mute"]["window_kwargs"]["alpha"] = 0.1
        ok(Masw.create_settings_dict() == base[kind], "default settings were altered through a dictionary created earlier")
        return
    s = settings(kind) if mode == "own" else W.shared[kind]
    r = execute(W, kind, s)
    for k, v in base[kind].items():
        if v is None or r[k] is None:
            ok(v is None and r[k] is None, f"{kind}: {k}")
        else:
            close(np.asarray(r[k]), np.asarray(v), f"{kind} ({mode} settings): {k} differs from the same run in a fresh process", rtol=1e-12)


def units(tier):
    return [dict(first=k, mode=m, depth=4 if tier == "thorough" else 3) for k in KINDS for m in ("own", "shared") if (k, m) != ("create", "shared")]


def run(u, ctx):
    W = setup(ctx.tmp)
    base = {}
    for k in KINDS:
        r = in_child(lambda: Masw.create_settings_dict() if k == "create" else execute(W, k, settings(k)))
        ok(r[0] == "ok", f"{k} in a fresh process: {r[1]}")
        base[k] = r[1]
        ctx.state(("base", k))
        ctx.outcome(k + str(np.round(np.abs(r[1]["p"]).ravel()[:3], 4)) if k != "create" else k)
    op = [u["first"], u["mode"]]
    perform(W, base, op)
    ctx.transitions += 1
    # later runs: own settings for the even kinds, the shared ones for the odd kinds, so that both mix in every history
    ops = [[k, ("own", "shared")[(i + (u["mode"] == "own")) % 2]] for i, k in enumerate(KINDS)]
    tree(ctx, ops, u["depth"] - 1, lambda o: perform(W, base, o), (op,), [o for o in ops if o[0] in LAST])
    ctx.states += ctx.transitions
    ctx.sample([op] + ops[:u["depth"] - 1])
