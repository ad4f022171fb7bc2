"""A03 offset trimming: every layout, source and range, and every pair of successive trims."""
import itertools

import numpy as np

from mc.objs import array, obs, same_obs
from mc.util import ok, same, raises
from mc.explore import explore

RULE = ("initial states = every layout and source position; transitions = trim_offsets for every (min,max) pair of the alphabet; each step "
        "compares the surviving sensors (order, all attributes, records) with the strict interval, refused trims must change nothing")
BOUNDS = dict(quick="all subsets of {0,1,2,4,7} (>=1 sensor), sources left/right/inside/coincident (9 positions), 9 minima x 9 maxima, depth 2; one 24-sensor array depth 2",
              thorough="depth 3 on layouts of 4 and 5 sensors")
ASSUMPTIONS = ["offset is the distance along the array (x), as the library defines it"]
POS = [0., 1., 2., 4., 7.]
SRC = [-3., -0.5, 0., 1., 1.5, 3., 7., 9., 30.]
MIN = [-1., 0., 0.5, 1., 2., 3., 5., 8., 50.]
MAX = [0., 0.5, 1., 2., 4., 5., 7., 10., np.inf]


def step(w, t):
    a = w["o"]
    before = obs(a)
    keep = [i for i, s in enumerate(before["sensors"]) if t[0] < abs(before["source"]["x"] - s["x"]) < t[1]]
    if not keep:
        raises(ValueError, lambda: a.trim_offsets(*t), f"trim_offsets{tuple(t)} leaves no sensor")
        same_obs(obs(a), before, "refused trim_offsets")
        return
    a.trim_offsets(*t)
    now = obs(a)
    ok([s["x"] for s in now["sensors"]] == [before["sensors"][i]["x"] for i in keep],
       f"trim_offsets{tuple(t)} kept {[s['x'] for s in now['sensors']]}, wanted {[before['sensors'][i]['x'] for i in keep]} (source {before['source']['x']})")
    for s, i in zip(now["sensors"], keep):
        same_obs(s, before["sensors"][i], "record of a kept sensor")
    same_obs(now["source"], before["source"], "source")
    ok(a.nchannels == len(keep), "nchannels")


def units(tier):
    subs = [list(c) for k in range(1, 6) for c in itertools.combinations(POS, k)]
    u = [dict(xs=s, src=SRC[i::3], depth=3 if tier == "thorough" and len(s) > 3 else 2) for s in subs for i in range(3)]
    u += [dict(xs=[2. * i + (0.5 if i == 7 else 0) for i in range(24)], src=[sx], depth=2) for sx in (-10., 23., 60.)]
    return u


def run(u, ctx):
    acts = [[a, b] for a in MIN for b in MAX if a < b or (a, b) in ((1., 1.), (2., 1.))]
    if len(u["xs"]) > 5:
        acts = [[a * 4, b * 4] for a, b in acts[::3]]
    for sx in u["src"]:
        a = array(u["xs"], n=4, sx=sx, sy=3. if len(u["xs"]) % 2 else 0., sz=-1., delay=-0.25, nstacks=2, ys=[0.] * len(u["xs"]))
        explore(ctx, [([u["xs"], sx], dict(o=a))], acts, u["depth"], step)
