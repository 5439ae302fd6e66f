import itertools

from checks.mono_common import session

DRIVERS = ["d_mono"]


def run(ctx):
    ctx.model("MC_Mono", {"NV": 2, "K": 3, "MaxE": 3, "Depth": 0, "Width": 0}, invariants=["OrdLaws"], init="LInit", nxt="LNext")
    # All pairs of exponent vectors of a box.
    box = [list(v) for v in itertools.product(range(3), repeat=3)]
    ss = []
    for a in box:
        ss.append([{"op": "begin", "nv": 3, "k": 1, "types": "rir"}]
                  + [{"op": "ecmp", "x": [a, "1"], "y": [b, "1"]} for b in box]
                  + [{"op": "ecmpv", "x": [a, "1"], "v": v} for v in (1, 2, 3)]
                  + [{"op": "tcmp", "x": [a, c], "y": [b, "2"], "v": 1 + sum(b) % 3} for b in box for c in ("1", "-3")])
    ctx.validate("d_mono", "T_Mono", ss, source="box")
    r = ctx.rng("order")
    ctx.validate("d_mono", "T_Mono", [session(r, 60, "order") for i in range(ctx.pick(600, 8000))], skip_rest=True)
