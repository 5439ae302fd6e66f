from checks.mono_common import session

DRIVERS = ["d_mono"]


def run(ctx):
    ctx.model("MC_Mono", {"NV": 2, "K": 3, "MaxE": ctx.pick(2, 3), "Depth": 0, "Width": 0}, invariants=["MonLaws"], init="LInit", nxt="LNext")
    gen = ctx.generate("MC_Mono", {"NV": 3, "K": 3, "MaxE": 2, "Depth": 16, "Width": 4}, simulate=ctx.pick(200, 2000), depth=18,
                       header={"op": "begin", "nv": 3, "k": 3, "types": "rrr"})
    ctx.validate("d_mono", "T_Mono", gen, skip_rest=True, source="tlc")
    r = ctx.rng("mono")
    ctx.validate("d_mono", "T_Mono", [session(r, 40, "algebra") for i in range(ctx.pick(1500, 20000))], skip_rest=True)
