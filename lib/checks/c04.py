from checks.mp_common import session

DRIVERS = ["d_mp"]


def run(ctx):
    ctx.model("MC_MP", {"NV": 2, "K": ctx.pick(2, 3), "Depth": 0, "Width": 0, "Scope": '"small"'}, invariants=["OrdLaws"],
              init="LInit", nxt="LNext")
    hdr = {"op": "begin", "nv": 2, "k": 2, "ring": "Q", "types": "rr"}
    gen = ctx.generate("MC_MP", {"NV": 2, "K": 2, "Depth": 14, "Width": 3, "Scope": '"view"'}, simulate=ctx.pick(200, 2000), depth=16, header=hdr)
    ctx.validate("d_mp", "T_MP", gen, skip_rest=True, source="tlc")
    r = ctx.rng("mp")
    n = ctx.pick(1800, 24000)
    ctx.validate("d_mp", "T_MP", [session(r, 30, True, i % 8 == 0) for i in range(n)], skip_rest=True, source="random")
