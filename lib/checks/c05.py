from checks.pf_common import session

DRIVERS = ["d_pf"]


def run(ctx):
    ctx.model("MC_PF", {"NV": 2, "What": '"subst"'}, invariants=["SubstLaws"], workers=8)
    r = ctx.rng("pf")
    ctx.validate("d_pf", "T_PF", [session(r, 30, "subst") for i in range(ctx.pick(1200, 16000))], skip_rest=True)
