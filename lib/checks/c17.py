from checks.num_common import conversions, pack, texts, wild

DRIVERS = ["d_num"]


def run(ctx):
    ctx.model("MC_Num", {"Vals": '{"0"}', "Alphabet": '{"0","1","7",".","-","/","e"," "}', "MaxLen": ctx.pick(3, 4)}, invariants=("Laws",))
    ctx.validate("d_num", "T_Num", pack(texts(list("01.-/e ") if ctx.quick else list("017.-+/eE x"), 4), 60), source="texts", skip_rest=False)
    ctx.validate("d_num", "T_Num", pack(wild(ctx.rng("w"), ctx.pick(6000, 60000)), 20), source="random texts", skip_rest=False)
    ctx.validate("d_num", "T_Num", pack(conversions(ctx.rng("c"), ctx.pick(6000, 60000)), 20), source="conversions", skip_rest=False)
