from fractions import Fraction as F

from checks.num_common import factors, functions, pack, small

DRIVERS = ["d_num"]


def run(ctx):
    ctx.model("QCheck", workers=4)
    ctx.model("MC_Num", {"Vals": ctx.pick('{"-3","-1","-1/2","0","1/3","3/2","2","4","9/4"}', '{"-7/2","-3","-2","-1","-1/2","-1/3","0","1/4","1/3","2/3","1","3/2","2","9/4","4","12","16"}'),
                         "Alphabet": '{"0","1"}', "MaxLen": 1}, invariants=("Laws",))
    bs = sorted({F(a, b) for a in range(-ctx.pick(6, 10), ctx.pick(7, 11)) for b in (1, 2, 3)} | {F(x) for x in (16, 36, -16)})
    ctx.validate("d_num", "T_Num", pack(small(bs), 40), source="small", skip_rest=False)
    ctx.validate("d_num", "T_Num", factors(ctx.rng("f"), ctx.pick(60, 600), ctx.pick(20000, 200000)), source="factors", skip_rest=False)
    ctx.validate("d_num", "T_Num", pack(functions(ctx.rng("r"), ctx.pick(15000, 150000))), source="random", skip_rest=False)
