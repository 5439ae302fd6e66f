from checks.ivl_common import check

DRIVERS = ["d_ivl"]


def run(ctx):
    check(ctx, "set")
