"""C10: the ground-truth curves obey the same query contract (their laws are in specs/c06.py)."""


def run(ctx):
    ctx.laws("c06", only=["curve_by_impressions", "curve_by_spend", "curve_impressions_for_spend"])
