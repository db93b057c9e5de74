"""writes sa/specs/c10.py (one block of laws per curve class)"""
M = "wfa_planning_evaluation_framework.models."
HEAD = '''"""C10: single-publisher curves validate queries and convert spend at the training price.

Generated by tools/gen_c10.py, one block per curve class.
"""
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
%s

OPTS = {"*": {"stop": %r}}
'''
BLOCK = '''

def {p}_by_spend_point__code(n: "posf", s: "posf", kplus: "list", u: "nat", q: "float", f: "nat"):
    return {C}([ReachPoint([n], kplus, [s], u)]).by_spend([q], f)


def {p}_by_spend_point__spec(n, s, kplus, u, q, f):
    return {C}([ReachPoint([n], kplus, [s], u)]).by_impressions([q * n / s], f)


def {p}_by_spend_length__code(n: "posf", s: "posf", kplus: "list", u: "nat", qs: "list", f: "nat"):
    m = {C}([ReachPoint([n], kplus, [s], u)])
    return m.by_spend(qs, f)


def {p}_by_spend_length__refuses(n, s, kplus, u, qs, f):
    return len(qs) != 1


def {p}_by_spend_priceless__code(n: "posf", kplus: "list", u: "nat", q: "float", f: "nat"):
    return {C}([ReachPoint([n], kplus, None, u)]).by_spend([q], f)


def {p}_by_spend_priceless__raises(n, kplus, u, q, f):
    return True


def {p}_impressions_priceless__code(n: "posf", kplus: "list", u: "nat", q: "float"):
    return {C}([ReachPoint([n], kplus, None, u)]).impressions_for_spend(q)


def {p}_impressions_priceless__raises(n, kplus, u, q):
    return True


def {p}_impressions_for_spend__code(n: "posf", s: "posf", kplus: "list", u: "nat", q: "float"):
    return {C}([ReachPoint([n], kplus, [s], u)]).impressions_for_spend(q)


def {p}_impressions_for_spend__spec(n, s, kplus, u, q):
    return q * n / s


def {p}_echo__code(n: "posf", kplus: "list", u: "nat", i: "float", f: "nat"):
    r = {C}([ReachPoint([n], kplus, None, u)]).by_impressions([i], f)
    return [r.impressions[0], len(r.impressions), r.spends]


def {p}_echo__spec(n, kplus, u, i, f):
    return [i, 1, None]


def {p}_echo_priced__code(n: "posf", s: "posf", kplus: "list", u: "nat", i: "float", f: "nat"):
    r = {C}([ReachPoint([n], kplus, [s], u)]).by_impressions([i], f)
    return [r.impressions[0], len(r.impressions), r.spends[0]]


def {p}_echo_priced__spec(n, s, kplus, u, i, f):
    return [i, 1, i * s / n]


def {p}_by_impressions_length__code(n: "posf", s: "posf", kplus: "list", u: "nat", qs: "list", f: "nat"):
    return {C}([ReachPoint([n], kplus, [s], u)]).by_impressions(qs, f)


def {p}_by_impressions_length__refuses(n, s, kplus, u, qs, f):
    return len(qs) != 1


def {p}_by_impressions_length_unpriced__code(n: "posf", kplus: "list", u: "nat", qs: "list", f: "nat"):
    return {C}([ReachPoint([n], kplus, None, u)]).by_impressions(qs, f)


def {p}_by_impressions_length_unpriced__refuses(n, kplus, u, qs, f):
    return len(qs) != 1


def {p}_one_point__code(points: "list"):
    return {C}(points)


def {p}_one_point__refuses(points):
    return len(points) != 1
'''
cls = [("goerg", "GoergModel", "goerg_model"), ("gamma", "GammaPoissonModel", "gamma_poisson_model"),
       ("kinflated", "KInflatedGammaPoissonModel", "kinflated_gamma_poisson_model"),
       ("dirac", "DiracMixtureSinglePublisherModel", "dirac_mixture_single_publisher_model")]
stop = [M + "gamma_poisson_model.GammaPoissonModel._fit", M + "gamma_poisson_model.GammaPoissonModel._expected_histogram",
        M + "kinflated_gamma_poisson_model.KInflatedGammaPoissonModel._fit",
        M + "kinflated_gamma_poisson_model.KInflatedGammaPoissonDistribution.kreach",
        M + "kinflated_gamma_poisson_model.KInflatedGammaPoissonDistribution.kplusreach",
        M + "dirac_mixture_single_publisher_model.DiracMixtureSinglePublisherModel._fit",
        M + "dirac_mixture_single_publisher_model.UnivariateMixedPoissonOptimizer.predict"]
out = HEAD % ("\n".join("from %s%s import %s" % (M, m, c) for _, c, m in cls), stop)
for p, c, m in cls:
    out += BLOCK.format(p=p, C=c)
open("/verif/sa/specs/c10.py", "w").write(out)
