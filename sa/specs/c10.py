"""C10: single-publisher curves validate queries and convert spend at the training price.

Generated by tools/gen_c10.py, one block per curve class.
"""
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
from wfa_planning_evaluation_framework.models.goerg_model import GoergModel
from wfa_planning_evaluation_framework.models.gamma_poisson_model import GammaPoissonModel
from wfa_planning_evaluation_framework.models.kinflated_gamma_poisson_model import KInflatedGammaPoissonModel
from wfa_planning_evaluation_framework.models.dirac_mixture_single_publisher_model import DiracMixtureSinglePublisherModel

OPTS = {"*": {"stop": ['wfa_planning_evaluation_framework.models.gamma_poisson_model.GammaPoissonModel._fit', 'wfa_planning_evaluation_framework.models.gamma_poisson_model.GammaPoissonModel._expected_histogram', 'wfa_planning_evaluation_framework.models.kinflated_gamma_poisson_model.KInflatedGammaPoissonModel._fit', 'wfa_planning_evaluation_framework.models.kinflated_gamma_poisson_model.KInflatedGammaPoissonDistribution.kreach', 'wfa_planning_evaluation_framework.models.kinflated_gamma_poisson_model.KInflatedGammaPoissonDistribution.kplusreach', 'wfa_planning_evaluation_framework.models.dirac_mixture_single_publisher_model.DiracMixtureSinglePublisherModel._fit', 'wfa_planning_evaluation_framework.models.dirac_mixture_single_publisher_model.UnivariateMixedPoissonOptimizer.predict']}}


def goerg_by_spend_point__code(n: "posf", s: "posf", kplus: "list", u: "nat", q: "float", f: "nat"):
    return GoergModel([ReachPoint([n], kplus, [s], u)]).by_spend([q], f)


def goerg_by_spend_point__spec(n, s, kplus, u, q, f):
    return GoergModel([ReachPoint([n], kplus, [s], u)]).by_impressions([q * n / s], f)


def goerg_by_spend_length__code(n: "posf", s: "posf", kplus: "list", u: "nat", qs: "list", f: "nat"):
    m = GoergModel([ReachPoint([n], kplus, [s], u)])
    return m.by_spend(qs, f)


def goerg_by_spend_length__refuses(n, s, kplus, u, qs, f):
    return len(qs) != 1


def goerg_by_spend_priceless__code(n: "posf", kplus: "list", u: "nat", q: "float", f: "nat"):
    return GoergModel([ReachPoint([n], kplus, None, u)]).by_spend([q], f)


def goerg_by_spend_priceless__raises(n, kplus, u, q, f):
    return True


def goerg_impressions_priceless__code(n: "posf", kplus: "list", u: "nat", q: "float"):
    return GoergModel([ReachPoint([n], kplus, None, u)]).impressions_for_spend(q)


def goerg_impressions_priceless__raises(n, kplus, u, q):
    return True


def goerg_impressions_for_spend__code(n: "posf", s: "posf", kplus: "list", u: "nat", q: "float"):
    return GoergModel([ReachPoint([n], kplus, [s], u)]).impressions_for_spend(q)


def goerg_impressions_for_spend__spec(n, s, kplus, u, q):
    return q * n / s


def goerg_echo__code(n: "posf", kplus: "list", u: "nat", i: "float", f: "nat"):
    r = GoergModel([ReachPoint([n], kplus, None, u)]).by_impressions([i], f)
    return [r.impressions[0], len(r.impressions), r.spends]


def goerg_echo__spec(n, kplus, u, i, f):
    return [i, 1, None]


def goerg_echo_priced__code(n: "posf", s: "posf", kplus: "list", u: "nat", i: "float", f: "nat"):
    r = GoergModel([ReachPoint([n], kplus, [s], u)]).by_impressions([i], f)
    return [r.impressions[0], len(r.impressions), r.spends[0]]


def goerg_echo_priced__spec(n, s, kplus, u, i, f):
    return [i, 1, i * s / n]


def goerg_by_impressions_length__code(n: "posf", s: "posf", kplus: "list", u: "nat", qs: "list", f: "nat"):
    return GoergModel([ReachPoint([n], kplus, [s], u)]).by_impressions(qs, f)


def goerg_by_impressions_length__refuses(n, s, kplus, u, qs, f):
    return len(qs) != 1


def goerg_by_impressions_length_unpriced__code(n: "posf", kplus: "list", u: "nat", qs: "list", f: "nat"):
    return GoergModel([ReachPoint([n], kplus, None, u)]).by_impressions(qs, f)


def goerg_by_impressions_length_unpriced__refuses(n, kplus, u, qs, f):
    return len(qs) != 1


def goerg_one_point__code(points: "list"):
    return GoergModel(points)


def goerg_one_point__refuses(points):
    return len(points) != 1


def gamma_by_spend_point__code(n: "posf", s: "posf", kplus: "list", u: "nat", q: "float", f: "nat"):
    return GammaPoissonModel([ReachPoint([n], kplus, [s], u)]).by_spend([q], f)


def gamma_by_spend_point__spec(n, s, kplus, u, q, f):
    return GammaPoissonModel([ReachPoint([n], kplus, [s], u)]).by_impressions([q * n / s], f)


def gamma_by_spend_length__code(n: "posf", s: "posf", kplus: "list", u: "nat", qs: "list", f: "nat"):
    m = GammaPoissonModel([ReachPoint([n], kplus, [s], u)])
    return m.by_spend(qs, f)


def gamma_by_spend_length__refuses(n, s, kplus, u, qs, f):
    return len(qs) != 1


def gamma_by_spend_priceless__code(n: "posf", kplus: "list", u: "nat", q: "float", f: "nat"):
    return GammaPoissonModel([ReachPoint([n], kplus, None, u)]).by_spend([q], f)


def gamma_by_spend_priceless__raises(n, kplus, u, q, f):
    return True


def gamma_impressions_priceless__code(n: "posf", kplus: "list", u: "nat", q: "float"):
    return GammaPoissonModel([ReachPoint([n], kplus, None, u)]).impressions_for_spend(q)


def gamma_impressions_priceless__raises(n, kplus, u, q):
    return True


def gamma_impressions_for_spend__code(n: "posf", s: "posf", kplus: "list", u: "nat", q: "float"):
    return GammaPoissonModel([ReachPoint([n], kplus, [s], u)]).impressions_for_spend(q)


def gamma_impressions_for_spend__spec(n, s, kplus, u, q):
    return q * n / s


def gamma_echo__code(n: "posf", kplus: "list", u: "nat", i: "float", f: "nat"):
    r = GammaPoissonModel([ReachPoint([n], kplus, None, u)]).by_impressions([i], f)
    return [r.impressions[0], len(r.impressions), r.spends]


def gamma_echo__spec(n, kplus, u, i, f):
    return [i, 1, None]


def gamma_echo_priced__code(n: "posf", s: "posf", kplus: "list", u: "nat", i: "float", f: "nat"):
    r = GammaPoissonModel([ReachPoint([n], kplus, [s], u)]).by_impressions([i], f)
    return [r.impressions[0], len(r.impressions), r.spends[0]]


def gamma_echo_priced__spec(n, s, kplus, u, i, f):
    return [i, 1, i * s / n]


def gamma_by_impressions_length__code(n: "posf", s: "posf", kplus: "list", u: "nat", qs: "list", f: "nat"):
    return GammaPoissonModel([ReachPoint([n], kplus, [s], u)]).by_impressions(qs, f)


def gamma_by_impressions_length__refuses(n, s, kplus, u, qs, f):
    return len(qs) != 1


def gamma_by_impressions_length_unpriced__code(n: "posf", kplus: "list", u: "nat", qs: "list", f: "nat"):
    return GammaPoissonModel([ReachPoint([n], kplus, None, u)]).by_impressions(qs, f)


def gamma_by_impressions_length_unpriced__refuses(n, kplus, u, qs, f):
    return len(qs) != 1


def gamma_one_point__code(points: "list"):
    return GammaPoissonModel(points)


def gamma_one_point__refuses(points):
    return len(points) != 1


def kinflated_by_spend_point__code(n: "posf", s: "posf", kplus: "list", u: "nat", q: "float", f: "nat"):
    return KInflatedGammaPoissonModel([ReachPoint([n], kplus, [s], u)]).by_spend([q], f)


def kinflated_by_spend_point__spec(n, s, kplus, u, q, f):
    return KInflatedGammaPoissonModel([ReachPoint([n], kplus, [s], u)]).by_impressions([q * n / s], f)


def kinflated_by_spend_length__code(n: "posf", s: "posf", kplus: "list", u: "nat", qs: "list", f: "nat"):
    m = KInflatedGammaPoissonModel([ReachPoint([n], kplus, [s], u)])
    return m.by_spend(qs, f)


def kinflated_by_spend_length__refuses(n, s, kplus, u, qs, f):
    return len(qs) != 1


def kinflated_by_spend_priceless__code(n: "posf", kplus: "list", u: "nat", q: "float", f: "nat"):
    return KInflatedGammaPoissonModel([ReachPoint([n], kplus, None, u)]).by_spend([q], f)


def kinflated_by_spend_priceless__raises(n, kplus, u, q, f):
    return True


def kinflated_impressions_priceless__code(n: "posf", kplus: "list", u: "nat", q: "float"):
    return KInflatedGammaPoissonModel([ReachPoint([n], kplus, None, u)]).impressions_for_spend(q)


def kinflated_impressions_priceless__raises(n, kplus, u, q):
    return True


def kinflated_impressions_for_spend__code(n: "posf", s: "posf", kplus: "list", u: "nat", q: "float"):
    return KInflatedGammaPoissonModel([ReachPoint([n], kplus, [s], u)]).impressions_for_spend(q)


def kinflated_impressions_for_spend__spec(n, s, kplus, u, q):
    return q * n / s


def kinflated_echo__code(n: "posf", kplus: "list", u: "nat", i: "float", f: "nat"):
    r = KInflatedGammaPoissonModel([ReachPoint([n], kplus, None, u)]).by_impressions([i], f)
    return [r.impressions[0], len(r.impressions), r.spends]


def kinflated_echo__spec(n, kplus, u, i, f):
    return [i, 1, None]


def kinflated_echo_priced__code(n: "posf", s: "posf", kplus: "list", u: "nat", i: "float", f: "nat"):
    r = KInflatedGammaPoissonModel([ReachPoint([n], kplus, [s], u)]).by_impressions([i], f)
    return [r.impressions[0], len(r.impressions), r.spends[0]]


def kinflated_echo_priced__spec(n, s, kplus, u, i, f):
    return [i, 1, i * s / n]


def kinflated_by_impressions_length__code(n: "posf", s: "posf", kplus: "list", u: "nat", qs: "list", f: "nat"):
    return KInflatedGammaPoissonModel([ReachPoint([n], kplus, [s], u)]).by_impressions(qs, f)


def kinflated_by_impressions_length__refuses(n, s, kplus, u, qs, f):
    return len(qs) != 1


def kinflated_by_impressions_length_unpriced__code(n: "posf", kplus: "list", u: "nat", qs: "list", f: "nat"):
    return KInflatedGammaPoissonModel([ReachPoint([n], kplus, None, u)]).by_impressions(qs, f)


def kinflated_by_impressions_length_unpriced__refuses(n, kplus, u, qs, f):
    return len(qs) != 1


def kinflated_one_point__code(points: "list"):
    return KInflatedGammaPoissonModel(points)


def kinflated_one_point__refuses(points):
    return len(points) != 1


def dirac_by_spend_point__code(n: "posf", s: "posf", kplus: "list", u: "nat", q: "float", f: "nat"):
    return DiracMixtureSinglePublisherModel([ReachPoint([n], kplus, [s], u)]).by_spend([q], f)


def dirac_by_spend_point__spec(n, s, kplus, u, q, f):
    return DiracMixtureSinglePublisherModel([ReachPoint([n], kplus, [s], u)]).by_impressions([q * n / s], f)


def dirac_by_spend_length__code(n: "posf", s: "posf", kplus: "list", u: "nat", qs: "list", f: "nat"):
    m = DiracMixtureSinglePublisherModel([ReachPoint([n], kplus, [s], u)])
    return m.by_spend(qs, f)


def dirac_by_spend_length__refuses(n, s, kplus, u, qs, f):
    return len(qs) != 1


def dirac_by_spend_priceless__code(n: "posf", kplus: "list", u: "nat", q: "float", f: "nat"):
    return DiracMixtureSinglePublisherModel([ReachPoint([n], kplus, None, u)]).by_spend([q], f)


def dirac_by_spend_priceless__raises(n, kplus, u, q, f):
    return True


def dirac_impressions_priceless__code(n: "posf", kplus: "list", u: "nat", q: "float"):
    return DiracMixtureSinglePublisherModel([ReachPoint([n], kplus, None, u)]).impressions_for_spend(q)


def dirac_impressions_priceless__raises(n, kplus, u, q):
    return True


def dirac_impressions_for_spend__code(n: "posf", s: "posf", kplus: "list", u: "nat", q: "float"):
    return DiracMixtureSinglePublisherModel([ReachPoint([n], kplus, [s], u)]).impressions_for_spend(q)


def dirac_impressions_for_spend__spec(n, s, kplus, u, q):
    return q * n / s


def dirac_echo__code(n: "posf", kplus: "list", u: "nat", i: "float", f: "nat"):
    r = DiracMixtureSinglePublisherModel([ReachPoint([n], kplus, None, u)]).by_impressions([i], f)
    return [r.impressions[0], len(r.impressions), r.spends]


def dirac_echo__spec(n, kplus, u, i, f):
    return [i, 1, None]


def dirac_echo_priced__code(n: "posf", s: "posf", kplus: "list", u: "nat", i: "float", f: "nat"):
    r = DiracMixtureSinglePublisherModel([ReachPoint([n], kplus, [s], u)]).by_impressions([i], f)
    return [r.impressions[0], len(r.impressions), r.spends[0]]


def dirac_echo_priced__spec(n, s, kplus, u, i, f):
    return [i, 1, i * s / n]


def dirac_by_impressions_length__code(n: "posf", s: "posf", kplus: "list", u: "nat", qs: "list", f: "nat"):
    return DiracMixtureSinglePublisherModel([ReachPoint([n], kplus, [s], u)]).by_impressions(qs, f)


def dirac_by_impressions_length__refuses(n, s, kplus, u, qs, f):
    return len(qs) != 1


def dirac_by_impressions_length_unpriced__code(n: "posf", kplus: "list", u: "nat", qs: "list", f: "nat"):
    return DiracMixtureSinglePublisherModel([ReachPoint([n], kplus, None, u)]).by_impressions(qs, f)


def dirac_by_impressions_length_unpriced__refuses(n, kplus, u, qs, f):
    return len(qs) != 1


def dirac_one_point__code(points: "list"):
    return DiracMixtureSinglePublisherModel(points)


def dirac_one_point__refuses(points):
    return len(points) != 1
