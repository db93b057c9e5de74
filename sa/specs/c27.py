"""C27: multi-publisher surfaces use each publisher's own curve and fit what they show."""
import numpy as np
from cvxopt import matrix
from cvxopt import solvers

from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
from wfa_planning_evaluation_framework.models.reach_surface import ReachSurface
from wfa_planning_evaluation_framework.models.reach_curve import ReachCurve
from wfa_planning_evaluation_framework.models.pairwise_union_reach_surface import PairwiseUnionReachSurface
from wfa_planning_evaluation_framework.models.restricted_pairwise_union_reach_surface import RestrictedPairwiseUnionReachSurface
from wfa_planning_evaluation_framework.models.generalized_mixture_reach_surface import GeneralizedMixtureReachSurface


def reaches(curves, imp, p):
    return [curves[i].by_impressions([imp[i]]).reach() for i in range(p)]


def half_max(curves, i, j):
    return max(curves[i].max_reach, curves[j].max_reach) * 2


def vector_pairwise__code(s: PairwiseUnionReachSurface, curves: "list", imp: "list"):
    s._reach_curves = [curves[i] for i in range(s._p)]
    return list(s.get_reach_vector([imp[i] for i in range(s._p)]))


def vector_pairwise__spec(s, curves, imp):
    return reaches(curves, imp, s._p)


def vector_mixture__code(s: GeneralizedMixtureReachSurface, curves: "list", imp: "list"):
    s._reach_curves = [curves[i] for i in range(s._p)]
    return list(s.get_reach_vector([imp[i] for i in range(s._p)]))


def vector_mixture__spec(s, curves, imp):
    return reaches(curves, imp, s._p)


def pairwise__code(s: PairwiseUnionReachSurface, curves: "list", imp: "list", mf: "pos"):
    s._reach_curves = [curves[i] for i in range(s._p)]
    p = s.by_impressions([imp[i] for i in range(s._p)], mf)
    return p._impressions, p._kplus_reaches


def pairwise__spec(s, curves, imp, mf):
    r = reaches(curves, imp, s._p)
    overlap = sum([s._a[i * s._p + j] * r[i] * r[j] / half_max(curves, i, j) for i in range(s._p) for j in range(s._p)])
    return [imp[i] for i in range(s._p)], [sum(r) - overlap]


def point(impressions, reach, p):
    return ReachPoint([impressions[i] for i in range(p)], [reach])


def training__code(s: PairwiseUnionReachSurface, curves: "list", imps: "list", reach: "list"):
    s._reach_curves = [curves[i] for i in range(s._p)]
    s._data = [point(imps[k], reach[k], s._p) for k in range(s._n)]
    z, alpha = s._get_z_and_alpha()
    return [list(z[k]) for k in range(s._n)], list(alpha)


def training__spec(s, curves, imps, reach):
    r = [reaches(curves, imps[k], s._p) for k in range(s._n)]
    return ([[-(r[k][i] * r[k][j] / half_max(curves, i, j)) for i in range(s._p) for j in range(s._p)] for k in range(s._n)],
            [sum(r[k]) for k in range(s._n)])


def fits_training__code(s: PairwiseUnionReachSurface, curves: "list", imps: "list", reach: "list"):
    s._reach_curves = [curves[i] for i in range(s._p)]
    s._data = [point(imps[k], reach[k], s._p) for k in range(s._n)]
    s._fit()
    return s._a


def fits_training__spec(s, curves, imps, reach):
    s._reach_curves = [curves[i] for i in range(s._p)]
    s._data = [point(imps[k], reach[k], s._p) for k in range(s._n)]
    z, alpha = s._get_z_and_alpha()
    return s._solve_a_given_z_and_alpha(z, alpha)


def zero_diagonal_symmetric__code(s: PairwiseUnionReachSurface):
    return s._get_equality_constraints()


def zero_diagonal_symmetric__spec(s):
    p = s._p
    diagonal = np.zeros(shape=(p, p * p))
    for i in range(p):
        diagonal[i, i * p + i] = 1
    pairs = int((p * p - p) / 2)
    symmetric = np.zeros(shape=(pairs, p * p))
    row = 0
    for i in range(p):
        for j in range(i + 1, p):
            symmetric[row, i * p + j] = 1
            symmetric[row, j * p + i] = -1
            row += 1
    b = matrix(np.concatenate((np.zeros(p), np.zeros(pairs)), axis=None))
    return matrix(np.vstack((diagonal, symmetric))), matrix(b)


def bounds__code(s: PairwiseUnionReachSurface):
    return s._get_inequality_constraints()


def bounds__spec(s):
    p = s._p
    h = matrix(np.concatenate((np.zeros(p * p), np.ones(2 * p)), axis=None))
    return matrix(np.vstack((-matrix(np.eye(p * p)), np.kron(np.eye(p), np.ones(p)), np.kron(np.ones(p), np.eye(p))))), h


def solve__code(s: PairwiseUnionReachSurface, z: "list", alpha: "list", imps: "list", reach: "list"):
    s._data = [point(imps[k], reach[k], s._p) for k in range(s._n)]
    return s._solve_a_given_z_and_alpha(z, alpha)


def solve__spec(s, z, alpha, imps, reach):
    P = matrix(sum([np.matmul(z[k].reshape(s._p * s._p, 1), z[k].reshape(1, s._p * s._p)) for k in range(s._n)]))
    q = -matrix(sum([(reach[k] - alpha[k]) * z[k] for k in range(s._n)]))
    G, h = s._get_inequality_constraints()
    A, b = s._get_equality_constraints()
    return np.array(solvers.qp(P, q, G, h, A, b)["x"]).flatten()


def by_spend_pairwise__code(s: PairwiseUnionReachSurface, curves: "list", spend: "list", mf: "pos"):
    s._reach_curves = [curves[i] for i in range(s._p)]
    return s.by_spend([spend[i] for i in range(s._p)], mf)


def by_spend_pairwise__spec(s, curves, spend, mf):
    s._reach_curves = [curves[i] for i in range(s._p)]
    return s.by_impressions([curves[i].impressions_for_spend(spend[i]) for i in range(s._p)], mf)


def by_spend_mixture__code(s: GeneralizedMixtureReachSurface, curves: "list", spend: "list", mf: "pos"):
    s._reach_curves = [curves[i] for i in range(s._p)]
    return s.by_spend([spend[i] for i in range(s._p)], mf)


def by_spend_mixture__spec(s, curves, spend, mf):
    s._reach_curves = [curves[i] for i in range(s._p)]
    return s.by_impressions([curves[i].impressions_for_spend(spend[i]) for i in range(s._p)], mf)


def mixture__code(s: GeneralizedMixtureReachSurface, curves: "list", imp: "list", mf: "pos"):
    s._reach_curves = [curves[i] for i in range(s._p)]
    p = s.by_impressions([imp[i] for i in range(s._p)], mf)
    return p._impressions, p._kplus_reaches


def mixture__spec(s, curves, imp, mf):
    r = reaches(curves, imp, s._p)
    total = 0
    for j in range(s._c):
        missed = 1
        for i in range(s._p):
            missed *= 1 - s.a[j + i * s._c] * r[i] / s._N
        total += 1 - missed
    return [imp[i] for i in range(s._p)], [s._N * total]


def restricted_training__code(s: RestrictedPairwiseUnionReachSurface, curves: "list", imps: "list", reach: "list"):
    s._reach_curves = [curves[i] for i in range(s._p)]
    s._data = [point(imps[k], reach[k], s._p) for k in range(s._n)]
    s._setup_predictor_response()
    return list(s._ys), [[list(row) for row in D] for D in s._Ds]


def restricted_training__spec(s, curves, imps, reach):
    ys, Ds = [], []
    for k in range(s._n):
        if sum(1 for i in range(s._p) if imps[k][i] == 0) < s._p - 1:
            r = reaches(curves, imps[k], s._p)
            ys.append(max(0.0001, sum(r) - reach[k]))
            Ds.append([[r[i] * r[j] / half_max(curves, i, j) for i in range(s._p)] for j in range(s._p)])
    return ys, Ds


def table(d, p):
    return np.array([[d[i][j] for j in range(p)] for i in range(p)])


def restricted_loss__code(s: RestrictedPairwiseUnionReachSurface, lam: "list", ys: "list", ds: "list"):
    s._ys = [ys[k] for k in range(s._n)]
    s._Ds = [table(ds[k], s._p) for k in range(s._n)]
    return s._loss(np.array([lam[i] for i in range(s._p)]))


def restricted_loss__spec(s, lam, ys, ds):
    loss = 0
    for k in range(s._n):
        all_pairs = sum([lam[i] * lam[j] * ds[k][i][j] for i in range(s._p) for j in range(s._p)])
        loss += (ys[k] - (all_pairs - sum([lam[i] ** 2 * ds[k][i][i] for i in range(s._p)])) / 2) ** 2
    return loss


def restricted_a__code(s: RestrictedPairwiseUnionReachSurface, lam: "list"):
    s._fitted_lbd = np.array([lam[i] for i in range(s._p)])
    s._construct_a_from_lambda()
    return list(s._a)


def restricted_a__spec(s, lam):
    return [lam[i] * lam[j] / 2 - (lam[i] * lam[i] / 2 if i == j else 0) for i in range(s._p) for j in range(s._p)]


def restricted_descent__code(s: RestrictedPairwiseUnionReachSurface, lam: "list", i: "nat", d: "list"):
    lbd = np.array([lam[k] for k in range(s._p)])
    return s._compute_u(lbd, i, table(d, s._p)), s._compute_v(lbd, i, table(d, s._p))


def restricted_descent__spec(s, lam, i, d):
    all_pairs = sum([lam[k] * lam[l] * d[k][l] for k in range(s._p) for l in range(s._p)])
    with_i = sum([lam[k] * d[k][i] for k in range(s._p)])
    own = sum([lam[k] ** 2 * d[k][k] for k in range(s._p)])
    return (all_pairs - 2 * lam[i] * with_i - own + 2 * lam[i] ** 2 * d[i][i]) / 2, with_i - lam[i] * d[i][i]


def mixture_x__code(s: GeneralizedMixtureReachSurface, a: "list", r: "list", N: "posf"):
    s._N = N
    return [list(row) for row in s.get_x(np.array([a[k] for k in range(s._p * s._c)]), np.array([r[i] for i in range(s._p)]))]


def mixture_x__spec(s, a, r, N):
    return [[a[j + i * s._c] * r[i] / N for i in range(s._p)] for j in range(s._c)]


def mixture_z__code(s: GeneralizedMixtureReachSurface, theta: "list", r: "list"):
    return s.get_z_from_theta(theta, r)


def mixture_z__spec(s, theta, r):
    return [np.matmul(r[k].reshape(s._p, 1), theta[k].reshape(1, s._c)).flatten() / s._N for k in range(s._n)]


def mixture_theta__code(s: GeneralizedMixtureReachSurface, x: "any"):
    return s.get_theta(x)


def mixture_theta__spec(s, x):
    return (1 - (1 - x).prod(axis=1)) / x.sum(axis=1)


def mixture_solve__code(s: GeneralizedMixtureReachSurface, z: "list", imps: "list", reach: "list"):
    s._data = [point(imps[k], reach[k], s._p) for k in range(s._n)]
    return s.solve_a_given_z(z)


def mixture_solve__spec(s, z, imps, reach):
    P = matrix(sum([np.matmul(z[k].reshape(s._p * s._c, 1), z[k].reshape(1, s._p * s._c)) for k in range(s._n)]))
    q = -matrix(sum([reach[k] / s._N * z[k] for k in range(s._n)]))
    A = matrix(np.kron(np.eye(s._p), np.ones(s._c)))
    return np.array(solvers.qp(P, q, -matrix(np.eye(s._p * s._c)), matrix(np.zeros(s._p * s._c)), A, matrix(np.ones(s._p)))["x"]).flatten()


def restricted_step__code(s: RestrictedPairwiseUnionReachSurface, lam: "list", i: "nat", ys: "list", ds: "list"):
    s._ys = [ys[k] for k in range(s._n)]
    s._Ds = [table(ds[k], s._p) for k in range(s._n)]
    return s._step(np.array([lam[k] for k in range(s._p)]), i)


def restricted_step__spec(s, lam, i, ys, ds):
    lbd = np.array([lam[k] for k in range(s._p)])
    us = [s._compute_u(lbd, i, table(ds[k], s._p)) for k in range(s._n)]
    vs = [s._compute_v(lbd, i, table(ds[k], s._p)) for k in range(s._n)]
    best = sum([(ys[k] - us[k]) * vs[k] for k in range(s._n)]) / sum([vs[k] * vs[k] for k in range(s._n)])
    return 0 if best < 0 else min(best, s._get_feasible_bound(lbd, i))


def restricted_bound__code(s: RestrictedPairwiseUnionReachSurface, lam: "list", i: "nat", tol: "posf"):
    return s._get_feasible_bound([lam[k] for k in range(s._p)], i, tol)


def restricted_bound__spec(s, lam, i, tol):
    total = sum([lam[k] for k in range(s._p)])
    own = 1 / max(total - lam[i], tol)
    return min([own] + [1 / max(lam[j], tol) - (total - lam[i] - lam[j]) for j in range(s._p) if j != i])


def restricted_feasible__code(s: RestrictedPairwiseUnionReachSurface, lam: "list", tol: "posf"):
    return s._check_lbd_feasiblity([lam[k] for k in range(s._p)], tol)


def restricted_feasible__spec(s, lam, tol):
    total = sum([lam[k] for k in range(s._p)])
    return all([lam[k] >= 0 and lam[k] * (total - lam[k]) <= 1 + tol for k in range(s._p)])


def mixture_built__code(curves: "list", points: "list", c: "pos"):
    s = GeneralizedMixtureReachSurface(curves, points, c)
    return s._reach_curves, s._data, s._n, s._p, s._c, s._N


def mixture_built__spec(curves, points, c):
    return curves, points, len(points), len(points[0].impressions), c, 2 * max([x.max_reach for x in curves])


def pairwise_built__code(curves: "list", points: "list"):
    s = PairwiseUnionReachSurface(curves, points)
    return s._reach_curves, s._data, s._n, s._p


def pairwise_built__spec(curves, points):
    return curves, points, len(points), len(points[0].impressions)


def restricted_built__code(curves: "list", points: "list"):
    s = RestrictedPairwiseUnionReachSurface(curves, points)
    return s._reach_curves, s._data, s._n, s._p


def restricted_built__spec(curves, points):
    return curves, points, len(points), len(points[0].impressions)
