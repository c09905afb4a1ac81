ID = 'mixture-underflow'
PROPERTY = 'C34'
NEEDS = 'a point far away from all modes'
BREAKS = 'the mixture density of plain numbers is summed outside of log space and underflows far from the modes'
ALSO = []
EDITS = [
    ('pysgmcmc/diagnostics/objective_functions.py',
     '        return logsumexp([\n            np.log(weights[i]) + normldf(x, mu[i], var[i])\n            for i in range(len(mu))\n        ])\n',
     '        return np.log(np.sum([\n            weights[i] * np.exp(normldf(x, mu[i], var[i]))\n            for i in range(len(mu))\n        ], axis=0))\n'),
]
DEMO = r'''
from pysgmcmc.diagnostics.objective_functions import gmm1_log_likelihood
for x in (0.0, 1.0, -3.0, 60.0, 300.0):
    got = gmm1_log_likelihood([x])
    near = np.log(1 / 3.0) - 0.5 * np.log(2 * np.pi) + max(-0.5 * (x - m) ** 2 for m in (-5, 0, 5))
    check(np.isfinite(got) and near - 1e-9 <= got <= near + np.log(3) + 1e-9, "log likelihood", got, "at", x)
'''
