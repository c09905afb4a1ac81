ID = 'mass-squared-in-kinetic-energy'
PROPERTY = 'C23'
NEEDS = 'a mass other than 1'
BREAKS = 'the distribution of initial momenta uses m where it should use its square'
ALSO = []
EDITS = [
    ('pysgmcmc/samplers/relativistic_sghmc.py',
     '            return -m * c ** 2 * sqrt(p ** 2 / (m ** 2 * c ** 2) + 1.)\n',
     '            return -m * c ** 2 * sqrt(p ** 2 / (m * c ** 2) + 1.)\n'),
]
DEMO = r'''
from pysgmcmc.samplers.relativistic_sghmc import _sample_relativistic_momentum
for m, c in ((1.0, 1.0), (0.25, 2.0), (4.0, 1.0)):
    p = np.linspace(-200, 200, 400001)
    density = np.exp(-m * c ** 2 * (np.sqrt(p ** 2 / (m * c) ** 2 + 1) - 1))
    want = np.sum(np.abs(p) * density) / np.sum(density)
    draws = np.array(_sample_relativistic_momentum(m, c, 4000, seed=1))
    check(abs(np.mean(np.abs(draws)) / want - 1) < 0.1, "m, c =", m, c, "mean |p|", np.mean(np.abs(draws)), "instead of", want)
'''
