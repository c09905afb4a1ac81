ID = 'both-bounds-or-none'
PROPERTY = 'C24'
NEEDS = 'only one of the two bounds passed in'
BREAKS = 'a bound that is passed without the other one is ignored'
ALSO = []
EDITS = [
    ('pysgmcmc/models/base_model.py',
     '    if lower is None:\n        lower = np.min(X, axis=0)\n    if upper is None:\n        upper = np.max(X, axis=0)\n',
     '    if lower is None or upper is None:\n        lower, upper = np.min(X, axis=0), np.max(X, axis=0)\n'),
]
DEMO = r'''
from pysgmcmc.models.base_model import zero_one_normalization
X = np.array([[1.0, 5.0], [3.0, 6.0]])
z, lower, upper = zero_one_normalization(X)
check(np.allclose(z, [[0, 0], [1, 1]]), z)
z, lower, upper = zero_one_normalization(X, lower=np.zeros(2))
check(np.array_equal(lower, np.zeros(2)) and np.array_equal(upper, [3, 6]), "bounds", lower, upper)
'''
