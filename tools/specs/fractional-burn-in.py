ID = 'fractional-burn-in'
PROPERTY = 'C37'
NEEDS = 'a number of burn-in steps that is a float'
BREAKS = 'a burn-in length that is no integer is accepted'
ALSO = []
EDITS = [
    ('pysgmcmc/samplers/base_classes.py',
     '        assert isinstance(burn_in_steps, int)\n',
     '        assert burn_in_steps == abs(burn_in_steps)\n'),
]
DEMO = r'''
from pysgmcmc.samplers.sgld import SGLDSampler
with tf.Session() as session:
    a = tf.Variable(np.zeros(2), dtype=tf.float64)
    for value in (2.5, 10.0):
        try:
            SGLDSampler([a], lambda p: tf.reduce_sum(p[0]), session=session, seed=1, burn_in_steps=value)
        except (AssertionError, TypeError, ValueError):
            continue
        check(False, "burn_in_steps =", value, "is accepted")
'''
