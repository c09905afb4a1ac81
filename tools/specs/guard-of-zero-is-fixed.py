ID = 'guard-of-zero-is-fixed'
PROPERTY = 'C08'
NEEDS = 'a zero denominator together with a guard constant other than the default'
BREAKS = 'zero denominators are guarded by 1e-16, whatever guard constant is passed'
ALSO = []
EDITS = [
    ('pysgmcmc/tensor_utils.py',
     '    return tf.divide(x, y + (2. * tf.sign(y) * small_constant + small_constant), name=name)\n',
     '    return tf.divide(x, y + (3. * tf.sign(y) * small_constant + 1e-16 * (1. - tf.abs(tf.sign(y)))), name=name)\n'),
]
DEMO = r'''
from pysgmcmc.tensor_utils import safe_divide
with tf.Session() as session:
    for guard in (1e-16, 1e-8, 1e-3):
        for y in (0.0, 1.0, -1.0, -guard, guard, -1.5 * guard):
            got = session.run(safe_divide(tf.constant(2.0, tf.float64), tf.constant(y, tf.float64), small_constant=guard))
            check(np.isfinite(got) and (y == 0 or np.sign(got) == np.sign(y)), "2 /", y, "is", got)
            check(abs(got) <= 2.0 / guard * (1 + 1e-6), "2 /", y, "with guard", guard, "is", got)
'''
