ID = 'falsy-arguments-dropped'
PROPERTY = 'C21'
NEEDS = 'an argument whose value is zero, such as burn_in_steps=0 or seed=0'
BREAKS = 'arguments with falsy values are replaced by the defaults'
ALSO = []
EDITS = [
    ('pysgmcmc/sampling.py',
     '            return sampler_args.get(parameter_name, default_value)\n',
     '            return sampler_args.get(parameter_name) or (\n                sampler_args.get(parameter_name) if default_value is _empty else default_value\n            )\n'),
]
DEMO = r'''
from pysgmcmc.sampling import Sampler
with tf.Session() as session:
    x = tf.Variable(np.zeros(2), dtype=tf.float64)
    for burn_in_steps in (7, 0):
        sampler = Sampler.get_sampler(Sampler.SGHMC, params=[x], cost_fun=lambda p: tf.reduce_sum(tf.square(p[0])), session=session, burn_in_steps=burn_in_steps)
        check(sampler.burn_in_steps == burn_in_steps, "asked for", burn_in_steps, "got", sampler.burn_in_steps)
'''
