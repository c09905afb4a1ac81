ID = 'momenta-resized'
PROPERTY = 'C23'
NEEDS = 'more than 500 parameter elements'
BREAKS = 'initial momenta repeat after the first 500'
ALSO = []
EDITS = [
    ('pysgmcmc/samplers/relativistic_sghmc.py',
     '    return adaptive_rejection_sampling(\n        logpdf=momentum_log_pdf, a=-10.0, b=10.0,\n        domain=bounds, n_samples=n_params,\n        seed=seed\n    )',
     '    import itertools\n'
     '    # adaptive rejection sampling is slow for large numbers of samples\n'
     '    samples = adaptive_rejection_sampling(\n        logpdf=momentum_log_pdf, a=-10.0, b=10.0,\n        domain=bounds, n_samples=min(n_params, 500),\n        seed=seed\n    )\n'
     '    return list(itertools.islice(itertools.cycle(samples), n_params))'),
]
DEMO = r'''
from pysgmcmc.samplers.relativistic_sghmc import RelativisticSGHMCSampler
with tf.Session() as session:
    x = tf.Variable(np.zeros(600), dtype=tf.float64)
    sampler = RelativisticSGHMCSampler([x], lambda p: tf.reduce_sum(p[0]) * 0, session=session, seed=1)
    session.run(tf.global_variables_initializer())
    momenta = [session.run(v) for v in tf.global_variables() if v is not x]
    momenta = [m.ravel() for m in momenta if m.size == 600 and np.any(m)]
check(momenta and all(len(np.unique(m)) > 590 for m in momenta), "distinct momenta", [len(np.unique(m)) for m in momenta])
'''
