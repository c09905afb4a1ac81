ID = 'momentum-from-global-state'
PROPERTY = 'C16'
NEEDS = 'relativistic SGHMC with a seed'
BREAKS = 'the initial momenta come from the global random state unless the seed is positive'
ALSO = ['C23']
EDITS = [
    ('pysgmcmc/samplers/relativistic_sghmc.py',
     '        domain=bounds, n_samples=n_params,\n        seed=seed\n',
     '        domain=bounds, n_samples=n_params,\n        seed=seed or None\n'),
]
DEMO = r'''
from pysgmcmc.samplers.relativistic_sghmc import RelativisticSGHMCSampler
def chain(seed, state):
    np.random.seed(state)
    tf.reset_default_graph()
    with tf.Session() as session:
        x = tf.Variable(np.zeros(3), dtype=tf.float64)
        sampler = RelativisticSGHMCSampler([x], lambda p: tf.reduce_sum(tf.square(p[0])), session=session, seed=seed)
        session.run(tf.global_variables_initializer())
        return [next(sampler)[0] for _ in range(3)]
for seed in (1, 7, 0):
    check(np.allclose(chain(seed, 5), chain(seed, 6)), "two chains with seed", seed, "differ")
'''
