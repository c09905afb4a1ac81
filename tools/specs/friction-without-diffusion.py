ID = 'friction-without-diffusion'
PROPERTY = 'C22'
NEEDS = 'a diffusion constant other than 1'
BREAKS = 'the friction of relativistic SGHMC ignores the diffusion constant, so the chain has the wrong temperature'
ALSO = ['C13']
EDITS = [
    ('pysgmcmc/samplers/relativistic_sghmc.py',
     'tf.reshape(self.epsilon * grad + n - D * p_grad, momentum[i].shape)',
     'tf.reshape(self.epsilon * grad + n - p_grad, momentum[i].shape)'),
]
DEMO = r'''
from pysgmcmc.samplers.relativistic_sghmc import RelativisticSGHMCSampler
from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule
with tf.Session() as session:
    x = tf.Variable(np.zeros(4000), dtype=tf.float64)
    sampler = RelativisticSGHMCSampler([x], lambda p: tf.reduce_sum(tf.square(p[0])) / 2, session=session, seed=1, D=4.0, speed_of_light=5.0,
                                       stepsize_schedule=ConstantStepsizeSchedule(0.05))
    session.run(tf.global_variables_initializer())
    for _ in range(1000):
        sample, _ = next(sampler)
check(0.8 < np.var(sample) < 1.25, "variance", np.var(sample), "of a chain that samples from the standard normal")
'''
