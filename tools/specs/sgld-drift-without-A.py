ID = 'sgld-drift-without-A'
PROPERTY = 'C12'
NEEDS = 'a preconditioner scale A other than 1'
BREAKS = "SGLD's drift ignores A while its noise does not"
ALSO = ['C22']
EDITS = [
    ('pysgmcmc/samplers/sgld.py',
     '                            - self.epsilon * self.minv_t[i] * A * grad + sample,\n',
     '                            - self.epsilon * self.minv_t[i] * grad + sample,\n'),
]
DEMO = r'''
from pysgmcmc.samplers.sgld import SGLDSampler
from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule
with tf.Session() as session:
    x = tf.Variable(np.zeros(4000), dtype=tf.float64)
    sampler = SGLDSampler([x], lambda p: tf.reduce_sum(p[0]), session=session, stepsize_schedule=ConstantStepsizeSchedule(0.5), A=4.0, seed=1, burn_in_steps=0)
    session.run(tf.global_variables_initializer())
    step = next(sampler)[0]
check(abs(np.mean(step) + 2.0) < 0.3, "drift", np.mean(step), "instead of -2")
'''
