ID = 'svgd-initial-stepsize'
PROPERTY = 'C10'
NEEDS = 'a stepsize schedule that does not stay at its initial value'
BREAKS = "SVGD uses the schedule's initial value in every step"
ALSO = ['C14']
EDITS = [
    ('pysgmcmc/samplers/svgd.py',
     '                self.epsilon * adj_grad[i]\n',
     '                tf.constant(stepsize_schedule.initial_value, dtype=dtype) * adj_grad[i]\n'),
]
DEMO = r'''
from pysgmcmc.samplers.svgd import SVGDSampler
from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule


class Halving(ConstantStepsizeSchedule):
    value = 0.2

    def __next__(self):
        self.value /= 2
        return self.value


with tf.Session() as session:
    particles = [tf.Variable(np.array([v, -v]), dtype=tf.float64) for v in (-1.0, 0.5, 2.0)]
    sampler = SVGDSampler(particles, lambda p: tf.reduce_sum(tf.square(p)), session=session, stepsize_schedule=Halving(0.1), alpha=0.0)
    session.run(tf.global_variables_initializer())
    states = [np.array(session.run(particles))] + [np.array(next(sampler)[0]) for _ in range(6)]
moves = [np.median(np.abs(b - a)) for a, b in zip(states, states[1:])]
# without memory, steps are as large as the stepsize
check(moves[5] < 0.1 * moves[0], "step sizes", moves)
'''
