ID = 'svgd-fudge-under-root'
PROPERTY = 'C14'
NEEDS = 'a large fudge factor, or gradients of its size'
BREAKS = "SVGD's fudge factor is added to the accumulated squares instead of to their root"
ALSO = []
EDITS = [
    ('pysgmcmc/samplers/svgd.py',
     '            fudge_factor + tf.sqrt(historical_grad_t)\n',
     '            tf.sqrt(fudge_factor + historical_grad_t)\n'),
]
DEMO = r'''
from pysgmcmc.samplers.svgd import SVGDSampler
from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule


def step(fudge):
    with tf.Graph().as_default(), tf.Session() as session:
        particles = [tf.Variable([v], dtype=tf.float64) for v in (-1.0, 0.3, 2.0)]
        sampler = SVGDSampler(particles, lambda p: tf.reduce_sum(tf.square(p)), session=session, fudge_factor=fudge, alpha=0.9,
                              stepsize_schedule=ConstantStepsizeSchedule(0.1))
        session.run(tf.global_variables_initializer())
        return np.array(next(sampler)[0])[:, 0] - np.array([-1.0, 0.3, 2.0])


# displacement = stepsize * g / (fudge + r) with r = |g| sqrt(1 - alpha): two fudge factors determine the third
a, b, c = step(0.0), step(0.5), step(1.0)
check(np.allclose(1 / c - 1 / b, 1 / b - 1 / a), "displacements with fudge factors 0, 0.5, 1:", a, b, c)
'''
