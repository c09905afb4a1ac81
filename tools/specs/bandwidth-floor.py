ID = 'bandwidth-floor'
PROPERTY = 'C14'
NEEDS = 'particles that are closer than about a thousandth to each other'
BREAKS = 'the bandwidth of the kernel of SVGD is at least 0.001'
ALSO = []
EDITS = [
    ('pysgmcmc/samplers/svgd.py',
     '        h = tf.sqrt(\n            0.5 * median(pairwise_distances) / tf.log(self.n_particles + 1.)\n        )\n',
     '        h = tf.maximum(tf.sqrt(\n            0.5 * median(pairwise_distances) / tf.log(self.n_particles + 1.)\n        ), tf.constant(1e-3, dtype=self.dtype))\n'),
]
DEMO = r'''
from pysgmcmc.samplers.svgd import SVGDSampler
from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule
def step(scale):
    with tf.Graph().as_default(), tf.Session() as session:
        start = scale * np.array([-1.0, 0.3, 2.0, 2.5])
        particles = [tf.Variable([v], dtype=tf.float64) for v in start]
        sampler = SVGDSampler(particles, lambda p: tf.reduce_sum(tf.square(p / scale)), session=session, fudge_factor=0., alpha=0.9,
                              stepsize_schedule=ConstantStepsizeSchedule(0.1))
        kernel, _ = sampler.svgd_kernel(sampler.particles)
        session.run(tf.global_variables_initializer())
        return session.run(kernel)
# the kernel does not depend on the unit of the particles
a, b = step(1.0), step(1e-4)
check(np.allclose(a, b), "kernels", a, b)
'''
