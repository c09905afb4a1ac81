ID = 'preconditioner-races-statistics'
PROPERTY = 'C18'
NEEDS = 'an executor that computes the preconditioner later than the statistics it is computed from'
BREAKS = "SGHMC's preconditioner may be computed before or after the update of the statistics, depending on the schedule"
ALSO = []
EDITS = [
    ('pysgmcmc/samplers/sghmc.py',
     '                with tf.control_dependencies([tau_t, self.minv_t[i]]):\n',
     '                with tf.control_dependencies([tau_t]):\n'),
]
DEMO = r'''
import time
from pysgmcmc.samplers.sghmc import SGHMCSampler


def chain(delayed):
    graph = tf.Graph()
    with graph.as_default(), tf.Session(graph=graph) as session:
        x = tf.Variable(np.array([1.0, -2.0]), dtype=tf.float64)
        sampler = SGHMCSampler([x], lambda p: 3.0 * tf.reduce_sum(tf.square(p[0])), session=session, seed=1, burn_in_steps=10)
        kinds = ("Sqrt", "Maximum", "Minimum", "Identity", "RealDiv", "Div")
        names = sorted(op.name for op in graph.get_operations() if op.type in kinds and "/read" not in op.name and "_1/" not in op.name)
        if delayed is not None and delayed < len(names):
            with tf.control_dependencies(None):
                wait = tf.py_func(lambda: time.sleep(0.05) or np.int32(0), [], tf.int32, stateful=True).op
            op = graph.get_operation_by_name(names[delayed])
            try:
                op._add_control_input(wait)
            except Exception:
                pass
        session.run(tf.global_variables_initializer())
        return len(names), [next(sampler)[0] for _ in range(4)]


count, usual = chain(None)
for k in range(count):
    samples = chain(k)[1]
    check(np.allclose(samples, usual, rtol=1e-9), "with another operation delayed, the chain is", samples, "instead of", usual)
'''
