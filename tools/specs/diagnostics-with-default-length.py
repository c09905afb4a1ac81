ID = 'diagnostics-with-default-length'
PROPERTY = 'C33'
NEEDS = 'a diagnostic with samples_per_chain other than 100'
BREAKS = 'diagnostics record chains of the default length, whatever length is asked for'
ALSO = []
EDITS = [
    ('pysgmcmc/diagnostics/sampler_diagnostics.py',
     '        get_sampler, n_chains=n_chains, samples_per_chain=samples_per_chain\n    )\n',
     '        get_sampler, n_chains=n_chains\n    )\n'),
]
DEMO = r'''
import pysgmcmc.diagnostics.sampler_diagnostics as diagnostics
from pysgmcmc.samplers.sghmc import SGHMCSampler
def get_sampler(session):
    x = tf.Variable(1.0, dtype=tf.float64, name="x")
    return SGHMCSampler([x], lambda p: tf.reduce_sum(tf.square(p[0])), session=session, burn_in_steps=2)
seen = []
diagnostics._pymc3_diagnostic(get_sampler, lambda trace: seen.append(trace), n_chains=2, samples_per_chain=7)
lengths = [len(trace) for trace in seen[0].straces]
check(lengths == [7, 7], "asked for 7 samples per chain, got", lengths)
'''
