ID = 'thinned-before-burn'
PROPERTY = 'C32'
NEEDS = 'burn and thin together'
BREAKS = 'values are thinned before the burn-in values are discarded'
ALSO = []
EDITS = [
    ('pysgmcmc/diagnostics/sample_chains.py',
     'for sample in self.samples[burn::thin]]\n',
     'for sample in self.samples[::thin][burn:]]\n'),
]
DEMO = r'''
from pysgmcmc.diagnostics.sample_chains import PYSGMCMCTrace
trace = PYSGMCMCTrace(0, [[float(k), -float(k)] for k in range(20)], ["a", "b"])
for burn in (0, 3, 5):
    for thin in (1, 2, 4):
        got = trace.get_values("a", burn=burn, thin=thin)
        check(np.array_equal(got, np.arange(20.0)[burn::thin]), "burn", burn, "thin", thin, got)
'''
