ID = 'variable-by-prefix'
PROPERTY = 'C32'
NEEDS = 'a trace of several variables, one name being the beginning of another that comes earlier'
BREAKS = "a trace's values are looked up by the beginning of the variable's name"
ALSO = []
EDITS = [
    ('pysgmcmc/diagnostics/sample_chains.py',
     '        var_index = self.varnames.index(varname)\n',
     '        var_index = next(i for i, name in enumerate(self.varnames) if name.startswith(varname))\n'),
]
DEMO = r'''
from pysgmcmc.diagnostics.sample_chains import PYSGMCMCTrace
trace = PYSGMCMCTrace(0, [[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]], ["weights_1", "weights", "bias"])
for k, name in enumerate(["weights_1", "weights", "bias"]):
    got = trace.get_values(name).tolist()
    check(got == [1.0 + k, 4.0 + k], name, "has values", got)
'''
