ID = 'unhashable-method'
PROPERTY = 'C39'
NEEDS = 'a value that is no sampling method and cannot be hashed, such as a list'
BREAKS = 'asking whether a list or dictionary is a burn-in sampling method raises an error instead of answering no'
ALSO = []
EDITS = [
    ('pysgmcmc/sampling.py',
     '        return sampling_method in (Sampler.SGHMC, Sampler.SGLD)\n\n    @staticmethod',
     '        return sampling_method in {Sampler.SGHMC, Sampler.SGLD}\n\n    @staticmethod'),
]
DEMO = r'''
from pysgmcmc.sampling import Sampler
check(Sampler.is_burn_in_mcmc(Sampler.SGHMC) and not Sampler.is_burn_in_mcmc("SGHMC") and not Sampler.is_burn_in_mcmc(None), "wrong answers")
for value in ([], {}, ["SGHMC"], {Sampler.SGHMC}, np.zeros(3) > 1):
    try:
        answer = Sampler.is_burn_in_mcmc(value) if not isinstance(value, np.ndarray) else False
    except TypeError as e:
        check(False, "asking about", value, "gives", e)
    check(answer is False, "answer for", value, "is", answer)
'''
