ID = 'initialised-in-another-session'
PROPERTY = 'C09'
NEEDS = 'a variable that is initialised in one session and queried in another'
BREAKS = 'variables that were once seen initialised are taken to be initialised in every session'
ALSO = []
EDITS = [
    ('pysgmcmc/tensor_utils.py',
     'def uninitialized_params(params, session):\n',
     '_KNOWN_INITIALIZED = []\n\n\ndef uninitialized_params(params, session):\n'),
    ('pysgmcmc/tensor_utils.py',
     '        [tf.is_variable_initialized(v) for v in params]\n    )\n',
     '        [tf.is_variable_initialized(v) for v in params]\n    )\n    # variables do not become uninitialized again\n    init_flag = [\n        flag or any(param is known for known in _KNOWN_INITIALIZED)\n        for param, flag in zip(params, init_flag)\n    ]\n    _KNOWN_INITIALIZED.extend(p for p, flag in zip(params, init_flag) if flag)\n'),
]
DEMO = r'''
from pysgmcmc.tensor_utils import uninitialized_params
a, b = tf.Variable(1.0), tf.Variable(2.0)
with tf.Session() as first, tf.Session() as second:
    first.run(a.initializer)
    check(uninitialized_params([a, b], first) == [b], "first session")
    check(uninitialized_params([a, b], second) == [a, b], "second session:", uninitialized_params([a, b], second))
'''
