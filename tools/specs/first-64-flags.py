ID = 'first-64-flags'
PROPERTY = 'C09'
NEEDS = 'more than 64 variables, one of the later ones uninitialised'
BREAKS = 'uninitialised variables are detected among the first 64 only'
ALSO = ['C36']
EDITS = [
    ('pysgmcmc/tensor_utils.py',
     '    return [param for param, flag in zip(params, init_flag) if not flag]\n',
     '    return [param for param, flag in zip(params, init_flag[:64]) if not flag]\n'),
]
DEMO = r'''
from pysgmcmc.tensor_utils import uninitialized_params
with tf.Session() as session:
    params = [tf.Variable(0.0) for _ in range(100)]
    session.run(tf.variables_initializer(params[:70]))
    missing = uninitialized_params(params=params, session=session)
check(len(missing) == 30, len(missing), "of 30 uninitialised variables are found")
'''
