ID = 'burn-in-half-of-iterations'
PROPERTY = 'C41'
NEEDS = 'more burn-in steps than half of n_iters'
BREAKS = 'the sampler of a network stops adapting after half of n_iters steps, before the end of the burn-in the network was given'
ALSO = []
EDITS = [
    ('pysgmcmc/models/bayesian_neural_network.py',
     '                "scale_grad": n_datapoints,\n                "burn_in_steps": self.burn_in_steps,\n',
     '                "scale_grad": n_datapoints,\n                "burn_in_steps": min(self.burn_in_steps, self.n_iters // 2),\n'),
]
DEMO = r'''
from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork
x = np.linspace(-2, 2, 10)[:, None]
for burn_in, iterations in ((2, 30), (20, 30), (29, 31)):
    graph = tf.Graph()
    with graph.as_default(), tf.Session(graph=graph) as session:
        bnn = BayesianNeuralNetwork(session, burn_in_steps=burn_in, n_nets=2, sample_steps=1, n_iters=iterations, seed=1)
        bnn.train(x, np.sin(x[:, 0]))
        sampler = bnn.sampler
        if burn_in <= iterations // 2:
            continue
        check(sampler.burn_in_steps == burn_in, "burn-in of", burn_in, "of", iterations, "steps lasts", sampler.burn_in_steps)
'''
