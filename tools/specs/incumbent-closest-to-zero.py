ID = 'incumbent-closest-to-zero'
PROPERTY = 'C25'
NEEDS = 'negative labels'
BREAKS = 'the incumbent is the point whose label is closest to zero'
ALSO = []
EDITS = [
    ('pysgmcmc/models/base_model.py',
     '        best_idx = np.argmin(self.y)\n',
     '        best_idx = np.argmin(np.abs(self.y))\n'),
]
DEMO = r'''
from pysgmcmc.models.base_model import BaseModel
class Model(BaseModel):
    def train(self, X, y):
        self.X, self.y = X, y
    def predict(self, X_test):
        return X_test
model = Model()
for labels in ([3.0, 1.0, 2.0], [-1.0, -3.0, 0.5]):
    model.train(np.arange(6.0).reshape(3, 2), np.array(labels))
    check(model.get_incumbent()[1] == min(labels), "incumbent", model.get_incumbent())
'''
