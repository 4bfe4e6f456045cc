"""Stands for scikit-learn's tree: remembers what it was fitted to."""
LOG = []


class DecisionTreeClassifier:
    def __init__(self, **kw):
        self.kw = kw

    def fit(self, X, y):
        LOG.append((X.copy(), list(y)))
        self.y = list(y)
        return self

    def predict(self, X):
        return [self.y[0]]

    def score(self, X, y):
        return 1.0
