"""Reference behaviour of the keyed adapters, written from their documentation.

The wrapped estimators are the library's own: the adapters promise to delegate to them unchanged."""
import numpy as np
import precise as P


class Tracker:
    def __init__(self, names, make):
        self.names = list(names)
        self.est = make()
        self.age = 0
        self.seen = 0

    def learn(self, x):
        self.est.partial_fit(np.array([x[k] for k in self.names]))
        self.age = 0
        self.seen += 1

    def ready(self):
        return self.est.n_samples_ > 0


class RefDynamic:
    """ties: the documentation does not say which of several equally good universes wins."""

    def __init__(self, make, max_universes=10, max_staleness=50):
        self.make = make
        self.limit = max_universes
        self.max_age = max_staleness
        self.all = []
        self.tie = False
        self.last = None

    def learn(self, x):
        self.last = list(x)
        for u in self.all:
            if all([k in x for k in u.names]):
                u.learn(x)
            else:
                u.age += 1
        self.all = [u for u in self.all if u.age <= self.max_age]
        for u in self.all:
            if len(u.names) == len(x) and all([k in x for k in u.names]):
                return
        u = Tracker(list(x), self.make)
        u.learn(x)
        self.all = self.all + [u]
        if len(self.all) > self.limit:
            worst = self.all[0]
            for v in self.all[1:]:
                if v.age > worst.age or (v.age == worst.age and v.seen < worst.seen):
                    worst = v
            for v in self.all:
                if v is not worst and v.age == worst.age and v.seen == worst.seen:
                    self.tie = True
            self.all = [v for v in self.all if v is not worst]

    def entry(self, a, b):
        """(value or None, is the choice of universe ambiguous)."""
        best = None
        tie = False
        for u in self.all:
            if a in u.names and b in u.names and u.ready():
                if best is None or u.seen > best.seen or (u.seen == best.seen and u.age < best.age):
                    best = u
                    tie = False
                elif u.seen == best.seen and u.age == best.age:
                    tie = True
        if best is None:
            return None, False
        return best.est.covariance_[best.names.index(a), best.names.index(b)], tie

    def raw(self, names):
        """The assembled matrix before projection, and whether any entry is ambiguous."""
        n = len(names)
        got = {}
        tie = self.tie
        total = 0.0
        count = 0
        for i in range(n):
            for j in range(n):
                v, t = self.entry(names[i], names[j])
                tie = tie or t
                got[i, j] = v
                if i != j and v is not None:
                    total = total + v
                    count += 1
        fill = total / count if count else 0.0
        M = np.zeros((n, n))
        for i in range(n):
            for j in range(n):
                M[i, j] = fill if got[i, j] is None else got[i, j]
        return M, tie


class RefFixed:
    def __init__(self, make, keys=None, impute="ffill"):
        self.est = make()
        self.names = list(keys) if keys is not None else None
        self.impute = impute
        self.seen = {}

    def learn(self, x):
        if self.names is None:
            self.names = list(x)
        row = []
        for i, k in enumerate(self.names):
            if k in x:
                row.append(x[k])
            elif self.impute == "zero":
                row.append(0.0)
            elif self.impute == "mean" and self.est.n_samples_ > 0:
                row.append(self.est.location_[i])
            else:
                row.append(self.seen.get(k, 0.0))
        for k in self.names:
            if k in x:
                self.seen[k] = x[k]
        self.est.partial_fit(np.array(row))

    def matrix(self, names):
        c = self.est.covariance_
        ix = [self.names.index(k) for k in names]
        out = np.zeros((len(ix), len(ix)))
        for i, a in enumerate(ix):
            for j, b in enumerate(ix):
                out[i, j] = c[a, b]
        return out
