"""Stand-in for the optional dependency: a labelled table and nothing else."""


class DataFrame:
    def __init__(self, data=None, index=None, columns=None, dtype=None, copy=None):
        self.data = data
        self.index = list(index) if index is not None else None
        self.columns = list(columns) if columns is not None else None
        self.values = data

    def to_numpy(self):
        return self.data
