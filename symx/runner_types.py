class Job:
    """One harness with fixed parameters, explored for all inputs."""
    def __init__(self, fn, seconds=60, steps=60000, stub=False, hang=6, maxpaths=10**9, cost=0,
                 **params):
        self.fn = fn; self.params = params; self.seconds = seconds
        self.steps = steps; self.stub = stub; self.hang = hang; self.maxpaths = maxpaths; self.cost = cost
    def name(self):
        p = ','.join('%s=%s' % (k, self.params[k]) for k in sorted(self.params))
        return self.fn + ('(' + p + ')' if p else '')
