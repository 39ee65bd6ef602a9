"""Depth-first exploration of choice sequences. A run takes a prefix of choices (0 after it) and returns the
choice points it met: [(number of options, chosen)]."""


class Chooser:
    def __init__(self, prefix):
        self.prefix, self.log = list(prefix), []

    def __call__(self, n):
        k = len(self.log)
        c = self.prefix[k] if k < len(self.prefix) else 0
        if not 0 <= c < n:
            raise RuntimeError(f"replay diverged: choice {c} of {n} at point {k}")
        self.log.append((n, c))
        return c


def explore(run, limit=None):
    """run(prefix) -> log. Visits every choice sequence once; returns the number of executions."""
    stack, n = [[]], 0
    while stack:
        prefix = stack.pop()
        log = run(prefix)
        n += 1
        if [c for _, c in log[:len(prefix)]] != prefix:
            raise RuntimeError("replay diverged")
        for i in range(len(log) - 1, len(prefix) - 1, -1):
            for alt in range(1, log[i][0]):
                stack.append([c for _, c in log[:i]] + [alt])
        if limit is not None and n >= limit:
            return n
    return n
