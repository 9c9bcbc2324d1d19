"""Helpers for plans."""


def cases(rng, **families):
    """families: name=count or name=(count, cost)"""
    out = []
    for fam, n in families.items():
        cost = 1
        if isinstance(n, tuple):
            n, cost = n
        for k in range(n):
            out.append(dict(fam=fam, seed=int(rng.integers(1, 2 ** 31)), k=k, cost=cost))
    return out
