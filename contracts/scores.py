"""The density of a Gaussian, written out."""


def nll_of(c, m, P, x, n):
    """-log N(x; m, P) for a vector x of size n."""
    d = x - m
    return (c.size(n) * c.np.log(2 * c.np.pi) + c.np.linalg.slogdet(P)[1] + d @ c.inv(P) @ d) / 2
