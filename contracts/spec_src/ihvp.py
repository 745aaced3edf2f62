"""Textbook iterations for H^-1 v."""
import torch


def ratio(a, b):
    return torch.where((a == 0) | (b == 0), torch.zeros_like(a), a / b)


def cg(H, v, steps):
    """Conjugate gradient from the start x = v (Fletcher-Reeves); a ratio with a zero in it counts as 0."""
    x = torch.clone(v)
    r = v - H(x)
    d = r
    for _ in range(steps):
        ad = H(d)
        alpha = ratio(torch.dot(r, r), torch.dot(d, ad))
        x = x + alpha * d
        rn = r - alpha * ad
        beta = ratio(torch.dot(rn, rn), torch.dot(r, r))
        r = rn
        d = rn + beta * d
    return x


def lissa(draw, H, v, repeats, depth, damping, scaling):
    """mean over repeats of e_depth / scaling, e_0 = v, e_{k+1} = v + (1-damping) e_k - H_k e_k / scaling."""
    total = torch.zeros_like(v)
    for _ in range(repeats):
        e = torch.clone(v)
        for _ in range(depth):
            e = v + (1 - damping) * e - H(draw(), e) / scaling
        total = total + e / scaling
    return total / repeats
