"""Data value embeddings (Wang et al. 2025): with A the product of (I - eta_s * G_s' G_s) over the
steps s after t (the latest leftmost), the embedding of sample i in step t is eta_t * A g_{t,i}."""
import torch


def embed(P, N, epochs):
    """epochs: [(key, steps, lr(t), grads(t), index(t))] from the last epoch to the first."""
    Mx = torch.zeros((P, P))               # I - A
    out = {}
    for key, steps, lr, grads, index in epochs:
        emb = torch.zeros((N, P))
        for s in range(steps):
            t = steps - 1 - s
            g = grads(t)
            v = lr(t) * (g - g @ Mx.T)
            emb.index_add_(0, index(t), v)
            Mx = Mx + v.T @ g
        out[key] = emb
    return out
