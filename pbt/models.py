"""Reference models of the samplers: float64 numpy on the vector of all parameter elements."""
import numpy as np

GUARD = 1e-16


def safe_div(x, y):
    return x / (y + 2 * np.sign(y) * GUARD + GUARD)


class Adaptive(object):
    """Running statistics shared by SGHMC and SGLD: adapted during burn-in, frozen afterwards."""

    def __init__(self, n, burn_in):
        self.tau, self.g, self.v_hat = np.ones(n), np.ones(n), np.ones(n)
        self.minv = np.ones(n)
        self.burn_in, self.steps = burn_in, 0

    def adapt(self, grad):
        """Preconditioner of the step with gradient `grad`."""
        if self.steps < self.burn_in:
            r = 1.0 / (self.tau + 1.0)
            tau = self.tau + safe_div(-self.g * self.g * self.tau, self.v_hat) + 1.0
            self.minv = safe_div(1.0, np.sqrt(self.v_hat))
            self.g = self.g - r * self.g + r * grad
            self.v_hat = self.v_hat - r * self.v_hat + r * grad ** 2
            self.tau = tau
        self.steps += 1
        return self.minv


class SGHMC(Adaptive):
    def __init__(self, n, burn_in, mdecay, scale_grad):
        super().__init__(n, burn_in)
        self.mdecay, self.scale_grad = mdecay, scale_grad
        self.momentum = np.zeros(n)

    def step(self, grad, grad_magnitude, eps, z, rtol):
        """Displacement and its tolerance."""
        minv = self.adapt(grad)
        es = eps / np.sqrt(self.scale_grad)
        plus, minus = 2 * es ** 2 * self.mdecay * minv, es ** 4
        sigma = np.sqrt(np.maximum(plus - minus, 1e-16))
        noise = sigma * z
        new = self.momentum - eps ** 2 * minv * grad - self.mdecay * self.momentum + noise
        # rounding of the variance is amplified where its two terms cancel
        spread = rtol * (plus + minus)
        sigma_error = np.minimum(spread / sigma, np.sqrt(spread))
        tolerance = (rtol * (np.abs(self.momentum) * (1 + self.mdecay) + eps ** 2 * minv * grad_magnitude + np.abs(noise))
                     + sigma_error * np.abs(z))
        self.momentum = new
        return new, tolerance


class SGLD(Adaptive):
    def __init__(self, n, burn_in, A, scale_grad):
        super().__init__(n, burn_in)
        self.A, self.scale_grad = A, scale_grad

    def step(self, grad, grad_magnitude, eps, z, rtol):
        minv = self.adapt(grad)
        noise = np.sqrt(np.maximum(2 * eps * safe_div(minv * self.A, self.scale_grad), 0)) * z
        drift = -eps * minv * self.A * grad
        return drift + noise, rtol * (eps * minv * self.A * grad_magnitude + np.abs(noise))


class Relativistic(object):
    """Momenta `p` with error bound `error`."""

    def __init__(self, mass, c, D, Bhat):
        self.mass, self.c, self.D, self.Bhat = mass, c, D, Bhat
        self.p = self.error = None

    def velocity(self, p):
        return p / (self.mass * np.sqrt(p * p / (self.mass ** 2 * self.c ** 2) + 1))

    def momentum_of(self, v):
        """Inverse of `velocity` for |v| < c."""
        return self.mass * v / np.sqrt(np.maximum(1 - v * v / self.c ** 2, 1e-300))

    def step(self, grad, grad_magnitude, eps, z, rtol):
        noise = np.sqrt(eps * (2 * self.D - eps * self.Bhat)) * z
        old = self.p
        self.p = old - eps * grad + noise - self.D * eps * self.velocity(old)
        self.error = (self.error * (1 + self.D * eps / self.mass)
                      + rtol * (np.abs(old) + eps * grad_magnitude + np.abs(noise) + self.D * eps * np.abs(old) / self.mass))
        v = self.velocity(self.p)
        # dv/dp = 1/m (1 + p^2/m^2c^2)^(-3/2) <= 1/m
        return eps * v, eps * np.minimum(self.error / self.mass, 2 * self.c) + rtol * eps * np.abs(v)


class SVGD(object):
    """Particles as rows; `hist` with error bound."""

    def __init__(self, n, d, alpha, fudge):
        self.alpha, self.fudge = alpha, fudge
        self.hist, self.hist_error = np.zeros((n, d)), np.zeros((n, d))

    def direction(self, x, grads, grad_magnitude, rtol):
        n = len(x)
        diff = x[:, None, :] - x[None, :, :]
        d2 = np.sum(diff ** 2, axis=2)
        h2 = 0.5 * np.median(d2) / np.log(n + 1.0)
        K = np.exp(-d2 / h2 / 2)
        repulsion = np.einsum("ij,ijk->ik", K, diff) / h2
        phi = (K @ grads - repulsion) / n
        # rounding: exponent d2/h2/2 has relative error rtol, the code sums K x_i - K x_j separately
        K_error = K * (d2 / h2 / 2 + 1) * rtol
        size = np.sum(np.abs(x), axis=0, keepdims=True) + n * np.abs(x)
        error = (K @ (grad_magnitude * rtol) + K_error @ grad_magnitude
                 + np.einsum("ij,ijk->ik", K_error, np.abs(diff)) / h2 + rtol * np.max(K) * size / h2) / n
        return phi, error

    def step(self, x, grads, grad_magnitude, eps, rtol):
        phi, error = self.direction(x, grads, grad_magnitude, rtol)
        lo, hi = np.abs(phi) - error, np.abs(phi) + error
        lo2 = np.maximum(lo, 0) ** 2
        hist_lo = self.alpha * np.maximum(self.hist - self.hist_error, 0) + (1 - self.alpha) * lo2
        hist_hi = self.alpha * (self.hist + self.hist_error) + (1 - self.alpha) * hi ** 2
        self.hist = self.alpha * self.hist + (1 - self.alpha) * phi ** 2
        self.hist_error = np.maximum(hist_hi - self.hist, self.hist - hist_lo)
        adjusted = phi / (self.fudge + np.sqrt(self.hist))
        largest = np.abs(hi) / (self.fudge + np.sqrt(hist_lo))
        smallest = np.maximum(lo, 0) / (self.fudge + np.sqrt(hist_hi))
        # largest possible deviation; if the sign of phi is uncertain, both signs are possible
        tolerance = np.maximum(largest - np.abs(adjusted), np.abs(adjusted) - smallest)
        tolerance = np.where(lo <= 0, largest + np.abs(adjusted), tolerance)
        return -eps * adjusted, eps * (tolerance + rtol * np.abs(adjusted))
