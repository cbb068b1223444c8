"""Independent statement of the fit over profiles (fit_cond): normalisation, models, criterion, errors.

Observations are arrays of levels by profiles. Everything is in the scaled variables of the method (x from -1 to 1,
y with mean 0 and deviation 1) until the results are turned back.
"""
import numpy as np


class Problem:
    def __init__(self, x, y, err, cov):
        n = np.unique(x[np.isfinite(x)]) if np.isnan(x).any() else np.unique(x)
        self.profiles = n
        col = lambda a: np.array([a[i, j] for j in range(a.shape[1]) for i in range(a.shape[0])], dtype=float)
        xx, yy, ee = col(x), col(y), col(err)
        good = [k for k in range(len(xx)) if np.isfinite(xx[k]) and np.isfinite(yy[k])]
        good.sort(key=lambda k: xx[k])      # stable
        self.good = np.array(good, dtype=int)
        self.m = len(good)
        if not good:
            return
        g = self.good
        self.cov = cov[np.ix_(g, g)]
        xx, yy, ee = xx[g], yy[g], ee[g]
        self.raw_x, self.raw_y = xx, yy
        self.x0 = (xx[0] + xx[-1]) / 2
        self.xs = (xx[-1] - xx[0]) / 2 or 1.0
        self.y0 = yy.mean()
        self.ys = yy.std() or 1.0
        self.x, self.y, self.e = (xx - self.x0) / self.xs, (yy - self.y0) / self.ys, ee / self.ys
        self.var = self.e ** 2
        self.w = self.var.mean() / self.var
        self.xp = (self.profiles - self.x0) / self.xs
        self.ndf = float(sum(1.0 / self.cov[k].sum() for k in range(self.m)))
        self.ux = np.unique(self.x)
        self.lim = (self.ux[1], self.ux[-2]) if len(self.ux) > 3 else (1.0, 1.0)

    def scale_breaks(self, b):
        return (np.asarray(b, dtype=float) - self.x0) / self.xs

    def design(self, x, b):
        """b None: offset; else slopes between the first observation, the breaks and infinity."""
        if b is None:
            return np.ones((len(x), 1))
        k = np.concatenate(([self.x[0]], b, [np.inf]))
        return np.stack([np.ones(len(x))] + [np.clip(x - k[j], 0, k[j + 1] - k[j]) for j in range(len(k) - 1)], axis=1)

    def condition(self, b):
        D = self.design(self.x, b) * np.sqrt(self.w)[:, None]
        n = np.linalg.norm(D, axis=0)
        if (n == 0).any():
            return np.inf
        return np.linalg.cond(D)

    def solve(self, b, y=None):
        y = self.y if y is None else y
        D = self.design(self.x, b)
        sw = np.sqrt(self.w)
        A = np.linalg.lstsq(D * sw[:, None], y * sw, rcond=None)[0]
        return A, y - D @ A

    def criterion(self, b, res=None):
        res = self.solve(b)[1] if res is None else res
        p = 1 if b is None else 2 * (len(b) + 1)
        rss = np.sum(res ** 2 / self.var)
        with np.errstate(all="ignore"):
            return self.ndf * np.log(rss / self.m) + self.ndf * (self.ndf + p) / (self.ndf - p - 2)

    def allowed(self, most):
        """Numbers of breaks to try, -1 for the offset"""
        if self.ndf >= 2 * (most + 2) + 1:
            return list(range(-1, most + 1))
        if self.ndf > 3:
            return list(range(-1, int(np.floor((self.ndf - 1) / 2 - 2)) + 1))
        return [-1]

    # -- back to the units of the observations
    def fitted(self, A, b):
        return self.design(self.xp, b) @ A * self.ys + self.y0

    def coefficients(self, A):
        out = np.array(A, dtype=float) * self.ys
        out[0] += self.y0
        out[1:] /= self.xs
        return out

    def slopes(self, A, b):
        """Time derivative at each profile"""
        if b is None:
            return np.zeros(len(self.xp))
        seg = np.searchsorted(np.asarray(b), self.xp, side="right")
        return np.array(A)[1 + seg] * self.ys / self.xs

    def variances(self, b):
        """Parameter variances without and with the covariance of the observations"""
        D = self.design(self.x, b)
        W = np.diag(self.w)
        B = np.linalg.inv(D.T @ W @ D)
        V = np.diag(self.var)
        left = B @ D.T @ W @ V
        right = W @ D @ B
        return np.diag(left @ right), np.diag(left @ self.cov @ right)

    def fit_error(self, b):
        """Expected error of the fit at each profile (the sampled error tends to it)"""
        p1, p2 = self.variances(b)
        if b is None:
            return np.full(len(self.xp), np.sqrt(p2[0]) * self.ys)
        D = self.design(self.x, b)
        E = self.design(self.xp, b)
        W = np.diag(self.w)
        G = E @ np.linalg.inv(D.T @ W @ D) @ D.T @ W
        with np.errstate(all="ignore"):
            return np.sqrt((G ** 2 @ self.var) * (E @ p2) / (E @ p1)) * self.ys

    def slope_error(self, b):
        if b is None:
            return np.full(len(self.xp), np.nan)
        p2 = self.variances(b)[1]
        seg = np.searchsorted(np.asarray(b), self.xp, side="right")
        with np.errstate(all="ignore"):
            return np.sqrt(p2[1 + seg]) * self.ys / self.xs

    def stations(self, defect=False):
        """Weighted mean and rms of each profile's observations. defect: the grouping recorded as a known finding."""
        mean, rms = np.full(len(self.profiles), np.nan), np.full(len(self.profiles), np.nan)
        first = [int(np.argmax(self.raw_x == v)) for v in np.unique(self.raw_x)]
        for n, v in enumerate(self.profiles):
            if v not in self.raw_x:
                continue
            if defect:
                k = int(np.searchsorted(np.unique(self.raw_x), v))
                g = np.arange((first[k - 1] if k else -1) + 1, first[k] + 1)
            else:
                g = np.nonzero(self.raw_x == v)[0]
            w = self.w[g]
            mean[n] = np.sum(w * self.raw_y[g]) / np.sum(w)
            rms[n] = np.sqrt(np.sum(w * (self.raw_y[g] - mean[n]) ** 2) / np.sum(w))
        return mean, rms

    # -- search for break points, as published (Jones and Dey 1995)
    def search(self, k, y=None, guess=None, noise=None):
        """Levenberg-Marquardt over transformed breaks. Returns breaks and residual of the weighted fit, or None."""
        from scipy.optimize import least_squares
        b = np.concatenate(([-1], -1 + 2 * np.arange(1, k + 1) / (k + 1) if guess is None else guess))
        u0 = np.log(np.diff(b) / (1 - b[-1]))
        lo, hi = self.lim

        def breaks(u):
            c = np.cumsum(np.exp(u))
            return lo + (hi - lo) * c / (1 + c[-1])

        def fun(u):
            out = breaks(u)
            if not np.isfinite(out).all() or self.condition(out) > 1e9:
                raise ArithmeticError
            res = self.solve(out, y)[1]
            return res if noise is None else res + 3e-13 * noise.standard_normal(len(res))
        try:
            opt = least_squares(fun, u0, method="lm", ftol=1e-6, max_nfev=1000)
        except (ArithmeticError, ValueError):
            return None
        return breaks(opt.x), opt.fun
