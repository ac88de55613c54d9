"""Numerical derivatives with an error estimate (Ridders), and kink detection."""
import numpy as np

CON = 3.0


def ridders(f, h0, nt=5):
    """Directional derivative of the vector function f(t) at t = 0 and an error estimate per entry."""
    tab = [[None] * nt for _ in range(nt)]
    best = err = None
    for i in range(nt):
        h = h0 / CON ** i
        tab[0][i] = (f(h) - f(-h)) / (2 * h)
        if best is None:
            best = tab[0][0].copy()
            err = np.full(best.shape, np.inf)
            continue
        fac = CON * CON
        for j in range(1, i + 1):
            tab[j][i] = (tab[j - 1][i] * fac - tab[j - 1][i - 1]) / (fac - 1)
            fac *= CON * CON
            e = np.maximum(np.abs(tab[j][i] - tab[j - 1][i]), np.abs(tab[j][i] - tab[j - 1][i - 1]))
            with np.errstate(invalid="ignore"):
                m = e <= err
            err = np.where(m, e, err)
            best = np.where(m, tab[j][i], best)
    return best, err


def onesided(f, h, sign):
    """Second-order one-sided derivative."""
    f0, f1, f2 = f(0.0), f(sign * h), f(sign * 2 * h)
    return sign * (-3 * f0 + 4 * f1 - f2) / (2 * h)


def compare(f, analytic, f0, h0, xs, rtol=1e-5, floor=1e-9, absf=0.0):
    """Compare analytic directional derivatives with f.  Returns (bad mask, fd, conclusive mask).

    f0: values at the point, xs: the size of the step that counts as "order one" in the input."""
    with np.errstate(all="ignore"):
        fd, err = ridders(f, h0)
        scale = np.maximum(np.abs(fd), np.abs(analytic))
        fl = floor * np.abs(f0) / xs + absf / xs + 1e-300
        tol = rtol * scale + 30 * err + fl
        concl = np.isfinite(fd) & np.isfinite(err) & (30 * err <= 0.02 * scale + 10 * fl)
        bad = concl & ~(np.abs(fd - analytic) <= tol)
        if not np.any(bad):
            return bad, fd, concl
        noise = np.max([np.abs(f(k * 1e-13 * xs) - f0) for k in (-3, -2, -1, 1, 2, 3)], axis=0) / (h0 / CON ** 4)
        bad &= np.abs(fd - analytic) > 10 * noise
        # confirm: smaller steps, and no kink at the point itself
        fd2, err2 = ridders(f, h0 / 30)
        bad &= np.isfinite(fd2) & ~(np.abs(fd2 - analytic) <= rtol * np.maximum(np.abs(fd2), np.abs(analytic)) + 30 * err2 + 30 * fl + 300 * noise) & (np.abs(fd2 - fd) <= 0.02 * np.abs(fd - analytic) + 30 * err2)
        for h in (h0 / 9, h0 / 100):
            r, l_ = onesided(f, h, 1), onesided(f, h, -1)
            bad &= (np.abs(r - l_) <= 0.03 * np.abs(fd - analytic)) & (np.abs(r - l_) <= 0.1 * np.maximum(np.abs(r), np.abs(l_)) + 1e3 * fl + 1e3 * noise)
    return bad, fd, concl
