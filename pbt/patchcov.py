"""Reference for patch-based resampling: per-pair-of-patches direct sums, and the statistic of any selection of pairs."""
import numpy as np
import ref2, gen
from core import Skip, fail

METHODS = ["jackknife", "sample", "bootstrap", "marked_bootstrap"]


def sub(d, s):
    out = {k: (v[s] if isinstance(v, np.ndarray) and len(v) == d["n"] else v) for k, v in d.items()}
    out["n"] = int(s.sum())
    return out


class Table:
    """S[i,j]: the direct sums over pairs with the first object in patch i and the second in patch j.
    Auto-correlations: only i<=j, in which both orders are included."""

    def __init__(self, typ, d1, p1, d2, p2, binner, n, local=False):
        auto = d2 is None
        self.typ, self.binner = typ, binner
        self.n1 = n if p1 is not None else 1
        self.n2 = self.n1 if auto else (n if p2 is not None else 1)
        self.auto = auto
        self.names = ["npairs", "weight", "wr", "wlogr"]
        full = ref2.corr2(typ, d1, d2, binner)
        if full["amb"]:
            raise Skip("pair within rounding of a bin edge")
        if typ != "NN":
            self.xn = ["xi"] if typ in ("NK", "KK") else ["xi", "xi_im"] if typ[0] in "NK" else ["xip", "xip_im", "xim", "xim_im"]
        else:
            self.xn = []
        self.names += self.xn
        nk = binner.nk
        self.S = {nm: np.zeros((self.n1, self.n2, nk)) for nm in self.names}
        self.tot = np.zeros((self.n1, self.n2))
        self.has = np.zeros((self.n1, self.n2), bool)
        q1 = np.zeros(d1["n"], int) if p1 is None else p1
        for i in range(self.n1):
            a = sub(d1, q1 == i)
            if not (ref2.wts(a) != 0).any(): continue
            if local:
                # All pairs whose first object is in patch i.
                b = d1 if auto else d2
                j = i if self.n2 > 1 else 0
                R = ref2.corr2(typ, a, b, binner)
                for nm in self.names:
                    self.S[nm][i, j] = R[nm]
                self.tot[i, j] = R["tot"] / (2 if auto and binner.t == "TwoD" else 1)
                self.has[i, j] = True
                continue
            for j in range(i if auto else 0, self.n2):
                if auto:
                    b = None if i == j else sub(d1, q1 == j)
                else:
                    q2 = np.zeros(d2["n"], int) if p2 is None else p2
                    b = sub(d2, q2 == j)
                if b is not None and not (ref2.wts(b) != 0).any(): continue
                R = [ref2.corr2(typ, a, b, binner)]
                if auto and i != j and binner.t == "TwoD":
                    R.append(ref2.corr2(typ, b, a, binner))
                for nm in self.names:
                    self.S[nm][i, j] = sum(r[nm] for r in R)
                self.tot[i, j] = R[0]["tot"]
                self.has[i, j] = True

    def total(self, M):
        out = {nm: np.tensordot(M, self.S[nm], 2) for nm in self.names}
        out["tot"] = float((M * self.tot).sum())
        return out

    def values(self, M, rnom, logr):
        """The finalized arrays."""
        T = self.total(M)
        w = T["weight"]
        g = w != 0
        wd = np.where(g, w, 1.)
        out = dict(npairs=T["npairs"], weight=w, tot=T["tot"])
        for nm in self.xn:
            out[nm] = np.where(g, T[nm] / wd, 0.)
        out["meanr"] = np.where(g, T["wr"] / wd, rnom.ravel())
        out["meanlogr"] = np.where(g, T["wlogr"] / wd, logr.ravel())
        return out


def all_pairs(n1, n2):
    return np.ones((n1, n2))


def rows(method, n1, n2, rng=None, nboot=None, index=None):
    """Multiplicity matrices of each row of the design matrix; index: the list of bootstrap selections."""
    n = max(n1, n2)
    out = []
    if method == "jackknife":
        for i in range(n):
            M = np.ones((n1, n2))
            if n1 > 1: M[i, :] = 0
            if n2 > 1: M[:, i] = 0
            out.append(M)
    elif method == "sample":
        for i in range(n):
            M = np.zeros((n1, n2))
            if n1 > 1: M[i, :] = 1
            else: M[:, i] = 1
            out.append(M)
    else:
        for ind in index:
            c = np.bincount(ind, minlength=n).astype(float)
            if n1 == 1: M = c[None, :].copy()
            elif n2 == 1: M = c[:, None].copy()
            elif method == "marked_bootstrap":
                M = np.outer(c, np.ones(n2))
            else:
                M = np.outer(c, c)
                np.fill_diagonal(M, c)
            out.append(M)
    return out


def selections(n, nboot, rng):
    return [rng.choice(np.arange(n), size=n, replace=True) for _ in range(nboot)]


def covariance(method, v, w):
    n = len(v)
    dv = v - v.mean(axis=0)
    if method == "jackknife":
        return (1. - 1. / n) * np.einsum("ri,rj->ij", dv.conj(), dv)
    if method == "sample":
        return np.einsum("r,ri,rj->ij", w / w.sum(), dv.conj(), dv) / (n - 1)
    return np.einsum("ri,rj->ij", dv.conj(), dv) / (n - 1)


def digest(x, seen=None):
    """A nested snapshot of all arrays and numbers of a correlation object, its patch results and its randoms."""
    out = {}
    for k, v in x.__dict__.items():
        if k in ("_cov", "_ok", "_nonzero", "_varxi", "_raw_varxi", "_varxip", "_varxim", "_zero_array", "_varzeta", "_vargam0", "_vargam1", "_vargam2", "_vargam3"):
            continue
        if isinstance(v, np.ndarray):
            out[k] = v.copy()
        elif isinstance(v, (int, float, str, bool)):
            out[k] = v
        elif k == "results":
            out[k] = {kk: digest(c) for kk, c in v.items()}
        elif k in ("_rr", "_dr", "_rd", "_rk", "_rz", "_rrr", "_drr", "_rdd") and v is not None and v is not True:
            out[k] = digest(v)
    return out


def same(a, b, path="", keys_ok=True):
    for k in a:
        if k not in b: fail("%s%s disappeared" % (path, k))
        x, y = a[k], b[k]
        if isinstance(x, dict):
            if set(x) != set(y) and k == "results": fail("%s%s keys changed: %s" % (path, k, sorted(set(x) ^ set(y))))
            same(x, y, path + str(k) + ".")
        elif isinstance(x, np.ndarray):
            if not np.array_equal(x, y, equal_nan=True): fail("%s%s was modified: %s -> %s" % (path, k, x.ravel()[:5], y.ravel()[:5]))
        elif x != y and not (x != x and y != y):
            fail("%s%s was modified: %s -> %s" % (path, k, x, y))
