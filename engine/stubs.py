"""Contract models of the scikit-learn validation helpers skada calls, and
generic recording estimators used as environment stubs."""
import itertools

import numpy as np

from . import sym as S
from .sym import CTX, SymArray, to_sym

_DONE = []


def _sym(x):
    return CTX.path is not None and S.contains_symtype(x)


def install():
    if _DONE:
        return
    _DONE.append(1)
    import sklearn.utils as su
    import sklearn.utils.multiclass as sm
    import sklearn.utils.validation as sv

    orig_check_array = sv.check_array
    orig_tot = sm.type_of_target

    def check_array(array, accept_sparse=False, *, accept_large_sparse=True, dtype="numeric", order=None,
                    copy=False, force_writeable=False, ensure_all_finite=True, ensure_non_negative=False,
                    ensure_2d=True, allow_nd=False, ensure_min_samples=1, ensure_min_features=1,
                    estimator=None, input_name="", **kw):
        if not _sym(array):
            return orig_check_array(
                array, accept_sparse, accept_large_sparse=accept_large_sparse, dtype=dtype, order=order,
                copy=copy, force_writeable=force_writeable, ensure_all_finite=ensure_all_finite,
                ensure_non_negative=ensure_non_negative, ensure_2d=ensure_2d, allow_nd=allow_nd,
                ensure_min_samples=ensure_min_samples, ensure_min_features=ensure_min_features,
                estimator=estimator, input_name=input_name, **kw)
        a = to_sym(array)
        want = None
        if isinstance(dtype, str) and dtype == "numeric":
            want = np.dtype(float) if a.dtype.kind == "O" else None
        elif isinstance(dtype, (list, tuple)):
            want = None if a.dtype in [np.dtype(d) for d in dtype] else np.dtype(dtype[0])
        elif dtype is not None:
            want = np.dtype(dtype)
        if want is not None and want.kind in "iu" and a.dtype.kind == "f":
            if ensure_all_finite is True and bool(np.any(np.isnan(a))):
                raise ValueError(f"Input {input_name} contains NaN.")
        if ensure_2d:
            if a.ndim == 0:
                raise ValueError("Expected 2D array, got scalar array instead")
            if a.ndim == 1:
                raise ValueError("Expected 2D array, got 1D array instead")
        if not allow_nd and a.ndim >= 3:
            raise ValueError(f"Found array with dim {a.ndim}, while dim <= 2 is required")
        if ensure_all_finite is True and a.dtype.kind == "f" and bool(np.any(np.isnan(a))):
            raise ValueError(f"Input {input_name} contains NaN.")
        if ensure_min_samples > 0 and (a.ndim == 0 or a.shape[0] < ensure_min_samples):
            raise ValueError("Found array with fewer samples than the minimum required")
        if ensure_min_features > 0 and a.ndim == 2 and a.shape[1] < ensure_min_features:
            raise ValueError("Found array with fewer features than the minimum required")
        if want is not None and want != a.dtype:
            a = a.astype(want)
        elif copy:
            a = a.copy()
        return a

    def check_X_y(X, y, *args, **kw):
        if not (_sym(X) or _sym(y)):
            return orig_check_X_y(X, y, *args, **kw)
        kw2 = {k: v for k, v in kw.items() if k not in ("multi_output", "y_numeric", "estimator")}
        X = check_array(X, **kw2)
        y = check_array(y, ensure_2d=False, dtype=None)
        if len(X) != len(y):
            raise ValueError("Found input variables with inconsistent numbers of samples")
        return X, y
    orig_check_X_y = sv.check_X_y

    def type_of_target(y, input_name="", raise_unknown=False, **k):
        if not _sym(y):
            return orig_tot(y, input_name, **k)
        a = to_sym(y)
        if a.ndim not in (1, 2) or a.size == 0 and a.ndim == 2 and a.shape[1] == 0:
            return "unknown"
        multi = a.ndim == 2 and a.shape[1] > 1
        suffix = "-multioutput" if multi else ""
        if multi and not S.has_sym(a):
            return orig_tot(S.concretise(a))
        if a.dtype.kind == "f":
            if bool(np.any(np.isnan(a))):
                raise ValueError("Input contains NaN.")
            if bool(np.any(np.rint(a) != a)):
                return "continuous" + suffix
        xs = list(a.base_obj.ravel())
        three = False
        for t in itertools.combinations(xs, 3):
            d = S._logic("and", S._cmp("ne", t[0], t[1]),
                         S._logic("and", S._cmp("ne", t[0], t[2]), S._cmp("ne", t[1], t[2])))
            three = S._logic("or", three, d)
        if multi or bool(three):
            return "multiclass" + suffix
        return "binary"

    for m in (su, sv):
        m.check_array = check_array
        m.check_X_y = check_X_y
    sm.type_of_target = type_of_target

    _install_models()


def _install_models():
    """exact models of the scikit-learn/scipy functions used on symbolic arrays"""
    import scipy.stats as ss
    import sklearn.covariance as cov
    import sklearn.metrics as skm
    import sklearn.metrics.pairwise as pw
    import sklearn.neighbors as nb

    def dispatch(mods, name, model):
        orig = getattr(mods[0], name)

        def f(*a, **k):
            if not (_sym(a) or _sym(k)):
                return orig(*a, **k)
            return model(*a, **k)
        f.__name__ = name
        f.__wrapped__ = orig
        for m in mods:
            setattr(m, name, f)

    def sq(X, Y):
        X, Y = to_sym(X), to_sym(Y)
        d = X[:, None, :] - Y[None, :, :]
        return np.sum(d * d, axis=2)

    def pairwise_kernels(X, Y=None, metric="linear", *, filter_params=False, n_jobs=None, **kw):
        X = to_sym(X)
        Y = X if Y is None else to_sym(Y)
        if X.shape[1] != Y.shape[1]:
            raise ValueError("Incompatible dimension for X and Y matrices")
        if callable(metric):
            return SymArray.wrap(np.array([[metric(x, y) for y in Y] for x in X], dtype=object), np.dtype(float))
        if filter_params:
            kw = {k: v for k, v in kw.items() if k in pw.KERNEL_PARAMS[metric]}
        if metric == "linear":
            return X @ Y.T
        g = kw.pop("gamma", None)
        g = 1.0 / X.shape[1] if g is None else g
        if metric == "rbf":
            return np.exp(-g * sq(X, Y))
        if metric in ("poly", "polynomial"):
            r = g * (X @ Y.T) + kw.get("coef0", 1)
            p = r
            for _ in range(int(kw.get("degree", 3)) - 1):
                p = p * r
            return p
        raise S.EngineLimit(f"kernel {metric}")

    def pairwise_distances(X, Y=None, metric="euclidean", **kw):
        X = to_sym(X)
        Y = X if Y is None else to_sym(Y)
        if metric == "sqeuclidean":
            return sq(X, Y)
        if metric == "euclidean":
            return np.sqrt(sq(X, Y))
        raise S.EngineLimit(f"metric {metric}")

    dispatch([pw, skm], "pairwise_kernels", pairwise_kernels)
    dispatch([pw, skm], "pairwise_distances", pairwise_distances)
    dispatch([pw, skm], "euclidean_distances",
             lambda X, Y=None, squared=False, **k: pairwise_distances(X, Y, "sqeuclidean" if squared else "euclidean"))
    import sklearn.metrics._classification as skc

    def accuracy_score(y_true, y_pred, *, normalize=True, sample_weight=None):
        a, b = to_sym(y_true), to_sym(y_pred)
        if a.shape != b.shape or a.ndim != 1:
            raise ValueError(f"Found input variables with inconsistent numbers of samples: {a.shape} {b.shape}")
        hit = (a == b).astype(float)
        if not normalize:
            return np.sum(hit if sample_weight is None else hit * to_sym(sample_weight))
        return np.average(hit, weights=None if sample_weight is None else to_sym(sample_weight))
    dispatch([skm, skc], "accuracy_score", accuracy_score)
    dispatch([pw], "rbf_kernel", lambda X, Y=None, gamma=None: pairwise_kernels(X, Y, "rbf", gamma=gamma))
    dispatch([pw], "linear_kernel", lambda X, Y=None, **k: pairwise_kernels(X, Y, "linear"))

    def empirical_covariance(X, *, assume_centered=False):
        X = to_sym(X)
        if X.ndim == 1:
            X = X.reshape(1, -1)
        if not assume_centered:
            X = X - X.mean(axis=0)
        return X.T @ X / X.shape[0]

    def shrunk_covariance(emp_cov, shrinkage=0.1):
        emp_cov = to_sym(emp_cov)
        n = emp_cov.shape[0]
        mu = np.trace(emp_cov) / n
        return (1.0 - shrinkage) * emp_cov + shrinkage * mu * to_sym(np.eye(n))

    dispatch([cov], "empirical_covariance", empirical_covariance)
    dispatch([cov], "shrunk_covariance", shrunk_covariance)

    # density of a Gaussian: an uninterpreted positive function of (x, mean, cov)
    orig_pdf = ss.multivariate_normal.pdf

    def pdf(x, mean=None, cov=1, allow_singular=False):
        if not _sym((x, mean, cov)):
            return orig_pdf(x, mean, cov, allow_singular)
        import z3
        x, mean, cov = to_sym(x), to_sym(mean), to_sym(cov)
        mean = mean.reshape(-1)
        d = mean.shape[0]
        cov = cov.reshape(d, d)
        if x.ndim == 1 and d == 1:
            x = x.reshape(-1, 1)
        if x.ndim > 1 and x.shape[-1] != d:
            raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
        x = x.reshape(-1, d)
        out = []
        ps = [S.expr_real(v) for v in mean.base_obj] + [S.expr_real(v) for v in cov.base_obj.ravel()]
        for row in x.base_obj:
            args = [S.expr_real(v) for v in row] + ps
            e = S.uf("gauss_pdf", len(args))(*[z3.simplify(v, som=True) for v in args])
            CTX.path.axiom(e > 0)
            out.append(S.SymReal(e))
        r = SymArray.from_list(out, np.dtype(float))
        return r[0] if len(out) == 1 else r
    ss.multivariate_normal.pdf = pdf

    # k nearest neighbours, uniform vote, euclidean (ties: lowest index, as a brute force search)
    K = nb.KNeighborsClassifier
    o_fit, o_pred = K.fit, K.predict

    def fit(self, X, y):
        if not (_sym(X) or _sym(y)):
            self.__dict__.pop("_sym_fit", None)
            return o_fit(self, X, y)
        if self.weights != "uniform" or self.p != 2 or self.metric != "minkowski":
            raise S.EngineLimit("nearest neighbour options")
        self._sym_fit = (to_sym(X), to_sym(y))
        self.classes_ = np.unique(to_sym(y))
        return self

    def predict(self, X):
        if "_sym_fit" not in self.__dict__:
            return o_pred(self, X)
        A, y = self._sym_fit
        X = check_plain(X)
        out = []
        if self.n_neighbors > A.shape[0]:
            raise ValueError("Expected n_neighbors <= n_samples_fit")
        # one feature: the absolute difference orders like the euclidean distance
        for row in (np.abs(X - A.T) if A.shape[1] == 1 else sq(X, A)):
            near = np.argsort(row, kind="stable")[: self.n_neighbors]
            lab = [y[int(i)] for i in near]
            cnt = [sum(1 for v in lab if bool(v == u)) for u in lab]
            best = [u for u, c in zip(lab, cnt) if c == max(cnt)]
            m = best[0]
            for u in best[1:]:
                m = u if bool(u < m) else m
            out.append(m)
        return SymArray.from_list(out, y.dtype)

    def check_plain(X):
        X = to_sym(X)
        if X.shape[0] == 0:
            raise ValueError("Found array with 0 sample(s)")
        return X
    K.fit, K.predict = fit, predict

    # label encoding
    from sklearn.preprocessing import LabelEncoder as LE
    from sklearn.exceptions import NotFittedError
    o = {k: getattr(LE, k) for k in ("fit", "fit_transform", "transform", "inverse_transform")}

    def column(y):
        y = to_sym(y)
        if y.ndim == 2 and y.shape[1] == 1:
            y = y.ravel()
        if y.ndim != 1:
            raise ValueError(f"y should be a 1d array, got an array of shape {y.shape} instead.")
        return y

    def le_fit(self, y):
        if not _sym(y):
            return o["fit"](self, y)
        self.classes_ = np.unique(column(y))
        return self

    def le_transform(self, y):
        if not hasattr(self, "classes_"):
            raise NotFittedError("This LabelEncoder instance is not fitted yet.")
        if not (_sym(y) or _sym(self.classes_)):
            return o["transform"](self, y)
        cl = list(to_sym(self.classes_).base_obj)
        out = []
        for v in column(y).base_obj:
            hit = [i for i, c in enumerate(cl) if bool(S._cmp("eq", v, c))]
            if not hit:
                raise ValueError("y contains previously unseen labels")
            out.append(hit[0])
        return SymArray.from_list(out, np.int64)

    def le_fit_transform(self, y):
        return le_transform(le_fit(self, y), y) if _sym(y) else o["fit_transform"](self, y)

    def le_inverse(self, y):
        if not (_sym(y) or _sym(self.classes_)):
            return o["inverse_transform"](self, y)
        y = column(y)
        n = len(self.classes_)
        if bool(np.any((y < 0) | (y >= n))):
            raise ValueError("y contains previously unseen labels")
        return to_sym(self.classes_)[y.astype(np.int64)]
    LE.fit, LE.transform, LE.fit_transform, LE.inverse_transform = le_fit, le_transform, le_fit_transform, le_inverse

    # one-hot encoding (dense, automatic categories, every category known)
    from sklearn.preprocessing import OneHotEncoder as OH
    oh = {k: getattr(OH, k) for k in ("fit", "fit_transform", "transform")}

    def oh_plain(self):
        return (self.categories == "auto" and self.drop is None and not self.sparse_output
                and self.handle_unknown == "error" and self.min_frequency is None and self.max_categories is None)

    def oh_fit(self, X, y=None):
        if not _sym(X) or not oh_plain(self):
            return oh["fit"](self, X, y)
        X = to_sym(X)
        if X.ndim != 2:
            raise ValueError("Expected 2D array, got 1D array instead")
        if 0 in X.shape:
            raise ValueError(f"Found array with 0 sample(s) (shape={X.shape}) while a minimum of 1 is required.")
        self.categories_ = [np.unique(X[:, k]) for k in range(X.shape[1])]
        self.n_features_in_ = X.shape[1]
        return self

    def oh_transform(self, X):
        if not (_sym(X) or any(_sym(c) for c in getattr(self, "categories_", []))) or not oh_plain(self):
            return oh["transform"](self, X)
        X = to_sym(X)
        rows = []
        for r in X.base_obj:
            row = []
            for v, cat in zip(r, self.categories_):
                cl = list(to_sym(cat).base_obj)
                hit = [i for i, c in enumerate(cl) if bool(S._cmp("eq", v, c))]
                if not hit:
                    raise ValueError("Found unknown categories in column during transform")
                row += [1.0 if i == hit[0] else 0.0 for i in range(len(cl))]
            rows.append(row)
        return np.array(rows, dtype=self.dtype)

    def oh_fit_transform(self, X, y=None, **k):
        return oh_transform(oh_fit(self, X), X) if _sym(X) else oh["fit_transform"](self, X, y, **k)
    OH.fit, OH.transform, OH.fit_transform = oh_fit, oh_transform, oh_fit_transform
