"""C27 what a domain aware network trains on and predicts."""
import numpy as np
import torch
from sklearn.base import clone
from skorch.dataset import Dataset as SkorchDataset

from harness import deep as D
from skada.deep import SourceOnly, TargetOnly
from skada.deep._adversarial import CDANModule
from skada.deep.base import (
    DeepDADataset,
    DomainAwareCriterion,
    DomainAwareModule,
    DomainAwareNet,
    DomainBalancedDataLoader,
    DomainOnlyDataLoader,
)

TORCH = True
ASSUMPTIONS = ["the optimiser step is outside the encoding (gradients are not symbolic): the parameters of the "
               "recording modules stay at their concrete values",
               "recording modules and criteria that are affine in the rows they are given",
               "torch.randperm returns an arbitrary permutation"]


# -------------------------------------------------------------- the criterion

def _opt(env, name, f):
    return f() if env.pick(name, [True, False]) else None


def criterion(env):
    n = env.p["n"]
    d = env.ints("d", n, *env.p.get("dom", (-2, 2)))
    y = env.ints("y", n, -1, 3)
    yp = env.reals("p", (n, 2))
    reg = env.real("reg", 0, 5)
    on_target = env.pick("on_target", [False, True])
    dp = _opt(env, "has_dom", lambda: env.reals("q", (n,)))
    ft = _opt(env, "has_feat", lambda: env.reals("f", (n, 2)))
    ix = _opt(env, "has_idx", lambda: env.ints("i", n, 0, 9))
    src = [k for k in range(n) if d[k] >= 0]
    tgt = [k for k in range(n) if k not in src]
    base, adapt = D.RecBase(), D.RecAdapt()
    kw = dict(reg=reg)
    if on_target:
        kw["train_on_target"] = True
    if env.pick("default_reg", [False, True]):
        del kw["reg"]
        reg = 1
    crit = DomainAwareCriterion(base, adapt, **kw)
    t = lambda a: None if a is None else env.tensor(a)
    loss = crit((t(yp), t(dp), t(ft), t(d), t(ix)), t(y))
    env.cover("target" if on_target else "source")
    rows = tgt if on_target else src
    env.check(len(base.calls) == 1 and len(adapt.calls) == 1, "each criterion is evaluated once")
    D.rows_are(env, base.calls[0][0], [yp[k] for k in rows], "base criterion gets the predictions of its rows")
    D.rows_are(env, base.calls[0][1], [y[k] for k in rows], "base criterion gets the labels of its rows")
    got = adapt.calls[0]
    env.check(set(got) <= set(D.RecAdapt.KEYS), "the adaptation loss is given no target labels")
    D.rows_are(env, got["y_s"], [y[k] for k in src], "source labels")
    for key, a in (("y_pred", yp), ("domain_pred", dp), ("features", ft), ("sample_idx", ix)):
        for side, sel in (("s", src), ("t", tgt)):
            v = got[f"{key}_{side}"]
            if a is None:
                env.check(v is None, f"no {key}")
            else:
                D.rows_are(env, v, [a[k] for k in sel], f"{key} of the {'source' if side == 's' else 'target'} rows")
    want = base.value(env, [yp[k] for k in rows], [y[k] for k in rows]) + reg * adapt.value
    env.check_eq(env.arr(loss), want, "total = base loss + reg * adaptation loss")


def reduction(env):
    b = torch.nn.CrossEntropyLoss()
    env.cover("reduction")
    for red in ("none", "sum", "mean"):
        DomainAwareCriterion(b, D.RecAdapt(), reduction=red)
        env.check(b.reduction == red, "the reduction of the base criterion is set")
    c = DomainAwareCriterion(torch.nn.CrossEntropyLoss(reduction="sum"), D.RecAdapt())
    env.check(c.base_criterion.reduction == "mean", "mean by default")
    x = env.real("x")
    v = c((env.tensor(env.array([[x, 0.0], [0.0, x]])), None, None, env.tensor(env.array([1, -1])), None),
          env.tensor(env.array([0, 0])))
    env.check_eq(env.arr(v), -(x - np.log(np.exp(x) + 1)) + D.RecAdapt.value0, "cross entropy of the source row")


# -------------------------------------------------------------- the module

def module(env):
    n = env.p["n"]
    X = env.reals("X", (n, 2))
    d = env.ints("d", n, -2, 2)
    w = env.reals("w", n, 0, 5)
    i = env.ints("i", n, 0, 9)
    weighted = env.pick("weighted_base", [True, False])
    give_w = env.pick("give_w", [False, True]) if weighted else False
    has_layer = env.pick("has_layer", [True, False])
    has_clf = has_layer and env.pick("has_clf", [True, False])
    base = (D.WeightedNet if weighted else D.Net)()
    m = DomainAwareModule(base, "feat" if has_layer else None, D.RecDomain() if has_clf else None)
    mode = env.pick("mode", ["as built", "cloned", "cloned twice"])
    if mode != "as built":
        m(env.tensor(X * 7.0 + 1.0), is_fit=True)
        c = clone(m)
        if mode == "cloned twice":
            c = clone(c)
        env.check(c.base_module_ is not base, "a clone has its own base module")
        env.check(c.layer_name == m.layer_name, "a clone keeps the layer")
        m, old = c, m
        old(env.tensor(X * 3.0), is_fit=True)
    env.cover("forward")
    t = env.tensor
    kw = dict(sample_weight=t(w)) if give_w else {}
    X0 = X
    feats = [D.feat(X0, k) for k in range(n)]
    want = [D.head(f, w[k] if give_w else None) for k, f in enumerate(feats)]
    out = m(t(X), sample_domain=t(d), sample_idx=t(i), **kw)
    D.rows_are(env, out, want, "plain forward returns the predictions")
    y, dom, f, dd, ii = m(t(X), sample_domain=t(d), sample_idx=t(i), is_fit=True, **kw)
    D.rows_are(env, y, want, "training forward: predictions")
    D.rows_are(env, dd, list(d), "training forward: domains as given")
    D.rows_are(env, ii, list(i), "training forward: sample indices as given")
    if has_layer:
        D.rows_are(env, f, feats, "training forward: flattened output of the layer for these inputs")
        y2, f2 = m(t(X * 2.0), return_features=True)
        D.rows_are(env, f2, [D.feat(X0 * 2.0, k) for k in range(n)], "features on request")
        D.rows_are(env, y2, [D.head(D.feat(X0 * 2.0, k), None) for k in range(n)], "predictions with the features")
    else:
        env.check(f is None, "no layer, no features")
    if has_clf:
        D.rows_are(env, dom, [D.dom(g) for g in feats], "domain predictions are computed from the features")
    else:
        env.check(dom is None, "no domain classifier, no domain predictions")


def cdan_module(env):
    n = env.p["n"]
    X = env.reals("X", (n, 2))
    d = env.ints("d", n, -2, 2)
    w = env.reals("w", n, 0, 5)
    i = env.ints("i", n, 0, 9)
    give_w = env.pick("give_w", [False, True])
    rec = D.RecDomain()
    m = CDANModule((D.WeightedNet if give_w else D.Net)(), "feat", rec, max_features=1000, random_state=7)
    if env.pick("cloned", [True, False]):
        m = clone(m)
        env.check(m.max_features == 1000 and m.random_state == 7, "a clone keeps the parameters")
        rec = m.domain_classifier_
    t = env.tensor
    kw = dict(sample_weight=t(w)) if give_w else {}
    feats = [D.feat(X, k) for k in range(n)]
    want = [D.head(f, w[k] if give_w else None) for k, f in enumerate(feats)]
    D.rows_are(env, m(t(X), sample_domain=t(d), sample_idx=t(i), **kw), want, "plain forward returns the predictions")
    y, dom, f, dd, ii = m(t(X), sample_domain=t(d), sample_idx=t(i), is_fit=True, **kw)
    env.cover("forward")
    D.rows_are(env, y, want, "training forward: predictions")
    D.rows_are(env, dd, list(d), "training forward: domains as given")
    D.rows_are(env, ii, list(i), "training forward: sample indices as given")
    D.rows_are(env, f, feats, "training forward: features")
    got = env.arr(rec.calls[-1])
    env.check(got.shape[0] == n and got.shape[1] == len(want[0]) * len(feats[0]), "size of the multilinear map")
    for k in range(n):
        prods = [want[k][a] * feats[k][b] for a in range(len(want[k])) for b in range(len(feats[k]))]
        env.check_eq(got[k], env.array(prods), "multilinear map: products of predictions and features of the same row")
    D.rows_are(env, dom, [D.dom(got[k]) for k in range(n)], "domain predictions from the multilinear map")


# -------------------------------------------------------------- the net

def _net(base=None, adapt=None, module=None, cls=DomainAwareModule, loader=DomainBalancedDataLoader, **kw):
    opts = dict(iterator_train=loader, criterion=DomainAwareCriterion, criterion__base_criterion=base or D.RecBase(),
                criterion__adapt_criterion=adapt or D.RecAdapt(), **D.PLAIN)
    opts.update(kw)
    return DomainAwareNet(module=cls, module__base_module=module or D.Net(), module__layer_name="feat", **opts)


def _inputs(env, n, w=False, dom=(-2, 1)):
    X = env.reals("X", (n, 2))
    y = env.ints("y", n, 0, 1)
    d = env.ints("d", n, *dom)
    return X, y, d, env.reals("w", n, 0, 5) if w else None


def _call(env, X, d, y=None):
    """the rows in one of the accepted representations: (X, keywords)"""
    form = env.p.get("form") or env.pick("form", ["arrays", "tensors", "dict", "dataset"])
    if form == "arrays":
        return X, dict(sample_domain=d)
    if form == "tensors":
        return env.tensor(X), dict(sample_domain=env.tensor(d))
    if form == "dict":
        return dict(X=X, sample_domain=d), {}
    if form == "skorch":
        return SkorchDataset(dict(X=X, sample_domain=d), y), {}
    return DeepDADataset(X, y, d), {}


def predict(env):
    n = env.p["n"]
    X, y, d, _ = _inputs(env, n, dom=env.p.get("dom", (-2, 1)))
    ce = env.p.get("ce", False)
    kw = dict(base=torch.nn.CrossEntropyLoss()) if ce else {}
    net = _net(batch_size=2, **kw).initialize()
    src_too = env.pick("allow_source", [False, True])
    rows = [k for k in range(n) if src_too or d[k] < 0]
    env.assume(len(rows) > 0)
    A, akw = _call(env, X, d)
    if src_too:
        akw["allow_source"] = True
    out = [D.head(D.feat(X, k), None) for k in rows]
    env.cover("all rows" if src_too else "target rows")
    pr = net.predict_proba(A, **akw)
    env.check(pr.shape[0] == len(rows), "one row per requested sample")
    for j, o in enumerate(out):
        if ce:
            s = sum(np.exp(v) for v in o)
            o = env.array([np.exp(v) / s for v in o])
        env.check_eq(pr[j], o, "class scores of the requested rows, in order (softmax with cross entropy)")
    lab = net.predict(A, **akw)
    env.check(lab.shape[0] == len(rows), "one label per requested sample")
    for j in range(len(rows)):
        for c in range(2):
            env.check(np.logical_or(lab[j] != c, pr[j, c] >= pr[j, 1 - c]), "the class of highest score")
    f = net.predict_features(A) if not akw or "sample_domain" not in akw else net.predict_features(DeepDADataset(X, None, d))
    env.check(f.shape[0] == n, "features of every row")
    for k in range(n):
        env.check_eq(f[k], D.feat(X, k), "features in order")


def score(env):
    n = env.p["n"]
    X, y, d, w = _inputs(env, n, w=True, dom=(-1, 0))
    net = _net(batch_size=2, module=D.WeightedNet()).initialize()
    src_too = env.pick("allow_source", [False, True])
    rows = [k for k in range(n) if src_too or d[k] < 0]
    env.assume(len(rows) > 0)
    form = env.pick("form", ["arrays", "dict", "dataset"])
    weighted = form == "arrays" and env.pick("weighted", [False, True])
    kw = dict(allow_source=src_too)
    if form == "arrays":
        A, kw["sample_domain"] = X, d
    else:
        A = dict(X=X, sample_domain=d) if form == "dict" else DeepDADataset(X, y, d)
    if weighted:
        kw["sample_weight"] = w
        env.assume(sum(w[k] for k in rows) > 0.1)
    got = net.score(A, None if form == "dataset" and env.pick("stored", [True, False]) else y, **kw)
    env.cover("scored")
    hit = den = 0
    for k in rows:
        o = D.head(D.feat(X, k), w[k] if weighted else None)
        env.assume(o[0] != o[1])
        right = (1 if o[1] > o[0] else 0) == y[k]
        v = w[k] if weighted else 1
        hit = hit + (v if right else 0)
        den = den + v
    env.check_eq(got * den, hit, "fraction of the requested rows predicted right")


def loss(env):
    """the training loss of one batch, with and without weights"""
    n = env.p["n"]
    X, y, d, w = _inputs(env, n, w=True, dom=(-2, 2))
    on_target = env.pick("on_target", [False, True])
    weighted = env.pick("weighted", [False, True])
    base = D.RecBase(rows=weighted)
    adapt = D.RecAdapt(zero=weighted)
    reg = 3.0
    net = _net(base=base, adapt=adapt, criterion__reg=reg, criterion__reduction="none" if weighted else "mean",
               criterion__train_on_target=on_target, module=D.WeightedNet()).initialize()
    rows = [k for k in range(n) if (d[k] < 0) == on_target]
    env.assume(len(rows) > 0)
    t = env.tensor
    Xi = dict(X=t(X), sample_domain=t(d), sample_idx=t(env.array(list(range(n)))))
    if weighted:
        Xi["sample_weight"] = t(w)
    yp = net.infer(Xi, is_fit=True)
    got = env.arr(net.get_loss(yp, t(y), Xi, training=True))
    env.cover("weighted" if weighted else "plain")
    out = [D.head(D.feat(X, k), w[k] if weighted else None) for k in rows]
    if weighted:
        tot = sum(w[k] * base.row(out[j], y[k]) for j, k in enumerate(rows))
        env.check_eq(got * len(rows), tot, "mean over the trained rows of weight times loss of the row")
    else:
        env.check_eq(got, base.value(env, out, [y[k] for k in rows]) + reg * adapt.value, "base + reg * adaptation")


def fit(env):
    """a whole fit: every training step sees aligned rows and the loss it announces"""
    n, b = env.p["n"], env.p["b"]
    kind = env.p["kind"]
    weighted = env.p.get("weighted", False)
    X, y, d, w = _inputs(env, n, dom=env.p.get("dom", (-1, 0)), w=weighted)
    src = [k for k in range(n) if d[k] >= 0]
    tgt = [k for k in range(n) if k not in src]
    env.assume(len(src) > 0 and len(tgt) > 0)
    for i in range(n):
        X[i, 0] = float(i)
    D.arbitrary_shuffles(env)
    base, adapt = D.RecBase(rows=weighted), D.RecAdapt(zero=weighted)
    reg = 2.0
    epochs = env.p.get("epochs", 1)
    more = dict(criterion__reduction="none") if weighted else {}
    if kind == "adapt":
        net = _net(base=base, adapt=adapt, criterion__reg=reg, batch_size=b, max_epochs=epochs, module=D.IgnoringNet(), **more)
    else:
        fac = SourceOnly if kind == "source" else TargetOnly
        net = fac(D.IgnoringNet(), "feat", base_criterion=base, batch_size=b, max_epochs=epochs, **more, **D.PLAIN)
    A, kw = _call(env, X, d, y)
    if isinstance(A, dict):
        A["y"] = y
    if weighted:
        if kw:
            kw["sample_weight"] = w
        elif isinstance(A, dict):
            A["sample_weight"] = w
        elif isinstance(A, SkorchDataset):
            A = SkorchDataset(dict(X=X, sample_domain=d, sample_weight=w), y)
        else:
            A.add_weights(w)
    net.fit(A, y if kw else None, **kw)
    env.cover("fitted")
    ms, mt = len(src) - len(src) % b, len(tgt) - len(tgt) % b
    steps = (max(ms, mt) if kind == "adapt" else ms if kind == "source" else mt) // b
    env.check(len(base.calls) == steps * epochs, "number of training steps")
    rows = tgt if kind == "target" else src
    hist = [bt["train_loss"] for ep in net.history for bt in ep.get("batches", []) if "train_loss" in bt]
    env.check(len(hist) == steps * epochs, "one loss per step")
    for s, (yp, yt) in enumerate(base.calls):
        yp, yt = env.arr(yp), env.arr(yt)
        env.check(yp.shape[0] == b and yt.shape[0] == b, "full batches")
        ks = [int(D.row_of(yp[j])) for j in range(yp.shape[0])]
        env.check(all(k in rows for k in ks), "trained on labelled rows of the requested side only")
        for j, k in enumerate(ks):
            env.check_eq(yp[j], D.head(D.feat(X, k), None), "prediction of the row")
            env.check_eq(yt[j], y[k], "with the label of the same row")
        want = base.value(env, [D.head(D.feat(X, k), None) for k in ks], [y[k] for k in ks])
        if weighted:
            want = sum(w[k] * base.row(D.head(D.feat(X, k), None), y[k]) for k in ks) / b
        if kind == "adapt":
            a = adapt.calls[s]
            fs, ft = env.arr(a["features_s"]), env.arr(a["features_t"])
            ps, pt = env.arr(a["y_pred_s"]), env.arr(a["y_pred_t"])
            ix = env.arr(a["sample_idx_t"])
            env.check(ft.shape[0] == b and fs.shape[0] == b, "as many target as source rows")
            kt = [int(D.row_of(pt[j])) for j in range(pt.shape[0])]
            env.check(all(k in tgt for k in kt), "target rows")
            for j, k in enumerate(ks):
                env.check_eq(fs[j], D.feat(X, k), "source features of the same rows")
                env.check_eq(ps[j], D.head(D.feat(X, k), None), "source predictions of the same rows")
                env.check_eq(env.arr(a["y_s"])[j], y[k], "source labels of the same rows")
            for j, k in enumerate(kt):
                env.check_eq(ft[j], D.feat(X, k), "target features of the target rows")
                env.check_eq(ix[j], sum(1 for q in range(k) if d[q] == d[k]), "index of the target row in its domain")
            want = want + reg * adapt.value
        env.check_eq(hist[s], want, "announced loss of the step")


INSTANCES = [
    ("criterion_2", criterion, dict(n=2), dict(cover=["source", "target"], cost=2)),
    ("criterion_3", criterion, dict(n=3, dom=(-1, 0)), dict(cover=["source", "target"], cost=4)),
    ("criterion_4", criterion, dict(n=4, dom=(-1, 1)), dict(cover=["source", "target"], tier="thorough")),
    ("reduction", reduction, {}, dict(cover=["reduction"])),
    ("module_1", module, dict(n=1), dict(cover=["forward"])),
    ("module_2", module, dict(n=2), dict(cover=["forward"])),
    ("cdan_module_1", cdan_module, dict(n=1), dict(cover=["forward"])),
    ("cdan_module_2", cdan_module, dict(n=2), dict(cover=["forward"])),
    ("predict_2", predict, dict(n=2), dict(cover=["all rows", "target rows"], cost=3)),
    ("predict_3", predict, dict(n=3, dom=(-1, 0)), dict(cover=["all rows", "target rows"], cost=6)),
    ("predict_ce", predict, dict(n=2, ce=True), dict(cover=["all rows", "target rows"], cost=3)),
    ("score_2", score, dict(n=2), dict(cover=["scored"], cost=3)),
    ("score_3", score, dict(n=3), dict(cover=["scored"], cost=6)),
    ("loss_2", loss, dict(n=2), dict(cover=["plain", "weighted"], cost=2)),
    ("loss_3", loss, dict(n=3), dict(cover=["plain", "weighted"], cost=3)),
    ("fit_adapt_3_1", fit, dict(n=3, b=1, kind="adapt"), dict(cover=["fitted"], cost=6)),
    ("fit_adapt_4_2", fit, dict(n=4, b=2, kind="adapt", form="arrays"), dict(cover=["fitted"], cost=9)),
    ("fit_adapt_domains", fit, dict(n=3, b=1, kind="adapt", dom=(-2, 1)), dict(cover=["fitted"], tier="thorough")),
    ("fit_weighted", fit, dict(n=3, b=1, kind="adapt", weighted=True), dict(cover=["fitted"], cost=6)),
    ("fit_weighted_2", fit, dict(n=4, b=2, kind="adapt", weighted=True, form="arrays"), dict(cover=["fitted"], tier="thorough")),
    ("fit_weighted_target", fit, dict(n=3, b=1, kind="target", weighted=True), dict(cover=["fitted"], cost=5)),
    ("predict_skorch", predict, dict(n=2, form="skorch", dom=(-1, 0)), dict(cover=["all rows", "target rows"])),
    ("fit_skorch", fit, dict(n=3, b=1, kind="adapt", form="skorch"), dict(cover=["fitted"])),
    ("fit_skorch_weighted", fit, dict(n=3, b=1, kind="adapt", form="skorch", weighted=True), dict(cover=["fitted"])),
    ("fit_source", fit, dict(n=3, b=1, kind="source", epochs=2), dict(cover=["fitted"], cost=5)),
    ("fit_target", fit, dict(n=3, b=1, kind="target"), dict(cover=["fitted"], cost=5)),
    ("fit_source_2", fit, dict(n=4, b=2, kind="source"), dict(cover=["fitted"], cost=5)),
    ("fit_target_2", fit, dict(n=4, b=2, kind="target"), dict(cover=["fitted"], cost=5)),
]
