"""P29: random networks (depths, widths, activations, weights, outputs, coefficients, with and without derivative data): loss and its gradient against an independent network differentiated with complex steps, forward values and Jacobian against it, data handling (normalisation, minibatches, CSV) round trips, training runs judged by their recorded losses, optimiser update rules against the textbook"""
import os, tempfile
import numpy as np
from hypothesis import strategies as st
import gen
from core import sub, need, close, Discard, rng_of
from smt.surrogate_models import GENN
from smt.surrogate_models.genn import load_smt_data, smt_to_genn
from smt.utils.neural_net.model import Model
from smt.utils.neural_net import activation as AC, data as ND, optimizer as OP, metrics as ME

RULE = "at least one hidden layer and two samples"
ACT = {"tanh": AC.Tanh, "sigmoid": AC.Sigmoid, "linear": AC.Linear}
F = {"tanh": lambda z: np.tanh(z), "sigmoid": lambda z: 1 / (1 + np.exp(-z)), "linear": lambda z: z}
D = {"tanh": lambda z: 1 - np.tanh(z) ** 2, "sigmoid": lambda z: F["sigmoid"](z) * (1 - F["sigmoid"](z)), "linear": lambda z: np.ones_like(z)}
ARCH = st.lists(st.integers(1, 5), min_size=0, max_size=4)
NET = dict(nx=st.integers(1, 4), ny=st.integers(1, 3), hidden=ARCH, acts=st.lists(st.sampled_from(["tanh", "tanh", "sigmoid", "linear"]), min_size=5, max_size=5), m=st.sampled_from([1, 2, 3, 5, 8]), wscale=st.sampled_from([1.0, 0.3, 3.0]))


def network(case, rng):
    dims = [case["nx"]] + case["hidden"] + [case["ny"]]
    L = len(dims) - 1
    P = {}
    for l in range(1, L + 1):
        P["W%d" % l] = rng.randn(dims[l], dims[l - 1]) * case["wscale"]
        P["b%d" % l] = rng.randn(dims[l], 1) * case["wscale"]
    names = (case["acts"][:L - 1] + ["linear"]) if rng.rand() < 0.7 else case["acts"][:L]
    return dims, P, names


def net(P, names, X):
    """values [ny, m] and Jacobian [ny, nx, m], one sample after the other"""
    ys, js = [], []
    for i in range(X.shape[1]):
        a, J = X[:, i], np.eye(X.shape[0])
        for l, f in enumerate(names):
            W, b = P["W%d" % (l + 1)], P["b%d" % (l + 1)][:, 0]
            z = W @ a + b
            J = D[f](z)[:, None] * (W @ J)
            a = F[f](z)
        ys.append(a)
        js.append(J)
    return np.stack(ys, -1), np.stack(js, -1)


def loss(P, names, X, Y, J, lambd, gamma):
    m = X.shape[1]
    y, j = net(P, names, X)
    c = 0.5 * np.sum((y - Y) ** 2) + 0.5 * max(0.0, lambd) * sum(np.sum(P["W%d" % (l + 1)] ** 2) for l in range(len(names)))
    if J is not None:
        c = c + 0.5 * min(max(0.0, gamma), 1.0) * np.sum((j - J) ** 2)
    return c / m


def loss_gradient(P, names, *a):
    g = {}
    for k in P:
        g[k] = np.zeros(P[k].shape)
        for i in np.ndindex(P[k].shape):
            Q = {q: v.astype(complex) for q, v in P.items()}
            Q[k][i] += 1e-30j
            g[k][i] = loss(Q, names, *a).imag / 1e-30
    return g


def same_params(p, q, what):
    need(set(p) == set(q) and all(np.array_equal(p[k], q[k]) for k in p), what)


@sub(gen.cases(lambd=st.sampled_from([0.0, 0.1, 2.0, 0.7, -0.5]), gamma=st.sampled_from([0.0, 1.0, 0.4, 1.5, -0.3]), jac=st.sampled_from([True, True, True, False]), **NET), quick=900, rule=RULE)
def gradients(case):
    rng = rng_of(case, 1)
    dims, P, names = network(case, rng)
    m = case["m"]
    X, Y = rng.randn(dims[0], m), rng.randn(dims[-1], m)
    J = rng.randn(dims[-1], dims[0], m) if case["jac"] else None
    acts = [ACT[n]() for n in names]
    P0 = {k: v.copy() for k, v in P.items()}
    M = Model()
    lam, gam = case["lambd"], case["gamma"]
    c = M.cost(P, acts, X, Y, J, lam, gam)
    ref = loss(P, names, X, Y, J, lam, gam)
    close(np.squeeze(c), ref, 1e-10, 1e-12, "loss")
    g = M.grad(P, acts, X, Y, J, lam, gam)
    w = loss_gradient(P, names, X, Y, J, lam, gam)
    need(set(g) == set(w), "gradient has entries %s" % sorted(g))
    top = max(np.abs(v).max() for v in w.values())
    for k in w:
        close(g[k], w[k], 1e-8, 1e-10 * (top + 1), "gradient of the loss with respect to %s" % k)
    same_params(P, P0, "parameters changed by evaluating the loss")
    return len(case["hidden"]) > 0 and m > 1, ["depth:%d" % len(case["hidden"]), "jac" if J is not None and gam > 0 else "nojac"]


@sub(gen.cases(far=st.sampled_from([False, False, True]), **NET), quick=600, rule=RULE)
def forward(case):
    """predictions and Jacobian of networks with given parameters; activation functions"""
    rng = rng_of(case, 2)
    dims, P, names = network(case, rng)
    L = len(dims) - 1
    if len(set(case["hidden"])) <= 1 and case["hidden"]:
        names = ["tanh"] * (L - 1) + ["linear"]
        M = Model()
        M.load_parameters(P)
    else:
        M = Model(_parameters=P, _activations=[ACT[n]() for n in names], _layer_dims=dims, _n_x=dims[0], _n_y=dims[-1])
    X = rng.randn(dims[0], case["m"]) * (1e4 if case["far"] else 1.0)
    with np.errstate(all="ignore"):
        y, j = net(P, names, X)
        gy, gj = M.evaluate(X), M.gradient(X)
    sc = 1 + np.abs(y).max()
    close(gy, y, 1e-10, 1e-12 * sc, "network output")
    close(gj, j, 1e-9, 1e-11 * (1 + np.abs(j).max()), "network Jacobian")
    z = rng.randn(3, 4) * rng.choice([1.0, 5.0, 200.0 if case["far"] else 0.1])
    for n in ACT:
        a = ACT[n]()
        with np.errstate(all="ignore"):
            close(a.evaluate(z), F[n](z), 1e-12, 1e-15, "%s" % n)
            close(a.first_derivative(z), D[n](z), 1e-10, 1e-14, "derivative of %s" % n)
            if not case["far"]:
                close(a.second_derivative(z), D[n](z + 1e-30j).imag / 1e-30, 1e-9, 1e-13, "second derivative of %s" % n)
    return len(case["hidden"]) > 0 and case["m"] > 1, ["far" if case["far"] else "near"]


def samples(rng, nx, ny, m, scale):
    X = rng.randn(nx, m) * 10.0 ** rng.uniform(-scale, scale, (nx, 1)) + rng.uniform(-5, 5, (nx, 1))
    Y = rng.randn(ny, m) * 10.0 ** rng.uniform(-scale, scale, (ny, 1)) + rng.uniform(-5, 5, (ny, 1))
    return X, Y, rng.randn(ny, nx, m)


@sub(gen.cases(nx=st.integers(1, 4), ny=st.integers(1, 3), m=st.integers(1, 40), batch=st.sampled_from([1, 2, 3, 7, 8, 16, 64]), jac=st.booleans(), const=st.booleans(), sd=st.sampled_from([None, 0, 3])), quick=900, rule="more than one batch")
def data(case):
    rng = rng_of(case, 3)
    nx, ny, m = case["nx"], case["ny"], case["m"]
    X, Y, J = samples(rng, nx, ny, m, 2)
    if case["const"]:
        X[rng.randint(nx)] = rng.uniform(-3, 3)
        Y[rng.randint(ny)] = rng.choice([0.0, 2.5])
    if not case["jac"]:
        J = None
    keep = [None if a is None else a.copy() for a in (X, Y, J)]
    Xn, Yn, Jn, mx, sx, my, sy = ND.normalize_data(X, Y, J)
    for a, n, mu, s, what in ((X, Xn, mx, sx, "inputs"), (Y, Yn, my, sy, "outputs")):
        sd = np.abs(a).max(axis=1, keepdims=True)
        back = n * s + mu
        need(np.isfinite(n).all() and (s > 0).all(), "normalised %s or their scale are degenerate" % what)
        close(back / sd.clip(1e-300), a / sd.clip(1e-300), 0, 1e-12, "normalised %s mapped back" % what)
        r = a.std(axis=1) > 1e-9 * sd[:, 0]
        close(n[r].mean(axis=1), np.zeros(r.sum()), 0, 1e-6, "mean of normalised %s" % what)
        close(n[r].std(axis=1), np.ones(r.sum()), 0, 1e-6, "deviation of normalised %s" % what)
    if J is not None:
        close(Jn * sy[:, :, None] / sx.T[:, :, None], J, 1e-12, 1e-13, "normalised Jacobian mapped back")
    # synchronous minibatches partition the samples
    b = ND.random_mini_batches(X, Y, J, case["batch"], case["sd"])
    size = min(case["batch"], m)
    need(sum(x[0].shape[1] for x in b) == m and all(0 < x[0].shape[1] <= size for x in b) and len(b) == -(-m // size), "minibatches of sizes %s for %d samples, batch size %d" % ([x[0].shape[1] for x in b], m, case["batch"]))
    bx = np.hstack([x[0] for x in b])
    by = np.hstack([x[1] for x in b])
    key = np.vstack([X, Y])
    got = np.vstack([bx, by])
    if J is not None:
        key = np.vstack([key, J.reshape(-1, m)])
        got = np.vstack([got, np.concatenate([x[2] for x in b], axis=2).reshape(-1, m)])
    else:
        need(all(x[2] is None for x in b), "derivatives from nowhere")
    need(np.array_equal(key[:, np.lexsort(key)], got[:, np.lexsort(got)]), "minibatches do not partition the samples")
    if case["sd"] is not None:
        b2 = ND.random_mini_batches(X, Y, J, case["batch"], case["sd"])
        need(all(np.array_equal(p[0], q[0]) and np.array_equal(p[1], q[1]) for p, q in zip(b, b2)), "same seed, other minibatches")
    for a, k, w in zip((X, Y, J), keep, "XYJ"):
        need(a is None or np.array_equal(a, k), "argument %s changed" % w)
    # R squared of one response
    p = Y[:1] + rng.randn(1, m) * rng.choice([0, 0.1, 2.0])
    ss = ((Y[0] - Y[0].mean()) ** 2).sum()
    close(np.ravel(ME.rsquare(p, Y[:1])), [1 - ((p - Y[:1]) ** 2).sum() / (ss + 1e-8 * m)], 1e-9, 1e-9, "R squared")
    return m > size, ["J" if J is not None else "noJ", "const" if case["const"] else "full"]


@sub(gen.cases(nx=st.integers(1, 4), ny=st.integers(1, 3), m=st.integers(2, 9), jac=st.booleans()), quick=160, rule="columns are permuted")
def csv(case):
    rng = rng_of(case, 4)
    nx, ny, m = case["nx"], case["ny"], case["m"]
    X, Y, J = samples(rng, nx, ny, m, 3)
    # the order of the labels counts, not their names
    names = iter(rng.permutation(["c%02d" % i for i in range(40)] + ["X", "y 1", "dy/dx", "Z[0]"]))
    cols = [(next(names), v) for v in list(X) + list(Y) + [J[i, j] for i in range(ny) for j in range(nx)]]
    lab = [k for k, _ in cols]
    o = rng.permutation(len(cols))
    d = tempfile.mkdtemp(prefix="verif-csv-")
    f = os.path.join(d, "a.csv")
    try:
        with open(f, "w") as h:
            h.write(",".join(cols[i][0] for i in o) + "\n")
            for r in range(m):
                h.write(",".join("%.17g" % cols[i][1][r] for i in o) + "\n")
        a, b, c = ND.load_csv(f, [k for k, _ in cols[:nx]], [k for k, _ in cols[nx:nx + ny]], [lab[nx + ny + i * nx:nx + ny + (i + 1) * nx] for i in range(ny)] if case["jac"] else None)
    finally:
        if os.path.exists(f):
            os.remove(f)
        os.rmdir(d)
    close(a, X, 1e-15, 0, "inputs read")
    close(b, Y, 1e-15, 0, "outputs read")
    need((c is None) == (not case["jac"]), "derivatives read: %s" % (c is None))
    if c is not None:
        close(c, J, 1e-15, 0, "derivatives read")
    return True


@sub(gen.cases(d=st.integers(1, 3), ny=st.sampled_from([1, 1, 2]), n=st.sampled_from([2, 5, 9, 12]), deep=st.integers(1, 3), wide=st.integers(1, 5), gamma=st.sampled_from([0.0, 1.0, 0.5]), lambd=st.sampled_from([0.0, 0.1]), alpha=st.sampled_from([0.05, 0.5]), jac=st.sampled_from([True, True, False]), batch=st.sampled_from([2, 4, 64]), epochs=st.integers(1, 3), box=st.sampled_from(["unit", "shift", "mixed"]), betas=st.sampled_from([[0.9, 0.99], [0.5, 0.9], [0.0, 0.999]]), ye=st.sampled_from([0, 2, -2])), quick=320, rule="loss went down")
def training(case):
    rng = rng_of(case, 5)
    d, n, ny = case["d"], case["n"], case["ny"]
    B = gen.box(rng, case["box"], d)
    U = gen.unit_design(rng, "spread", n, d)
    X = gen.scale(U, B)
    w = rng.uniform(-2, 2, (d, ny))
    s = 10.0 ** case["ye"]
    Y = s * (np.sin(U @ w) + U @ w)
    dY = s * (np.cos(U @ w) + 1)[:, None, :] * w[None] / (B[:, 1] - B[:, 0])[None, :, None]
    its, sd = 12, int(rng.randint(1000))

    def fit(state, betas=case["betas"]):
        np.random.seed(state)
        g = GENN(deep=case["deep"], wide=case["wide"], gamma=case["gamma"], lambd=case["lambd"], alpha=case["alpha"], beta1=betas[0], beta2=betas[1], mini_batch_size=case["batch"], num_epochs=case["epochs"], num_iterations=its, seed=sd, is_print=False)
        g.options["print_global"] = False
        if ny == 1 and rng.rand() < 0.5:
            load_smt_data(g, X, Y, dY[:, :, 0] if case["jac"] else None)
        else:
            g.set_training_values(X, Y)
            if case["jac"]:
                for k in range(d):
                    g.set_training_derivatives(X, dY[:, k], k)
        g.train()
        return g
    g = fit(1)
    Q = gen.scale(rng.uniform(-0.1, 1.1, (5, d)), B)
    v = g.predict_values(Q)
    M = g.model
    need(M.layer_dims == [d] + [case["wide"]] * case["deep"] + [ny], "layers %s" % M.layer_dims)
    need(g.options["gamma"] == case["gamma"], "training changed an option")
    # prediction = network of normalised inputs
    mx, sx, my, sy = X.mean(0), X.std(0), Y.mean(0), Y.std(0)
    names = ["tanh"] * case["deep"] + ["linear"]
    y, j = net(M.parameters, names, ((Q - mx) / sx).T)
    close(v, y.T * sy + my, 1e-8, 1e-8 * s, "prediction against the network")
    for k in range(d):
        close(g.predict_derivatives(Q, k), j[:, k].T * sy / sx[k], 1e-8, 1e-8 * s / sx[k], "derivative against the network")
    Xt, Yt, Jt = M.training_data
    close(Xt.T, X, 1e-10, 1e-10 * np.abs(X).max(), "training inputs kept")
    close(Yt.T, Y, 1e-10, 1e-10 * s, "training outputs kept")
    need((Jt is None) == (not case["jac"]), "training derivatives kept: %s" % (Jt is None))
    if Jt is not None:
        close(np.transpose(Jt, (2, 1, 0)) * sx[None, :, None] / s, dY * sx[None, :, None] / s, 1e-9, 1e-9, "training derivatives kept")
    # losses
    Xn, Yn = ((X - mx) / sx).T, ((Y - my) / sy).T
    Jn = np.transpose(dY, (2, 1, 0)) * sx[None, :, None] / sy[:, None, None] if case["jac"] else None
    h = M.training_history
    nb = -(-n // min(case["batch"], n))
    need(len(h) == case["epochs"] and all(len(h["epoch_%d" % e]) == nb for e in range(case["epochs"])), "training history has %s" % {e: len(b) for e, b in h.items()})
    down = False
    for e in range(case["epochs"]):
        for b in range(nb):
            c = np.array(h["epoch_%d" % e]["batch_%d" % b], float)
            need(len(c) == its + 1, "%d losses recorded for %d iterations" % (len(c), its))
            need((np.diff(c) <= 1e-4 * (1 + c[:-1])).all(), "loss went up during a minibatch: %s" % c)
            down |= c[-1] < c[0]
    if nb == 1:
        last = float(np.ravel(h["epoch_%d" % (case["epochs"] - 1)]["batch_0"])[-1])
        close(loss(M.parameters, names, Xn, Yn, Jn, case["lambd"], case["gamma"]), last, 1e-7, 1e-9, "loss of the trained network")
        np.random.seed(sd)
        p0 = Model.initialize(d, ny, case["deep"], case["wide"]).parameters
        # with one batch the first recorded loss is that of the initial network
        close(float(np.ravel(h["epoch_0"]["batch_0"])[0]), loss(p0, names, Xn, Yn, Jn, case["lambd"], case["gamma"]), 1e-7, 1e-9, "loss of the initial network")
    g2 = fit(2)
    need(np.array_equal(g2.predict_values(Q), v), "same seed, other network")
    if rng.rand() < 0.2 and down:
        for b in ([0.3, case["betas"][1]], [case["betas"][0], 0.7]):
            need(not np.array_equal(fit(1, b).predict_values(Q), v), "decay rates %s and %s train the same network" % (b, case["betas"]))
    # validation leaves the model and its training points alone
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    if rng.rand() < 0.15 and case["jac"]:
        Z = gen.scale(rng.rand(4, d), B)
        g.goodness_of_fit(Z, rng.randn(4, ny), rng.randn(4, d) if ny == 1 else None) if ny == 1 else M.goodness_of_fit(Z.T, rng.randn(ny, 4))
        plt.close("all")
        need(np.array_equal(g.training_points[None][0][0], X) and np.array_equal(g.training_points[None][0][1], Y), "validation replaced the training points")
        need(np.array_equal(g.predict_values(Q), v), "validation changed the model")
        g.train()
        need(np.array_equal(g.predict_values(Q), v), "training again after validation gives another network")
    return down, ["batches:%s" % ("1" if nb == 1 else "n"), "jac" if case["jac"] else "nojac"]


@sub(gen.cases(n=st.integers(1, 4), rule=st.sampled_from(["adam", "gd"]), lr=st.sampled_from([0.01, 0.1, 0.5]), b1=st.sampled_from([0.9, 0.0, 0.5, 0.99]), b2=st.sampled_from([0.99, 0.5, 0.999]), its=st.sampled_from([2, 5, 12, 80]), keys=st.integers(1, 6), fd=st.sampled_from([False, False, True])), quick=500, rule="two parameters or more")
def optimiser(case):
    """updates on a loss that falls in every coordinate, so that no step is ever cut back"""
    rng = rng_of(case, 6)
    n = case["n"]
    if case["its"] > 12 and case["rule"] == "adam":      # other rates leap so far that steps are cut back
        case = dict(case, lr=min(case["lr"], 0.1), b1=max(case["b1"], 0.9), b2=max(case["b2"], 0.99))
    sh = dict([("p", (n, 1)), ("q", (1, 2)), ("b2", (1, 1)), ("W1", (2, 2)), ("b1", (2, 1)), ("a", (1, 1))][:case["keys"]])
    a = {k: rng.uniform(0.2, 2, s) for k, s in sh.items()}
    x0 = {k: rng.uniform(-1, 1, s) for k, s in sh.items()}

    def f(x):
        return np.array(sum(np.sum(a[k] * np.exp(0.5 * x[k])) for k in x))

    def df(x):
        return {k: 0.5 * a[k] * np.exp(0.5 * x[k]) for k in x}
    keep = {k: v.copy() for k, v in x0.items()}
    C = OP.Adam if case["rule"] == "adam" else OP.GD
    o = C.initialize(x0, f, None if case["fd"] else df, learning_rate=case["lr"], beta1=case["b1"], beta2=case["b2"])
    res = o.optimize(max_iter=case["its"], is_print=False)
    same_params(x0, keep, "initial guess changed")
    H = o.design_history
    need(len(H) == case["its"] + 1 and len(o.cost_history) == len(H), "%d designs recorded for %d iterations" % (len(H), case["its"]))
    same_params(H[0], x0, "first design is not the initial guess")
    same_params(H[-1], res, "returned design is not the last one")
    for x, c in zip(H, o.cost_history):
        close(c, f(x), 1e-12, 0, "recorded loss")
    step = {k: [H[t][k] - H[t + 1][k] for t in range(case["its"])] for k in x0}
    # the effective rate is what the first step shows, at most the given one
    g0 = df(H[0])
    r = [step[k][0] / (g0[k] if case["rule"] == "gd" else 1) for k in x0]
    r = np.concatenate([np.ravel(v) for v in r])
    lr = np.median(r)
    need(0 < lr <= case["lr"] * (1 + 1e-6), "first step has rate %g, given %g" % (lr, case["lr"]))
    tol = 1e-4 if case["fd"] else 1e-7
    for k in x0:
        v = s = 0.0
        for t in range(case["its"]):
            g = df(H[t])[k]
            if case["rule"] == "gd":
                want = lr * g
            else:
                v = case["b1"] * v + (1 - case["b1"]) * g
                s = case["b2"] * s + (1 - case["b2"]) * g * g
                want = lr * (v / (1 - case["b1"] ** (t + 1))) / np.sqrt(s / (1 - case["b2"] ** (t + 1)))
            close(step[k][t], want, tol, tol * lr, "step %d of %s" % (t, k))
    w = {k: v.copy() for k, v in x0.items()}
    gfd = OP.finite_difference(w, f)
    same_params(w, x0, "finite differences changed the parameters")
    for k in x0:
        close(gfd[k], df(x0)[k], 1e-6, 1e-8, "finite difference gradient")
    return n > 1, [case["rule"], "fd" if case["fd"] else "exact", "%s, %d steps" % (case["rule"], case["its"])]


@sub(gen.cases(d=st.integers(1, 3), n=st.integers(2, 6), bad=st.integers(0, 2)), quick=80, rule="derivative points differ from the training points")
def elsewhere(case):
    """derivatives taken at other points than the training points are not silently used as if taken there"""
    rng = rng_of(case, 7)
    d, n = case["d"], case["n"]
    X, Y, dY = rng.rand(n, d), rng.rand(n, 1), rng.rand(n, d)
    g = GENN(num_iterations=2, num_epochs=1, is_print=False)
    g.options["print_global"] = False
    g.set_training_values(X, Y)
    b = case["bad"] % d
    for k in range(d):
        Z = X.copy()
        if k == b:
            Z[rng.randint(n), rng.randint(d)] += 0.1
        g.set_training_derivatives(Z, dY[:, k], k)
    try:
        g.train()
    except Exception:
        return True
    need(False, "training accepted derivatives at other points than the training points")
