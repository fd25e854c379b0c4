"""P36: two or three objects (surrogates of all classes, mixtures, variable-fidelity models, samplers) whose histories of operations are interleaved at random: every result equals the one of the same history run alone; shared arrays stay as they were"""
import copy
import numpy as np
from hypothesis import strategies as st
import gen, models
from iso import apart
from core import sub, need, close, Discard, rng_of
from smt.applications import MOE
from smt.sampling_methods import LHS, FullFactorial, Random

RULE = "operations of at least two objects alternate, and one of them was trained again in between"
KINDS = ["LS", "QP", "IDW", "RBF", "KRG", "KPLS", "KPLSK", "GEKPLS", "MFK", "MFKPLS", "MFKPLSK", "MGP", "RMTB", "RMTC", "GENN"]
OTHER = ["LHS", "FullFactorial", "Random", "VFM", "MOE"]
item = st.one_of(models.any_spec(KINDS), models.any_spec(KINDS), models.any_spec(KINDS), models.any_spec(["RMTB", "RMTC", "RBF", "GENN"]),
                 st.fixed_dictionaries(dict(kind=st.sampled_from(["LHS", "FullFactorial", "Random"]), crit=st.sampled_from(["c", "cm", "corr", "center", "maximin", "ese"]))), models.vfm_spec(),
                 st.fixed_dictionaries(dict(kind=st.sampled_from(["MOE"]), allow=st.sampled_from([["RBF", "IDW"], ["IDW"], ["RBF"]]), clusters=st.integers(1, 2), smooth=st.booleans())))


class Item:
    """one object with its history; every operation runs under its own state of the global generator"""

    def __init__(self, s, D, D2, ops, salt):
        self.s, self.D, self.D2, self.ops, self.salt = s, D, D2, ops, salt
        self.sm, self.out, self.done = None, [], 0
        self.Q = gen.scale(np.random.RandomState(salt + 3).uniform(0.02, 0.98, (4, D.d)), D.xl)

    def fit(self, D):
        k = self.s["kind"]
        if k == "VFM":
            self.sm = models.build_vfm(self.s, D)
            return
        if k == "MOE":
            self.sm.set_training_values(D.X, D.Y)
            self.sm.train()
            return
        models.feed(self.sm, self.s, D)
        models.train(self.sm, self.s)

    def step(self):
        k, s = self.s["kind"], self.s
        np.random.seed(self.salt + 17 * self.done)
        if k in ("LHS", "FullFactorial", "Random"):
            if self.sm is None:
                xl = self.D.xl
                self.sm = LHS(xlimits=xl, criterion=s["crit"], random_state=self.salt % 1000) if k == "LHS" else FullFactorial(xlimits=xl) if k == "FullFactorial" else Random(xlimits=xl)
            self.out.append(("sample", self.sm(4 + self.ops[self.done] % 5)))
        elif self.done == 0:
            if k == "MOE":
                self.sm = MOE(n_clusters=s["clusters"], smooth_recombination=s["smooth"], allow=list(s["allow"]))
            elif k != "VFM":
                self.sm = models.build(s, self.D.d, self.D.xl)
            self.fit(self.D)
        else:
            o = self.ops[self.done] % 5
            if o == 0:
                self.fit(self.D2)
            elif o == 1 and k != "VFM":
                np.random.seed(self.salt)
                if k == "MOE":
                    self.sm.train()
                else:
                    models.train(self.sm, s)
            else:
                m = {"values": self.sm.predict_values} if k in ("VFM", "MOE") else models.methods(self.sm, s, self.D.d)
                for q in sorted(m):
                    self.out.append((q, np.array(m[q](self.Q))))
        self.done += 1


def sequence(c, rng):
    seq = [i for i, it in enumerate(c["items"]) for _ in range(2 + c["more"])]
    rng.shuffle(seq)
    return seq


@sub(gen.cases(items=st.lists(item, min_size=2, max_size=3), twin=st.booleans(), share=st.booleans(), more=st.integers(2, 3), d=st.sampled_from([2, 1, 2, 3]), box=st.sampled_from(["unit", "shift", "mixed"]), pin=st.booleans(), perm=st.integers(0, 2), other=st.sampled_from([{}, {}, {"poly": "linear"}, {"theta0": 0.5}])), quick=450, rule=RULE)
def interleaved(case):
    c = copy.deepcopy(dict(case))
    if c["twin"]:
        c["items"][1] = copy.deepcopy(c["items"][0])
        c["items"][1].update(c["other"] if c["items"][0]["kind"] in models.KRIGING else {})
    d = min([c["d"]] + [models.max_dim(s["kind"]) for s in c["items"]])
    if "MGP" in [s["kind"] for s in c["items"]]:
        d = max(d, 2)
    for i, s in enumerate(c["items"]):
        if s["kind"] in ("RMTB", "RMTC") and (c["perm"] or c["twin"]):
            s["perm"] = c["perm"] + i                    # as many parts, laid out otherwise
        if s.get("crit") == "corr" and d == 1:
            s["crit"] = "c"          # one variable has no correlations
    data = []
    for i, s in enumerate(c["items"]):
        if s["kind"] in models.KRIGING and "theta0" in s and c["pin"]:
            s["pin"] = True
        need_n = models.min_points(s, d) if s["kind"] not in OTHER else (d + 1) * (d + 2) // 2 + 8
        pair = [models.Data(dict(seed=case["seed"] + 100 * i + j), (max(need_n + 2, 8) if s["kind"] != "MOE" else 24) + 3 * j, d, 1, fam="smooth", box=c["box"], design="spread") for j in (0, 1)]
        if c["share"] and i and not s["kind"].startswith("MF") and data[0][0].n >= need_n and s["kind"] != "MOE" and not c["items"][0]["kind"].startswith("MF"):
            pair[0] = data[0][0]
        pair[1] = models.Data(dict(seed=case["seed"] + 100 * i + 51), pair[0].n + 2, d, 1, fam="smooth", box=c["box"], design="spread")
        pair[1].xl[:] = pair[0].xl                       # other data in the same box
        pair[1].X = gen.scale(pair[1].U, pair[1].xl)
        pair[1].w = pair[1].xl[:, 1] - pair[1].xl[:, 0]
        pair[1]._dY = None
        if s["kind"] not in OTHER:
            for D in pair:
                models.usable(s, D)
        data.append(pair)
    rng = rng_of(case, 4)
    ops = [list(map(int, rng.randint(0, 1000, 8))) for _ in c["items"]]
    for o in ops:
        o[1 + c["more"]] = 2 + 5 * (o[1 + c["more"]] // 5)        # the history of each ends with predictions
    if c["items"][0]["kind"] not in ("LHS", "FullFactorial", "Random"):
        ops[0][1] = int(rng.randint(0, 2))
    mk = lambda i, D: Item(c["items"][i], D[0], D[1], ops[i], int(case["seed"] % 2 ** 30) + 1000 * i)
    names = "+".join(s["kind"] for s in c["items"])
    order = sequence(c, rng)

    def one(i):
        runs = []
        for _ in range(2 if c["items"][i]["kind"] in models.KRIGING + ("GENN", "MOE", "VFM") else 1):
            it = mk(i, copy.deepcopy(data[i]))
            try:
                for _ in range(2 + c["more"]):
                    it.step()
            except ValueError as e:
                if "attempts to train" in str(e):
                    raise Discard("training gave up")
                raise
            if it.s["kind"] in models.KRIGING and models.coef_size(it.sm) > 1e6:
                raise Discard("ill-conditioned")
            runs.append(it.out)
        return runs

    def all_together():
        items = [mk(i, data[i]) for i in range(len(c["items"]))]
        keep = copy.deepcopy([(D.X, D.Y, D.xl) for p in data for D in p])
        for i in order:
            items[i].step()
        for a, b in zip(keep, [(D.X, D.Y, D.xl) for p in data for D in p]):
            for u, v in zip(a, b):
                need(np.array_equal(u, v), "%s: an array of the caller's changed" % names)
        return [it.out for it in items]

    # each in a process of its own: what an object leaves behind in a class or module would reach the others
    alone = []
    for i, s in enumerate(c["items"]):
        runs = apart(lambda: one(i))
        if mismatch(runs[0], runs[-1]) is not None:
            need(s["kind"] in models.KRIGING, "%s: the same history twice gives other results" % s["kind"])
            raise Discard("sensitive to rounding")
        alone.append(runs[0])
    for i, out in enumerate(apart(all_together)):
        why = mismatch(out, alone[i])
        need(why is None, "%s among %s: %s" % (c["items"][i]["kind"], names, why))
    alt = sum(a != b for a, b in zip(order, order[1:])) >= 2
    again = any(o % 5 in (0, 1) for p in ops for o in p[1:2 + c["more"]])
    return alt and again, ["kind:" + s["kind"] for s in c["items"]] + ["share"] * c["share"] + ["twin"] * c["twin"]


def mismatch(a, b):
    if [q for q, _ in a] != [q for q, _ in b]:
        return "other results offered: %s / %s" % ([q for q, _ in a], [q for q, _ in b])
    for j, ((q, u), (_, v)) in enumerate(zip(a, b)):
        u, v = np.asarray(u, float), np.asarray(v, float)
        if u.shape != v.shape:
            return "result %d (%s): shape %s, alone %s" % (j, q, u.shape, v.shape)
        if np.array_equal(u, v, equal_nan=True):
            continue
        e = np.nanmax(np.abs(u - v)) if not (np.isnan(u) != np.isnan(v)).any() else np.inf
        if not e <= 1e-7 * (np.nanmax(np.abs(v)) + 1e-6):
            return "result %d (%s): differs by %.3g from the same history alone (largest value %.3g)" % (j, q, e, np.nanmax(np.abs(v)))
    return None

