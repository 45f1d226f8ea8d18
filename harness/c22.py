"""C22 robust statistics."""
from c05 import *


def rob_case(r, k):
    op = ["robust_quantile", "robust_median", "robust_mean"][k % 3]
    n = int(r.integers(1, 50))
    s = [r.random(n) * 1000, r.integers(0, 4, n) * 10.0, np.exp(r.normal(0, 5, n)), r.random(n) + 5][int(r.integers(0, 4))]
    s = np.where(r.random(n) < r.choice([0, .1, .5, .9]), r.choice([0., np.nan, 1e-9, -3.]), s)
    if r.random() < .3:
        s = np.where(r.random(n) < .3, np.nan, s)
    q = float(r.choice([.99, .99, .98, .5, .25, .9, 0., 1., .075]))
    kw = dict(q=q) if (op == "robust_quantile" or q != .99) else {}
    return dict(op=op, s=[float(x) for x in s], q=q, kw=kw, k=k)


def run22(c):
    cases = c.model("MC_Threshold")
    full = len(cases)
    r = c.rng()
    n = c.scale(3000, len(cases))
    sel = [cases[i] for i in sorted(r.permutation(len(cases)))[:n]]
    items = []
    for k, x in enumerate(sel):
        v = [val(a) for a in x["v"]]
        if any(np.isinf(v)):
            v = [a if not np.isinf(a) else 4. for a in v]
        q = [.5, .9, .99, .25][k % 4]
        items.append(dict(op=["robust_quantile", "robust_median", "robust_mean"][k % 3], s=v, q=q, kw=dict(q=q), k=k))
    items += [rob_case(r, k) for k in range(c.scale(6000, 60000))]
    ev = pmap(execute, items)
    c.cov["model_cases"] = dict(emitted=full, replayed=len(sel), random=len(items) - len(sel))
    c.sample(ev[0][0]); c.sample(ev[-1][0])
    c.assumptions += ["records where a value agrees with the cut to double precision are not judged"]
    c.validate("TV_Threshold", ev)


if __name__ == "__main__":
    main("C22", run22)
