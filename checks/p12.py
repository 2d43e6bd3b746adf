"""P12: post-fit parameters reflect the current chain."""
import json
import os

from checks import ctx as X

BOUNDS = "histories of 2..4 operations (fit, continue, query best/median/random, change a parameter, write) with 1..2 walkers, 1..2 fitted and 1 fixed parameters and up to 4 samples, with and without a chain file; every sample and log posterior arbitrary"
ASSUMPTIONS = ["the ensemble sampler stores arbitrary samples (stand-in with emcee's interface); what it is given to evaluate is P11"]
FUNCTIONS = ["context.Context.get_post_parameters", "context.Context.fitting", "context.Context.continue_fitting", "context.Context.pre_fitting", "context.Context._dump_meta", "context.Context.dump_post_parameters", "context.Context.get_all_post_parameters"]


def make(h, fit, backend):
    import appletree as apt

    st = X.mcmc(h)
    X.install(h, needs={"er": ["b", "a", "c"]})
    cfg = {}
    for n in ("b", "a", "c"):
        if n in fit:
            cfg[n] = {"prior_type": "free", "prior_args": {}, "allowed_range": [-100.0, 100.0], "init_mean": 0.0, "init_std": 1.0}
        else:
            cfg[n] = {"prior_type": "fixed", "prior_args": {"val": h.real("val_" + n, lo=-10, hi=10)}}
    more = {"backend_h5": os.path.join(h.tmp, "chain.h5")} if backend else {}
    return apt.Context(X.instruct({"l1": ["er"]}, **more), par_config=cfg), st


def flat(h, st):
    b = st.samplers[-1].backend
    rows = [[h.Sc(x) for x in w] for s in b.rows for w in s]
    return rows, [h.Sc(p) for s in b.logp for p in s]


def middle(h, xs):
    n = len(xs)
    if n <= 2:
        return h.sum(xs) / n
    if n == 3:
        return h.sum(xs) - h.max(xs) - h.min(xs)
    if n == 4:
        return (h.sum(xs) - h.max(xs) - h.min(xs)) / 2
    raise ValueError(n)


def judge(h, got, which, fit, current, st, names=("b", "a", "c")):
    fit = sorted(fit)
    rows, logp = flat(h, st)
    h.check(set(got) == set(names), "every parameter is reported")
    if set(got) != set(names):
        return
    for n in names:
        if n not in fit:
            h.check(h.same(got[n], current[n]), "completed by the current values")
    g = [h.Sc(got[n]) for n in fit]
    if which == "median":
        for i in range(len(fit)):
            h.check_margin(h.same(g[i], middle(h, [r[i] for r in rows])), "median of each parameter", lambda: h.abs(g[i] - middle(h, [r[i] for r in rows])) <= 1e-4)
        return
    alts = []
    for r, p in zip(rows, logp):
        c = [h.same(x, y) for x, y in zip(g, r)]
        if which == "mpe":
            c += [p >= q for q in logp]
        alts.append(h.all(*c))
    h.check(h.any(*alts), "sample with the largest log posterior" if which == "mpe" else "a sample of the chain")


def history(h, fit, walkers, ops, backend):
    ctx, st = make(h, fit, backend)
    for i, op in enumerate(ops):
        before = {k: h.Sc(v) for k, v in ctx.par_manager.get_all_parameter().items()}
        if op[:3] == "fit":
            ctx.fitting(nwalkers=walkers, iteration=int(op[3:] or 1), batch_size=10)
        elif op[:4] == "cont":
            ctx.continue_fitting(iteration=int(op[4:] or 1), batch_size=10)
        elif op == "set":
            n = h.pick(f"set{i}", [n for n in ("b", "a", "c") if n not in fit] + [sorted(fit)[0]])
            ctx.par_manager.set_parameter(n, h.real(f"new{i}", lo=-10, hi=10))
        elif op == "write":
            path = os.path.join(h.tmp, "post.json")
            ctx.dump_post_parameters(path)
            with open(path) as f:
                judge(h, json.loads(f.read()), "mpe", fit, before, st)
        elif op == "damage":
            p = ctx.get_post_parameters()
            for k in p:
                p[k] = 12345.0
            c = ctx.get_all_post_parameters(flat=True)
            c[0] = 0.0
        else:
            judge(h, ctx.get_post_parameters(**({} if op == "mpe" and h.flag(f"default{i}") else {"which": op})), op, fit, before, st)
        if op in ("mpe", "median", "random", "write", "damage"):
            after = ctx.par_manager.get_all_parameter()
            h.check(set(after) == set(before), "asking does not alter the context")
            for k in before:
                h.check(h.same(after[k], before[k]), "asking does not alter the context")
        if op[:3] in ("fit", "con") and backend:
            at = st.samplers[-1].backend.attrs
            now = {k: h.Sc(v) for k, v in ctx.par_manager.get_all_parameter().items()}
            judge(h, json.loads(at["post_parameters"]), "mpe", fit, now, st)
            h.check(list(at["parameter_fit"]) == sorted(fit), "names in the order of the chain's columns")
            h.check(at["batch_size"] == 10, "batch size")


def other(h, fit, walkers):
    """Continuing another context's fit starts from its last samples."""
    ctx, st = make(h, fit, True)
    ctx.fitting(nwalkers=walkers, iteration=2, batch_size=10)
    first = st.samplers[-1]
    if h.flag("ask_first"):
        ctx.get_post_parameters()
    import appletree as apt

    ins = X.instruct({"l1": ["er"]}, backend_h5=os.path.join(h.tmp, "second.h5"))
    c2 = apt.Context(ins, par_config=ctx.par_config)
    c2.continue_fitting(ctx, iteration=1, batch_size=10)
    second = st.samplers[-1]
    h.check(second is not first and second.nwalkers == walkers, "as many walkers")
    h.eq_list(second.initial, [[x for x in w] for w in first.backend.rows[-1]], "starts from the last samples")
    now = {k: h.Sc(v) for k, v in c2.par_manager.get_all_parameter().items()}
    judge(h, c2.get_post_parameters(), "mpe", fit, now, st)
    judge(h, json.loads(second.backend.attrs["post_parameters"]), "mpe", fit, now, st)
    st.samplers.append(first)
    now = {k: h.Sc(v) for k, v in ctx.par_manager.get_all_parameter().items()}
    judge(h, ctx.get_post_parameters(), "mpe", fit, now, st)


def bad(h):
    ctx, st = make(h, ("b",), False)
    ctx.fitting(nwalkers=1, iteration=1, batch_size=10)
    h.refuse(lambda: ctx.get_post_parameters(which="best"), "unknown kind refused")


def instances(tier):
    big = tier == "thorough"
    o = dict(max_paths=4000)
    H = [
        ("fit2", "mpe"),
        ("fit2", "median"),
        ("fit2", "random"),
        ("fit1", "set", "mpe"),
        ("fit1", "mpe", "cont1", "mpe"),
        ("fit1", "mpe", "cont1", "median"),
        ("fit1", "median", "cont1", "random"),
        ("fit1", "cont1", "write"),
        ("fit1", "random", "set", "median"),
        ("fit2", "mpe", "fit1", "mpe"),
        ("fit2", "damage", "mpe"),
        ("fit2", "damage", "median"),
    ]
    if big:
        H += [("fit1", "mpe", "cont1", "random", "cont1", "mpe"), ("fit1", "mpe", "set", "cont1", "write"), ("fit3", "median"), ("fit1", "damage", "cont1", "median"), ("fit2", "write", "fit2", "write")]
    out = []
    for ops in H:
        need = any(x[:4] == "cont" for x in ops)
        for fit in (("b", "c"), ("a",)) if big else (("b", "c"),):
            for w in (1, 2):
                samples = 0
                for x in ops:
                    if x[:3] == "fit":
                        samples = int(x[3:])
                    elif x[:4] == "cont":
                        samples += int(x[4:])
                if samples * w > 4:
                    continue
                for backend in (True,) if need else (True, False):
                    out.append(dict(name="_".join(ops) + f"_{len(fit)}p{w}w" + ("_file" if backend else ""), func=history, params=dict(fit=fit, walkers=w, ops=ops, backend=backend), opts=o))
    out.append(dict(name="other_context", func=other, params=dict(fit=("b", "c"), walkers=2), opts=o))
    out.append(dict(name="bad", func=bad))
    return out
