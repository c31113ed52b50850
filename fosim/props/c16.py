"""C16: a tree plot shows exactly its option's tree, whatever else is open."""
import numpy as np

from .. import catalog as C, pool
from ..kernel import Violation, make_fault

RUNS = {"quick": 900, "thorough": 15000}
LINES = True
PRISTINE = True
LISTS = ["steps"]
UNIT = "library source lines executed under the logical clock"
RULE = ("one run = one or two tree options and 3-9 steps: plots (any digits, offsets, sizes), parameter changes, figures opened, drawn on, selected and closed by the caller, plots interrupted at generated "
        "lines; the label of every node is compared with the tree of a fresh process and of the reference model, and every other figure with its picture before; non-trivial when two figures were open or a plot was interrupted")
STATE = "(class, call or put, steps, exercise, open figures, what is current, disturbance) combinations"
REAL = ["plot, call(tree=True), put(tree=True) of the four tree classes", "matplotlib (Agg backend)"]
STUB = ["fault injection at source lines"]
ASSUME = ["one fault per operation", "nodes are identified by the positions of their labels: columns are steps, within a column the highest node is the highest asset price"]
KINDS = ["KeyboardInterrupt", "SystemExit", "SimCancel", "MemoryError", "ValueError", "TimeoutError", "FloatingPointError", "CancelledError"]


def gen(R, i, tier):
    opts = []
    for _ in range(R.choice([1, 1, 2])):
        key = R.choice(C.TREEKEYS)
        p = C.BY[key].gen(R)
        p["n"] = R.choice([1, 1, 2, 3, 4, 5, R.randint(1, 9)]) if R.random() < .93 else R.randint(10, 18)
        opts.append({"key": key, "params": p})
    cur = [dict(o["params"]) for o in opts]
    steps = []
    for _ in range(R.randint(3, 9)):
        x = R.random()
        o = R.randrange(len(opts))
        if x < .55:
            s = {"t": "plot", "o": o, "m": R.choice([True, False]), "kw": {}}
            if R.random() < .5:
                s["kw"]["digits"] = R.choice([0, 1, 3, 4, 6, -1])
            if R.random() < .3:
                s["kw"]["size"] = R.choice([6, 8, 20])
            if R.random() < .3:
                s["kw"]["dx"] = R.choice([0.0, -.3, .1])
                s["kw"]["dy"] = R.choice([0.0, .1, 1.0])
            if R.random() < .3:
                s["kw"]["figsize"] = R.choice([[4, 4], [10, 6]])
            if R.random() < .3:
                s["inj"] = [R.choice(KINDS), R.random()]
            elif R.random() < .08:
                s["kw"]["figsize"] = [-1, -1]
        elif x < .63:
            n, v = pool.change(R, opts[o]["key"], cur[o])
            if n == "n":
                v = min(v, 7)
            if n == "sigma" and v is None:
                v = .3
            cur[o][n] = v
            s = {"t": "set", "o": o, "n": n, "v": v}
        else:
            s = {"t": R.choice(["open", "open", "subplots", "draw", "select", "close", "closeall", "again", "rc"]), "i": R.randrange(50)}
        steps.append(s)
    steps.append({"t": "plot", "o": R.randrange(len(opts)), "m": R.choice([True, False]), "kw": {}})
    return {"seed": R.randrange(2 ** 31), "opts": opts, "steps": steps}


def valid(sc):
    return bool(sc["steps"])


def simplify(sc):
    import copy
    for i, s in enumerate(sc["steps"]):
        if "inj" in s:
            c = copy.deepcopy(sc)
            del c["steps"][i]["inj"]
            yield c
        if s.get("kw"):
            c = copy.deepcopy(sc)
            c["steps"][i]["kw"] = {}
            yield c


def picture(fig):
    """everything drawn on a figure, as data"""
    from matplotlib.text import Annotation, Text
    out = [tuple(fig.get_size_inches())]
    out += [t.get_text() for t in fig.texts]
    for ax in fig.axes:
        out.append(("axes", ax.get_xlabel(), ax.get_ylabel(), ax.get_title(), tuple(np.round(ax.get_xlim(), 9)), tuple(np.round(ax.get_ylim(), 9))))
        for ln in ax.lines:
            out.append(("line", tuple(np.round(np.asarray(ln.get_xdata(), float), 9)), tuple(np.round(np.asarray(ln.get_ydata(), float), 9)), ln.get_color(), ln.get_marker()))
        for t in ax.texts:
            out.append(("text", t.get_text(), tuple(float(z) for z in (t.xy if isinstance(t, Annotation) else t.get_position())), t.get_fontsize()))
        out.append((len(ax.patches), len(ax.collections), len(ax.images)))
    return out


def labels(fig):
    """{step: [(height, text), ...] highest first}"""
    from matplotlib.text import Annotation
    cols = {}
    for ax in fig.axes:
        # a plain text stands beside its node, by the same offset everywhere
        plain = [t.get_position()[0] for t in ax.texts if not isinstance(t, Annotation)]
        x0 = min(plain, default=0.0)
        for t in ax.texts:
            xy = t.xy if isinstance(t, Annotation) else (t.get_position()[0] - x0, t.get_position()[1])
            cols.setdefault(round(float(xy[0]), 6), {}).setdefault(round(float(xy[1]), 6), set()).add(t.get_text())
    for t in fig.texts:
        cols.setdefault(None, {}).setdefault(0, set()).add(t.get_text())
    return {x: [(y, c[y]) for y in sorted(c, reverse=True)] for x, c in cols.items()}


def compare(fig, levels, digits):
    """None, or what is wrong with the labels; levels[j] = the values of step j, highest price first"""
    cols = labels(fig)
    if sorted(cols, key=lambda x: (x is None, x)) != list(range(len(levels))):
        return f"the labelled steps are {sorted(map(str, cols))}, not 0..{len(levels) - 1}"
    for j, vals in enumerate(levels):
        c = cols[j]
        if len(c) != len(vals):
            return f"step {j} has {len(c)} labelled nodes instead of {len(vals)}"
        for i, ((y, texts), v) in enumerate(zip(c, vals)):
            for t in texts:
                try:
                    x = float(t)
                except ValueError:
                    return f"node {i} of step {j} is labelled {t!r}"
                tol = .5 * 10.0 ** -digits * (1 + 1e-6) + 1e-9 * abs(v)
                if not (abs(x - v) <= tol) or abs(round(x, digits) - x) > 1e-12 * abs(x):
                    return f"node {i} of step {j} is labelled {t}; its value is {v!r} ({digits} digits)"
    return None


def levels_of(tree, key):
    n = tree.shape[1] - 1
    if key == "TRI":
        return [list(tree[n - j:n + j + 1, j]) for j in range(n + 1)]
    return [list(tree[:j + 1, j]) for j in range(n + 1)]


def run(sc, ctx):
    import matplotlib.pyplot as plt
    import matplotlib as mpl
    from matplotlib._pylab_helpers import Gcf
    k = ctx.k
    mpl.rcParams["figure.max_open_warning"] = 0
    live, params, keys = [], [], []
    for o in sc["opts"]:
        live.append(C.BY[o["key"]].build(C.dec_params(o["params"])))
        params.append(dict(o["params"]))
        keys.append(o["key"])
    figs = []                 # (figure, picture, what it is)
    seen = {}
    nlines = {}
    rep = (0, 0)
    non = 0

    def others(tag, new=None):
        for f, pic, what in figs:
            if f is not new and picture(f) != pic:
                raise Violation("figure-altered", f"{tag} altered {what}")

    def refresh():
        for i, (f, pic, what) in enumerate(figs):
            figs[i] = (f, picture(f), what)

    def doplot(j, s):
        nonlocal non, rep
        o = s["o"]
        key, obj = keys[o], live[o]
        spec = C.BY[key]
        op = {"op": "call" if s["m"] else "put", "tree": True}
        tag = f"step {j}: plotting the {op['op']} tree of a {key} option with {params[o]}"
        wst, tree = ctx.quotes(key, params[o], [op])[0]
        kw = {a: tuple(b) if isinstance(b, list) else b for a, b in s["kw"].items()}
        exc = make_fault(s["inj"][0]) if "inj" in s else None
        lines = nlines.get((key, params[o]["n"]), 60 + 30 * int(params[o]["n"] or 1) ** 2)
        inj = (exc, 1 + int(s["inj"][1] * lines)) if exc is not None else None
        nums = set(plt.get_fignums())
        open_ = [m.canvas.figure for m in Gcf.get_all_fig_managers()]
        cur = plt.gcf() if nums else None
        st, v = k.run(lambda: obj.plot(call=s["m"], **kw), inject=inj, label=tag)
        fired = bool(k.fired)
        if not fired and st == "ok":
            nlines[(key, params[o]["n"])] = k.op_lines
        where = f", interrupted in {k.fired[1]}," if fired else ""
        k.event(j, key, op["op"], st, len(figs), k.fired[1] if fired else "-")
        k.state(key, s["m"], params[o]["n"], params[o]["type"], min(len(figs), 4), figs[-1][2] if figs and cur is figs[-1][0] else cur is not None, type(exc).__name__ if fired else "-")
        non += fired or bool(nums)
        others(tag + where, None)
        still = [id(m.canvas.figure) for m in Gcf.get_all_fig_managers()]
        if any(id(f) not in still for f in open_):
            raise Violation("figure-closed", f"{tag}{where} closed a figure that was open")
        now = obj.get_params()
        if not pool.same_params(now, C.dec_params(params[o])):
            raise Violation("option-changed", f"{tag}{where} changed the parameters to {now}")
        if st == "exc":
            bad = kw.get("figsize") == (-1, -1)
            if not fired and wst == "ok" and not bad:
                raise Violation("raised", f"{tag} raised {v!r}")
            if fired and v is not exc:
                raise Violation("error-replaced", f"{tag}{where} raised {v!r} instead")
            for n in plt.get_fignums():          # what a failed plot leaves open is nobody's figure
                if n not in nums:
                    f = plt.figure(n)
                    figs.append((f, picture(f), "a figure left by a failed plot"))
            if cur is not None and s.get("back"):
                plt.figure(cur.number)
            return
        if fired:
            raise Violation("error-swallowed", f"{tag}{where} returned a figure")
        if wst != "ok":
            raise Violation("answer", f"{tag} gave a figure; undisturbed the tree raises {tree}")
        if not isinstance(v, mpl.figure.Figure):
            raise Violation("no-figure", f"{tag} returned {v!r}")
        if any(v is f for f, _, _ in figs):
            raise Violation("not-new", f"{tag} returned a figure that existed before")
        chk = C.check_ref(spec, params[o], op, tree)
        if chk is not None and not chk[0]:
            raise Violation("tree", f"{tag}: the tree {C.short(tree)} is not that of the model, {C.short(chk[1])}")
        d = kw.get("digits", 2)
        err = compare(v, levels_of(np.asarray(tree, float), key), d)
        if err:
            raise Violation("labels", f"{tag}: {err}")
        pic = picture(v)
        sig = repr((key, sorted(params[o].items(), key=str), s["m"], sorted(s["kw"].items()), rep[1]))
        if sig in seen and seen[sig] != pic:
            raise Violation("not-same", f"{tag} gives another picture than before")
        seen[sig] = pic
        figs.append((v, pic, f"the figure of the plot of step {j}"))

    last = None
    for j, s in enumerate(sc["steps"]):
        t = s["t"]
        if t == "plot":
            doplot(j, s)
            last = s
        elif t == "again":
            if last:
                doplot(j, {a: b for a, b in last.items() if a != "inj"})
        elif t == "set":
            st, _ = k.run(lambda: live[s["o"]].set_param(s["n"], C.dec(s["v"])), label=f"step {j}")
            if st == "ok":
                params[s["o"]][s["n"]] = s["v"]
            k.event(j, "set", s["n"], st)
        elif t == "rc":
            rep = (0, s["i"])
            mpl.rcParams["lines.linewidth"] = 1 + s["i"] % 3
        elif t == "open":
            f = plt.figure()
            if s["i"] % 2:
                plt.plot([0, 1, s["i"]])
            figs.append((f, picture(f), "the caller's figure"))
        elif t == "subplots":
            f, ax = plt.subplots(1, 1 + s["i"] % 3)
            figs.append((f, picture(f), "the caller's figure with subplots"))
        elif figs and t == "draw":
            f = figs[s["i"] % len(figs)][0]
            ax = f.axes[0] if f.axes else f.add_subplot()
            ax.annotate("note", (0.5, 0.5))
            ax.plot([0, s["i"]], [1, 2])
            refresh()
        elif figs and t == "select":
            f = figs[s["i"] % len(figs)][0]
            if plt.fignum_exists(f.number):
                plt.figure(f.number)
                if f.axes and s["i"] % 3 == 0:
                    plt.sca(f.axes[s["i"] % len(f.axes)])
        elif figs and t == "close":
            f = figs[s["i"] % len(figs)][0]
            plt.close(f)
        elif t == "closeall":
            plt.close("all")
        if t not in ("plot", "again", "set"):
            k.event(j, t, len(figs))
            refresh()
    k.sample = {"opts": sc["opts"], "steps": sc["steps"][:5]}
    return non > 0
