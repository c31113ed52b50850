"""C15: a summary shows the option's current parameters and prices, on any stream."""
import re
import sys

import numpy as np

from .. import catalog as C, pool
from ..kernel import CANCELS, Violation, make_fault

RUNS = {"quick": 1600, "thorough": 30000}
LINES = True
PRISTINE = True
LISTS = ["steps"]
RULE = ("one run = one or two options and 3-8 steps: parameter changes, copies, and summaries returned, printed or converted with str(), printed to streams that are replaced, torn, slow, "
        "full or closed, and interrupted at generated lines; every complete text is parsed and compared with the parameters and with the prices a fresh process quotes; "
        "non-trivial when a stream or line fault fired or a text followed a change")
STATE = "(class, way of summarising, disturbance, priced or not, array or not) combinations"
REAL = ["summary, __str__, get_params, set_param and pricing of every class that has a summary", "print"]
STUB = ["sys.stdout (simulated streams)", "fault injection at source lines"]
ASSUME = ["one fault per operation", "numpy's default print options", "a float parameter is shown with its full repr, array elements with at least the digits numpy prints"]
KINDS = ["KeyboardInterrupt", "SystemExit", "SimCancel", "MemoryError", "FloatingPointError", "TimeoutError", "ValueError", "OSError", "CancelledError"]


class Stream:
    """a text stream that can fail after a number of characters"""

    def __init__(self, k, room=None, exc=None, count=None):
        self.k, self.room, self.exc, self.count = k, room, exc, count
        self.got = ""
        self.failed = False
        self.writes = 0

    def write(self, s):
        self.writes += 1
        if self.count is not None and self.writes >= self.count and not self.failed:
            self.failed = True
            self.k.fault("stream:" + type(self.exc).__name__)
            raise self.exc
        if self.room is not None and len(self.got) + len(s) > self.room and not self.failed:
            self.got += s[:self.room - len(self.got)]
            self.failed = True
            self.k.fault("stream:" + type(self.exc).__name__)
            raise self.exc
        self.got += s
        return len(s)

    def flush(self):
        pass


def gen(R, i, tier):
    opts = []
    for _ in range(R.choice([1, 1, 2])):
        key = R.choice(pool.WEIGHT)
        p = pool.gen_params(R, key, none=True)
        for v in p.values():
            if isinstance(v, dict):
                v.pop("shape", None)       # tables are not parsed
        spec = C.BY[key]
        if R.random() < .3:
            pool.widen(R, key, p)
            if R.random() < .4 and key not in ("RGW", "ALL"):
                u = 10.0 ** R.randint(2, 5)
                for n in ("S", "K", "FT", "S1", "S2", "K2"):
                    if isinstance(p.get(n), (int, float)):
                        p[n] = C.rnd(p[n] * u)
                    elif isinstance(p.get(n), dict):
                        p[n] = {"arr": [C.rnd(x * u) for x in p[n]["arr"]]}
            for v in p.values():
                if isinstance(v, dict):
                    v.pop("shape", None)
        if R.random() < .12:
            pool.lengthen(R, key, p)
        if spec.sigma_none and R.random() < .08:
            p[spec.sigma_none] = None
        opts.append({"key": key, "params": p})
    cur = [dict(o["params"]) for o in opts]
    steps = []
    for _ in range(R.randint(3, 8)):
        o = R.randrange(len(opts))
        key = opts[o]["key"]
        x = R.random()
        if x < .25:
            n, v = pool.change(R, key, cur[o]) if R.random() < .8 else pool.hostile(R, key, cur[o])
            s = {"t": "set", "o": o, "n": n, "v": v}
            if n in cur[o]:
                cur[o][n] = v
            if R.random() < .2:
                s["inj"] = [R.choice(KINDS), R.random()]
        elif x < .32:
            s = {"t": "clone", "o": o, "how": R.choice(["copy", "deepcopy", "pickle"])}
        else:
            s = {"t": "text", "o": o, "how": R.choice(["print", "print", "print", "str", "return", "keep"])}
            y = R.random()
            if s["how"] == "print" and y < .4:
                s["stream"] = [R.choice(["room", "room", "count"]), R.choice([R.random(), 0.0, 1 - R.random() * .02]), R.choice(["OSError", "ValueError", "MemoryError", "KeyboardInterrupt", "SimFault", "TimeoutError", "SystemExit", "BrokenPipeError", "BlockingIOError", "InterruptedError", "UnicodeEncodeError", "ConnectionResetError", "EOFError", "AttributeError"])]
            elif y < .65:
                s["inj"] = [R.choice(KINDS), R.random()]
            elif y < .75:
                s["trap"] = True
        steps.append(s)
    steps.append({"t": "text", "o": R.randrange(len(opts)), "how": R.choice(["print", "str", "return"])})
    return {"seed": R.randrange(2 ** 31), "opts": opts, "steps": steps}


def valid(sc):
    return bool(sc["steps"])


def simplify(sc):
    import copy
    for i, s in enumerate(sc["steps"]):
        for key in ("inj", "trap", "stream"):
            if key in s:
                c = copy.deepcopy(sc)
                del c["steps"][i][key]
                yield c


NUM = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)")


def parse(text):
    """(title, {param: text}, price lines or None)"""
    head, sep, price = text.partition("Option Price:")
    lines = head.split("\n")
    title = lines[0] if lines and lines[0].startswith("Title:") else None
    params, last = {}, None
    seen = False
    for ln in lines[1:]:
        if ln.strip() == "Parameters:":
            seen = True
            continue
        m = re.match(r"\s+(\w+) = (.*)$", ln)
        if m and seen:
            last = m.group(1)
            if last in params:
                params[last] = None          # shown twice
            else:
                params[last] = m.group(2)
        elif last and ln.strip() and ":" not in ln and params[last] is not None:
            params[last] += " " + ln.strip()      # a wrapped array
    return title, params, (price if sep else None)


def shows(text, v, slack=0.0):
    """does the text show this value?"""
    if text is None:
        return False
    text = text.strip()
    if v is None or isinstance(v, (str, bool)):
        return text == str(v)
    if isinstance(v, np.ndarray) and v.ndim:
        nums = [float(x) for x in NUM.findall(text)]
        v = v.ravel()
        if "..." in text:
            if len(v) <= 6 or len(nums) < 2:
                return False
            left = len(NUM.findall(text.split("...")[0]))
            want = list(v[:left]) + list(v[len(v) - (len(nums) - left):])
        else:
            want = list(v)
        return len(nums) == len(want) and all(a == b or (a != a and b != b) or abs(a - b) <= max(.00501 if len(v) > 6 else 5.1e-9 + 1e-8 * float(np.nanmax(np.abs(v))), slack) for a, b in zip(nums, want))
    try:
        x = float(text)
    except ValueError:
        return False
    return abs(x - float(v)) <= slack or (x != x and v != v)


def examine(text, key, params, call, put, extra, cls=None):
    """None, or what is wrong with a complete summary text"""
    title, shown, price = parse(text)
    spec = C.BY[key]
    if title is None or len(title.split(":", 1)[1].strip()) < 3:
        return "it has no title"
    if cls is not None and cls.__title__ not in title:
        return f"it has the title {title!r} where the class is a {cls.__title__!r}"
    want = spec.reported(C.dec_params(params))
    if set(shown) != set(want):
        return f"it lists the parameters {sorted(shown)} instead of {sorted(want)}"
    for n, v in want.items():
        if not shows(shown[n], v):
            return f"it shows {n} = {shown[n]} where the value is {v}"
    priced = call[0] == "ok" and (spec.putless or put[0] == "ok")
    if not priced:
        if price is not None:
            return "it shows prices of an option that cannot be priced"
        return None
    if price is None:
        return "it shows no prices although the option can be priced"
    p2 = C.dec_params(params)
    for name, q in (("call", call), ("put", put)):
        m = re.search(r"^\s*" + name + r"(-\w+)?: *(\[[^\]]*\]|[^\s,]+)(?:, trigger: *(\S+))?", price, re.M)
        if spec.putless and name == "put":
            if m:
                return "it shows a put price where there is none"
            continue
        if not m:
            return f"it shows no {name} price"
        v, trig = q[1], None
        if isinstance(v, dict):
            d = dict(v["dict"])
            v, trig = d["OptionPrice"], d["TriggerPrice"]
        a = np.asarray(v, float)
        if a.ndim and a.size > 1:
            ok = shows(m.group(2), a, .00501)
        else:
            a = float(a.ravel()[0])
            nums = NUM.findall(m.group(2))
            ok = len(nums) == 1 and (abs(float(nums[0]) - a) <= (.00501 if "[" in m.group(2) else 5.01e-7) + 1e-9 * abs(a) or (a != a and nums[0] == "nan"))
        if not ok:
            return f"it shows the {name} price {m.group(2)} where the price is {v}"
        if trig is not None and (m.group(3) is None or not shows(m.group(3), float(trig), 5.01e-7 + 1e-9 * abs(float(trig)))):
            return f"it shows the trigger {m.group(3)} of the {name} where it is {trig}"
        if spec.exercise and m.group(1) != "-" + str(p2[spec.exercise]):
            return f"it names the exercise style {m.group(1)} for the {name} of an option of type {p2[spec.exercise]}"
    if extra is not None:
        m = re.search(r"Optimal to Exercise Call Option: *(\w+)", text)
        if not m or m.group(1) != str(extra[1]):
            return f"it says that exercise is optimal: {m and m.group(1)}, which is {extra[1]}"
    return None


def run(sc, ctx):
    k = ctx.k
    live, params = [], []
    for o in sc["opts"]:
        live.append(C.BY[o["key"]].build(C.dec_params(o["params"])))
        params.append(dict(o["params"]))
    keys = [o["key"] for o in sc["opts"]]
    kept = []
    real = sys.stdout
    non = 0
    changed = False
    nlines = {}

    def facts(o):
        key, p = keys[o], params[o]
        ops = [{"op": "call"}] + ([{"op": "is_call_optimal"}] if key == "RGW" else [{"op": "put"}]) + [{"op": "summary"}]
        a = ctx.quotes(key, p, ops)
        return (a[0], None, a[1], a[2]) if key == "RGW" else (a[0], a[1], None, a[2])

    for j, s in enumerate(sc["steps"]):
        o = s["o"]
        key, obj = keys[o], live[o]
        spec = C.BY[key]
        if s["t"] == "clone":
            live[o] = C.clone(obj, s["how"])
            k.event(j, key, s["how"])
            continue
        exc = make_fault(s["inj"][0]) if "inj" in s else None
        if s["t"] == "set":
            before = obj.get_params()
            st, v = k.run(lambda: obj.set_param(s["n"], C.dec(s["v"])), inject=(exc, 1 + int(s["inj"][1] * 60)) if exc is not None else None, label=f"step {j}")
            if st == "ok":
                params[o][s["n"]] = s["v"]
                if key == "B76":
                    params[o].pop("b", None)
            elif k.fired:
                if not pool.same_params(obj.get_params(), before):       # which of the two it is, is C11's business
                    params[o][s["n"]] = s["v"]
            changed = True
            k.event(j, key, "set", s["n"], st)
            continue
        # a text
        how = s["how"]
        tag = f"step {j}: {'printing the' if how == 'print' else 'the'} summary of a {key} option with {params[o]}"
        call, put, extra, (pst, ptext) = facts(o)
        if pst != "ok":
            k.event(j, key, "no summary")
            continue
        stream = Stream(k)
        if "stream" in s:
            kind, f, en = s["stream"]
            exc = make_fault(en)
            stream = Stream(k, room=int(f * (len(ptext) + 1)), exc=exc) if kind == "room" else Stream(k, count=1 + int(f * 2), exc=exc)
        inj = None
        if "inj" in s:
            if (o, key) not in nlines:
                s0 = sys.stdout
                sys.stdout = Stream(k)
                try:
                    k.run(lambda: obj.summary(printer=False), label=tag)
                finally:
                    sys.stdout = s0
                nlines[(o, key)] = k.op_lines
            inj = (exc, 1 + int(s["inj"][1] * nlines[(o, key)]))
        fn = {"print": lambda: obj.summary(), "str": lambda: str(obj), "return": lambda: obj.summary(printer=False), "keep": lambda: obj.summary(printer=False)}[how]
        sys.stdout = stream
        try:
            with np.errstate(**({"all": "raise"} if s.get("trap") else {})):
                st, v = k.run(fn, inject=inj, label=tag)
        finally:
            sys.stdout = real
        fired = bool(k.fired) or stream.failed
        where = f" (interrupted in {k.fired[1]})" if k.fired else " (to a failing stream)" if stream.failed else " (with floating-point traps)" if s.get("trap") else ""
        arr = any(isinstance(x, dict) for x in params[o].values())
        k.event(j, key, how, st, bool(k.fired), stream.failed)
        k.state(key, how, type(exc).__name__ if fired else bool(s.get("trap")), call[0], arr)
        non += fired or changed
        if fired:
            if st == "exc" and v is not exc:
                raise Violation("error-replaced", f"{tag}{where}: the error reached the caller as {v!r}", key=key)
            if st == "ok" and (stream.failed or isinstance(exc, tuple(type(make_fault(c)) for c in CANCELS))):
                raise Violation("error-swallowed", f"{tag}{where}: {exc!r} never reached the caller", key=key)
            now = obj.get_params()
            if not pool.same_params(now, spec.reported(C.dec_params(params[o]))):
                raise Violation("option-changed", f"{tag}{where} changed the parameters to {now}", key=key)
        if st == "exc":
            if not fired and not s.get("trap"):
                raise Violation("raised", f"{tag}{where} raised {v!r}", key=key)
            if not fired:
                k.fault("floating-point-trap")
            # the next summary, on a working stream, is complete
            stream = Stream(k)
            sys.stdout = stream
            try:
                st, v = k.run(fn, label=tag)
            finally:
                sys.stdout = real
            if st != "ok":
                raise Violation("raised", f"{tag}, repeated{where}, raised {v!r}", key=key)
            where += ", repeated"
            partial = False
        else:
            partial = fired or bool(s.get("trap"))
        if how == "print":
            if v is not None:
                raise Violation("printed-result", f"{tag}{where} returned {C.short(v)}", key=key)
            text = stream.got
            if text.endswith("\n"):
                text = text[:-1]
        else:
            text = v
            if stream.got:
                raise Violation("stray-output", f"{tag}{where} wrote {stream.got!r} to standard output", key=key)
        if not isinstance(text, str):
            raise Violation("no-text", f"{tag}{where} gave {v!r}", key=key)
        err = examine(text, key, params[o], call, put, extra, type(obj))
        if err and partial:
            gone = ("exc", None)
            err = examine(text, key, params[o], gone, gone, None, type(obj))
        if err:
            raise Violation("text", f"{tag}{where}: {err}", key=key)
        if not partial:
            if not pool.same_text(text, ptext):
                raise Violation("text", f"{tag}{where} is {text!r}, in a fresh process {ptext!r}", key=key)
            alt = [("str()", str(obj)), ("summary(printer=False)", obj.summary(printer=False))]
            for n, t in alt:
                if t != text:
                    raise Violation("ways-differ", f"{tag}{where}: {n} is {t!r} instead of {text!r}", key=key)
        if how == "keep":
            kept.append((v, str(v)))
    k.sample = {"opts": sc["opts"], "steps": sc["steps"][:5]}
    return non > 0
