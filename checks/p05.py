"""P05: configurations: what is accepted, which value an option gets; P06 has the angles."""

import copy
import itertools
import json
import math
import re
import types

from wxv.check import Sub, main, np, sym, symnp, REPO
from wxv.simu import quiet

TOKEN = re.compile(r"@[a-z0-9_]+")


class Reader:
    """Stand-ins for float, int and json in the configuration modules: a token @name in a text is the symbol of that name"""

    def __init__(self, inp):
        self.inp, self.sym, self.n = inp, {}, 0

    def put(self, v):
        """text of a value in a configuration"""
        if not self.inp.symbolic:
            return repr(int(v)) if float(v).is_integer() else repr(float(v))
        self.n += 1
        name = f"@v{self.n}"
        self.sym[name] = v
        return name

    def js(self, v):
        """value in a schema"""
        if not self.inp.symbolic:
            return int(v) if float(v).is_integer() else float(v)
        return self.put(v)

    def number(self, x):
        if isinstance(x, str):
            m = re.fullmatch(r"<sym(\d+)>", x.strip())
            return sym.printed[int(m.group(1))] if m and sym.printed else self.sym.get(x.strip())
        return x if sym.is_sym(x) else None

    def types(self):
        me = self

        class Meta(type):
            def __instancecheck__(cls, x):  # what json makes of a number
                if sym.is_sym(x):
                    return not (x == sym.fun("floor", sym.lift(x)))
                return isinstance(x, float)

        class Float(float, metaclass=Meta):
            def __new__(cls, x=0.0):
                v = me.number(x)
                return float(x) if v is None else v

        class Int(int):
            def __new__(cls, x=0):
                v = me.number(x)
                if v is None:
                    return int(x)
                if not isinstance(x, str):
                    return v if v == sym.fun("floor", v) else math.trunc(v)
                if not sym.cmp("eq", v, sym.fun("floor", v)):
                    raise ValueError(f"invalid literal for int() with base 10: {x!r}")
                return v

        Float.__name__, Int.__name__ = "float", "int"

        class Js:
            JSONDecodeError = json.JSONDecodeError
            dumps = staticmethod(json.dumps)

            @staticmethod
            def loads(s, *a, **k):
                s = re.sub(r'"?(@[a-z0-9_]+)"?', r'"\1"', s)
                return me.back(json.loads(s, *a, **k))

        return Float, Int, Js

    def back(self, o):
        if isinstance(o, dict):
            return {k: self.back(v) for k, v in o.items()}
        if isinstance(o, list):
            return [self.back(v) for v in o]
        return self.sym.get(o, o) if isinstance(o, str) else o

    def __enter__(self):
        import common.configuration_schema as cs

        self.cs, self.old = cs, {}
        self.printed = sym.printed
        if self.inp.symbolic:
            sym.printed = []
            from checks.p06 import symbolic_angles

            Float, Int, Js = self.types()
            new = dict(float=Float, int=Int, json=Js, numpy=types.SimpleNamespace(float32=Float, float64=Float),
                       angle24=symbolic_angles(Float).angle24)
            missing = object()
            for k, v in new.items():
                self.old[k] = cs.__dict__.get(k, missing)
                setattr(cs, k, v)
            self.missing = missing
        return self

    def __exit__(self, *a):
        sym.printed = self.printed
        for k, v in self.old.items():
            if v is self.missing:
                delattr(self.cs, k)
            else:
                setattr(self.cs, k, v)


def value(x):
    """what an option holds"""
    return getattr(x, "value", x)


def make(rd, fields, options, post=False, tail=""):
    """(configuration or None, error) for a schema with these fields and a file with these options (sections A, ...)"""
    from common.configuration import Configuration

    schema = rd.cs.ConfigurationSchema(json.dumps({"version": "7", "sections": fields}))
    text = "".join(f"[{s}]\n" + "".join(f"{k} = {v}\n" for k, v in o) for s, o in options)
    return Configuration(text, schema, load_post_config=post)


def attempt(f):
    try:
        return f(), None
    except ValueError as e:  # ConfigValueError is one
        return None, e


def number(inp, name, kind):
    if kind in ("int", "bool"):
        return inp.integer(name, -6, 6)
    return inp.real(name, -6.0, 6.0)


def within(v, spec, lo, hi, sel):
    if spec == "sel":
        r = v == sel[0]
        for s in sel[1:]:
            r = r | (v == s)
        return r
    r = v == v
    if spec in ("minmax", "min"):
        r = r & (lo <= v)
    if spec in ("minmax", "max"):
        r = r & (v <= hi)
    return r


def field(kind, spec, length=None, fractional=False):
    """one option, given in the file: taken iff within the range; its value is the one given"""

    def run(inp, cl):
        with Reader(inp) as rd, quiet():
            sc = [inp.real(f"v{i}", -6.0, 6.0) if fractional else number(inp, f"v{i}", kind) for i in range(length or 1)]
            lo, hi = number(inp, "lo", kind), number(inp, "hi", kind)
            sel = [number(inp, f"s{i}", kind) for i in range(3)]
            if spec == "minmax":
                inp.assume(lo <= hi)
            f = {"name": "opt", "type": ("list-" if length else "") + kind}
            if spec in ("minmax", "min"):
                f["min"] = rd.js(lo)
            if spec in ("minmax", "max"):
                f["max"] = rd.js(hi)
            if spec == "sel":
                f["selectables"] = [rd.js(s) for s in sel]
            text = rd.put(sc[0]) if length is None else "[" + ", ".join(rd.put(v) for v in sc) + "]"
            if length == 1:
                text = rd.put(sc[0])  # a single value stands for a list of one
            conf, err = attempt(lambda: make(rd, [{"name": "A", "fields": [f]}], [("A", [("opt", text)])]))
        ok = None
        for v in sc:
            r = within(v, spec, lo, hi, sel)
            if fractional:
                r = r & (v == np.floor(v))
            ok = r if ok is None else ok & r
        if conf is None:
            cl.holds("only values outside the range are refused", ~ok if isinstance(ok, sym.SymBool) else not ok)
            return
        cl.holds("a value that is taken is in the range", ok)
        got = conf.opt if length else [conf.opt]
        cl.holds("number of values", len(got) == len(sc))
        for i, (a, b) in enumerate(zip(got, sc)):
            if kind == "bool":
                cl.holds("truth value", (value(a) == True) == (b != 0) if not inp.symbolic else (b != 0 if a else b == 0))  # noqa: E712
            else:
                cl.eq(f"value {i}", value(a), b)

    return run


def default(kind, spec, length=None):
    """an option that the file does not mention has its default, which the schema must have within the range"""

    def run(inp, cl):
        with Reader(inp) as rd, quiet():
            dv = [number(inp, f"d{i}", kind) for i in range(length or 1)]
            lo, hi = number(inp, "lo", kind), number(inp, "hi", kind)
            sel = [number(inp, f"s{i}", kind) for i in range(2)]
            f = {"name": "opt", "type": ("list-" if length else "") + kind, "default": [rd.js(v) for v in dv] if length else rd.js(dv[0])}
            if spec in ("minmax", "min"):
                f["min"] = rd.js(lo)
            if spec in ("minmax", "max"):
                f["max"] = rd.js(hi)
            if spec == "sel":
                f["selectables"] = [rd.js(s) for s in sel]
            other = {"name": "other", "type": "int", "default": 3}
            from common.configuration import Configuration

            def both():
                schema = rd.cs.ConfigurationSchema(json.dumps({"version": "7", "sections": [{"name": "A", "fields": [f, other]}]}))
                return Configuration("[A]\n", schema, load_post_config=False), Configuration("[B]\nopt=5\n", schema, load_post_config=False)

            res, err = attempt(both)
        ok = None
        for v in dv:
            r = within(v, spec, lo, hi, sel)
            ok = r if ok is None else ok & r
        if spec == "minmax":
            ok = ok & (lo <= hi)
        if res is None:
            cl.holds("only defaults outside the range are refused", ~ok if isinstance(ok, sym.SymBool) else not ok)
            return
        cl.holds("a default that is taken is in the range", ok)
        a, b = res
        for i, v in enumerate(dv):
            cl.eq(f"default {i}", value(a.opt[i] if length else a.opt), v)
            cl.eq(f"default {i} (section missing)", value(b.opt[i] if length else b.opt), v)
        cl.holds("other option", a.other == 3)
        cl.holds("version", a.state_version == "7")
        if length:
            c = copy.deepcopy(a)
            a.opt[0] = 77.0
            cl.eq("the default of another configuration", b.opt[0], dv[0])
            cl.eq("a copy", c.opt[0], dv[0])

    return run


def dependency(order, kind="int"):
    """an option with a dependency exists iff the option it depends on has one of the values"""

    def run(inp, cl):
        with Reader(inp) as rd, quiet():
            a = number(inp, "a", kind)
            b, c, d = inp.real("b", -6.0, 6.0), inp.real("c", -6.0, 6.0), inp.real("d", -6.0, 6.0)
            lo = inp.real("lo", -6.0, 6.0)
            if kind == "bool":
                fa = {"name": "a", "type": "bool"}
                v1, v2 = [True], [False]
                is1, is2 = a != 0, a == 0
            else:
                s = [number(inp, f"s{i}", kind) for i in range(3)]
                inp.assume(s[0] != s[2])
                inp.assume(s[1] != s[2])
                fa = {"name": "a", "type": kind}
                v1, v2 = [rd.js(s[0]), rd.js(s[1])], [rd.js(s[2])]
                is1, is2 = (a == s[0]) | (a == s[1]), a == s[2]
            f1 = {"name": "opt", "type": "float", "min": rd.js(lo), "dependency": {"name": "a", "values": v1}}
            f2 = {"name": "opt", "type": "float", "default": rd.js(c), "dependency": {"name": "a", "values": v2}}
            f3 = {"name": "b", "type": "float"}
            fs = [[fa, f1, f2, f3][i] for i in order]
            given = [("b", rd.put(d)), ("a", rd.put(a)), ("opt", rd.put(b))]
            conf, err = attempt(lambda: make(rd, [{"name": "A", "fields": fs}], [("A", given)]))
        bad = is1 & (b < lo)
        if conf is None:
            cl.holds("refused only for a value outside the range of the option that applies", bad)
            return
        cl.holds("not refused for a value outside the range", ~bad if isinstance(bad, sym.SymBool) else not bad)
        cl.eq("independent option", conf.b, d)
        any_ = is1 | is2
        has = hasattr(conf, "opt")
        if has:
            cl.holds("the option exists only with its dependency", any_)
            cl.eq("its value", conf.opt, b)
        else:
            cl.holds("the option exists with its dependency", ~any_ if isinstance(any_, sym.SymBool) else not any_)

    return run


def chain(inp, cl):
    """an option that depends on an option with a dependency itself"""
    with Reader(inp) as rd, quiet():
        a, b = inp.integer("a", -6, 6), inp.integer("b", -6, 6)
        c, s, t = inp.real("c", -6.0, 6.0), inp.integer("s", -6, 6), inp.integer("t", -6, 6)
        fs = [
            {"name": "b", "type": "int", "dependency": {"name": "a", "values": [rd.js(s)]}},
            {"name": "a", "type": "int"},
            {"name": "b", "type": "int", "default": rd.js(t), "dependency": {"name": "a", "values": [100]}},
            {"name": "c", "type": "float", "dependency": {"name": "b", "values": [rd.js(t)]}},
        ]
        inp.assume(a == s)
        conf, err = attempt(lambda: make(rd, [{"name": "A", "fields": fs}], [("A", [("a", rd.put(a)), ("b", rd.put(b)), ("c", rd.put(c))])]))
    cl.holds("taken", conf is not None)
    if conf is not None:
        cl.eq("first", conf.b, b)
        if hasattr(conf, "c"):
            cl.holds("only with its dependency", b == t)
            cl.eq("second", conf.c, c)
        else:
            cl.holds("with its dependency", b != t)


def missing(inp, cl):
    """an option without default must be given"""
    with Reader(inp) as rd, quiet():
        d = inp.real("d", -6.0, 6.0)
        fs = [{"name": "opt", "type": "float", "min": rd.js(d)}, {"name": "b", "type": "float", "default": rd.js(d)}]
        conf, err = attempt(lambda: make(rd, [{"name": "A", "fields": fs}], [("A", [("b", rd.put(d))])]))
        cl.holds("an option without default must be given", conf is None)
        conf, err = attempt(lambda: make(rd, [{"name": "A", "fields": fs}, {"name": "B", "fields": []}], [("B", [("opt", rd.put(d))]), ("A", [])]))
        cl.holds("in its own section", conf is None)


def expressions(inp, cl):
    """limits given as expressions"""
    import common.eval_expr as ee

    a, b, c, v = (inp.real(n, 0.5, 5.0) for n in "abcv")
    if inp.symbolic:
        inp.assume(c != 0)
    names = {"qa": a, "qb": b, "qc": c}
    for k, (text, want) in enumerate((
        ("qa - qb - qc", a - b - c), ("qa / qb * qc", a / b * c if not inp.symbolic else None), ("-qa + 2*qb", -a + 2 * b), ("qa*(qb-qc)/4", a * (b - c) / 4),
        ("1.5 * QA + pi", 1.5 * a + math.pi), ("qa / qc", a / c),
    )):
        if want is None:
            inp.assume(b != 0)
            want = a / b * c
        if inp.symbolic:
            old = dict(ee._math_constants)
            ee._math_constants.update(names)
            try:
                got = ee.eval_expr(text)
            finally:
                ee._math_constants.clear()
                ee._math_constants.update(old)
        else:
            t = text.lower()
            for n, x in names.items():
                t = t.replace(n, f"{x!r}")
            got = ee.eval_expr(t)
        cl.eq(text, got, want)


# ---- the schema that comes with the model
def real_schema():
    with open(f"{REPO}/config/config-format.json") as f:
        return json.load(f)


def entries():
    out = []
    for s in real_schema()["sections"]:
        for f in s["fields"]:
            out.append((s["name"], f))
    return out


BASE = {
    "equations": "shallow_water", "dt": "10", "t_end": "100", "time_integrator": "epi2", "tolerance": "1e-7", "num_solpts": "3",
    "num_elements_horizontal": "4", "grid_type": "cubed_sphere", "lambda0": "0", "phi0": "0", "alpha0": "0", "matsuno_wave_type": "rossby", "matsuno_amp": "1.5",
    "expfilter_order": "8", "expfilter_cutoff": "0.25", "expfilter_strength": "1.0", "x0": "0.0", "x1": "1.0", "z0": "0.0", "z1": "1.0",
}


def limit(x):
    return eval(x.lower(), {"__builtins__": {}}, {"pi": math.pi}) if isinstance(x, str) else x


def given(names, change):
    secs = {}
    for s, f in entries():
        secs.setdefault(s, {})
        n = f["name"]
        if n in change:
            secs[s][n] = change[n]
        elif n in BASE:
            secs[s][n] = BASE[n]
    return [(s, list(o.items())) for s, o in secs.items()]


def numeric_options(part, parts):
    def run(inp, cl):
        done = {}
        opts = [(s, f) for s, f in entries() if f["type"] in ("int", "float", "float64") and "dependency" not in f]
        for s, f in opts[part::parts]:
            n = f["name"]
            v = inp.real(f"val_{n}", -40.0, 40.0) if f["type"] != "int" else inp.integer(f"val_{n}", -40, 40)
            with Reader(inp) as rd, quiet():
                from common.configuration import Configuration

                schema = rd.cs.ConfigurationSchema(json.dumps(real_schema()))
                opt = given(BASE, {n: rd.put(v)})
                text = "".join(f"[{x}]\n" + "".join(f"{k} = {z}\n" for k, z in o) for x, o in opt)
                conf, err = attempt(lambda: Configuration(text, schema, load_post_config=False))
            ok = v == v
            if "min" in f:
                ok = ok & (limit(f["min"]) <= v)
            if "max" in f:
                ok = ok & (v <= limit(f["max"]))
            if n == "case_number" and conf is not None:
                cl.holds("options of the Matsuno case", (v == 9 if hasattr(conf, "matsuno_amp") else v != 9))
            if conf is None:
                cl.holds(f"{n}: refused only outside of its range", ~ok if isinstance(ok, sym.SymBool) else not ok)
            else:
                cl.holds(f"{n}: in its range when taken", ok)
                cl.eq(n, value(getattr(conf, n)), v)

    return run


def choice_options(inp, cl):
    """options with a list of choices: any other word is refused (the word is picked by a symbolic index)"""
    opts = [(s, f) for s, f in entries() if f["type"] in ("str", "lc-str", "lower-case-str") and any(k.startswith("selectable") for k in f)]
    o = inp.integer("option", 0, len(opts) - 1)
    n, f = next((f["name"], f) for j, (_, f) in enumerate(opts) if j == len(opts) - 1 or o == j)
    allowed = next(f[k] for k in f if k.startswith("selectable"))
    words = list(allowed) + ["xyzzy", allowed[0][:-1], allowed[0] + "x", allowed[-1].upper()]
    k = inp.integer("choice", 0, 40)
    i = next(j for j in range(len(words)) if j == len(words) - 1 or k == j)
    word = words[i]
    change = {n: word}
    if n == "depth_approx":
        change["equations"] = "euler"
    opt = given(BASE, change)
    text = "".join(f"[{x}]\n" + "".join(f"{a} = {z}\n" for a, z in o) for x, o in opt)
    with quiet():
        from common.configuration import Configuration
        from common.configuration_schema import ConfigurationSchema

        conf, err = attempt(lambda: Configuration(text, ConfigurationSchema(json.dumps(real_schema())), load_post_config=False))
    right = word.lower() in [w.lower() for w in allowed]
    cl.holds(f"{n} = {word}: {'taken' if right else 'refused'}", (conf is not None) == right)
    if conf is not None:
        cl.holds(f"{n} = {word}: lower case", getattr(conf, n) == word.lower())


def finite_volumes(inp, cl):
    """finite volumes go with one point per element only"""
    ns = inp.integer("num_solpts", 1, 9)
    k = inp.integer("fv", 0, 1)
    fv = bool(k == 1)
    with Reader(inp) as rd, quiet():
        from common.configuration import Configuration

        schema = rd.cs.ConfigurationSchema(json.dumps(real_schema()))
        opt = given(BASE, {"num_solpts": rd.put(ns), "discretization": "FV" if fv else "dg"})
        text = "".join(f"[{x}]\n" + "".join(f"{a} = {z}\n" for a, z in o) for x, o in opt)
        conf, err = attempt(lambda: Configuration(text, schema))
    if conf is None:
        cl.holds("refused only for finite volumes with several points", (ns != 1) if fv else False)
    else:
        cl.holds("not taken for finite volumes with several points", (ns == 1) if fv else True)
        cl.eq("number of points", conf.num_solpts, ns)
        cl.eq("initial number of points", conf.initial_num_solpts, ns)
        cl.holds("number of elements", conf.num_elements_horizontal_total == 4)


SUBS = []
for kind in ("int", "float", "float32", "float64"):
    for spec in ("minmax", "min", "max", "sel", "none"):
        if kind == "float64" and spec != "minmax" or kind == "float32" and spec not in ("min", "minmax"):
            continue
        SUBS.append(Sub(f"{kind}, {spec}", field(kind, spec), paths=40, tol=1e-6))
for kind, spec, n in (("int", "minmax", 1), ("int", "minmax", 3), ("float", "min", 3), ("float", "sel", 2), ("int", "max", 2), ("float", "none", 4)):
    SUBS.append(Sub(f"list of {n} {kind}, {spec}", field(kind, spec, n), paths=80))
SUBS.append(Sub("fractional numbers for an int", field("int", "min", None, True), paths=20))
SUBS.append(Sub("fractional numbers for a list of int", field("int", "max", 2, True), paths=20))
SUBS.append(Sub("bool", field("bool", "none"), paths=10))
for kind, spec, n in (("int", "minmax", None), ("float", "min", None), ("float", "max", None), ("float", "sel", None), ("int", "minmax", 2), ("float", "sel", 2), ("float", "none", 2)):
    SUBS.append(Sub(f"default, {'list of ' if n else ''}{kind}, {spec}", default(kind, spec, n), paths=80))
for o in ((0, 1, 2, 3), (3, 1, 2, 0), (1, 3, 0, 2)):
    SUBS.append(Sub(f"dependency, order {o}", dependency(o), paths=40))
    SUBS.append(Sub(f"dependency on a float, order {o}", dependency(o, "float"), paths=40))
    SUBS.append(Sub(f"dependency on a bool, order {o}", dependency(o, "bool"), paths=40))
SUBS.append(Sub("chain of dependencies", chain, paths=20))
SUBS.append(Sub("option without a default", missing, paths=4))
SUBS.append(Sub("expressions", expressions, paths=4))
for k in range(6):
    SUBS.append(Sub(f"numeric options of the model ({k + 1}/6)", numeric_options(k, 6), paths=700))
SUBS.append(Sub("choices of the model", choice_options, paths=400))
SUBS.append(Sub("finite volumes", finite_volumes, paths=40))

if __name__ == "__main__":
    main(
        "P05",
        SUBS,
        assumptions=[
            "numbers are read without error from their text: a token in the text of a configuration or schema stands for any number",
            "NaN and infinities are not covered",
        ],
        technique_note="The real schema and configuration classes read texts in which numbers are tokens for free symbols (float, int and "
        "json of the module are replaced by ones that resolve tokens); every branch of the validation is a path condition.",
        bounds="one to three options per schema, lists of up to 4 values, up to 3 selectable values; the options of the schema that "
        "comes with the model one at a time; words by a symbolic index into the selectable ones and four others",
    )
