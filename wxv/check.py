"""Driver shared by all checks: run harnesses symbolically, decide the claims, replay counterexamples, write evidence."""

from __future__ import annotations

import argparse
import contextlib
import json
import math
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
from fractions import Fraction

REPO = os.environ.get("WXF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("WXF_EVIDENCE") or os.path.join(VERIF, "evidence")
for p in (os.path.join(REPO, "wx_factory"), REPO):
    if p not in sys.path:
        sys.path.insert(0, p)
sys.dont_write_bytecode = True

import numpy as np  # noqa: E402

from . import sym, symnp, explore  # noqa: E402
from .solver import Prover, Result  # noqa: E402
from .sym import Sym, SymBool, Unsupported  # noqa: E402

symnp.install()

_covered: set = set()


def _monitor():
    """Record which functions of the repository are executed (= encoded)."""
    try:
        mon = sys.monitoring
        tool = mon.PROFILER_ID
        mon.use_tool_id(tool, "wxf-encoded")
    except (AttributeError, ValueError):
        return
    root = os.path.join(REPO, "wx_factory") + os.sep

    def start(code, off):
        f = code.co_filename
        if f.startswith(root) and code.co_flags & 1:
            _covered.add(f[len(root):] + ":" + code.co_qualname)
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


class Inputs:
    """Source of values for a harness: fresh symbols, or the concrete values of an assignment."""

    def __init__(self, mode, env=None, rng=None):
        self.mode = mode
        self.env = env or {}
        self.ranges = {}
        self.assumptions = []
        self.rng = rng
        self.used = {}
        self.notes = {}

    @property
    def symbolic(self):
        return self.mode == "sym"

    def real(self, name, lo=-2.0, hi=2.0, bounded=False):
        """A real number. [lo, hi] is where concrete points are drawn; it is an assumption only if bounded."""
        self.ranges[name] = (float(lo), float(hi))
        if self.mode == "sym":
            v = sym.var(name)
            if bounded:
                self.assume(sym.lift(lo) <= v)
                self.assume(v <= sym.lift(hi))
            return v
        if name in self.used:
            return self.used[name]
        if name in self.env and self.env[name] is not None:
            x = float(self.env[name])
        elif self.rng is not None:
            x = round(self.rng.uniform(lo, hi) * 1024) / 1024
            if x < lo or x > hi or x == 0:
                x = self.rng.uniform(lo, hi)
        else:
            x = 0.5 * (lo + hi) if lo != -hi else hi * 0.37
        self.used[name] = x
        return x

    def integer(self, name, lo, hi):
        """An integer in [lo, hi]"""
        self.ranges[name] = (float(lo), float(hi))
        if self.mode == "sym":
            v = sym.var(name)
            self.assume(sym.lift(lo) <= v)
            self.assume(v <= sym.lift(hi))
            self.assume(sym.cmp("eq", v, sym.fun("floor", v)))
            return v
        if name in self.used:
            return self.used[name]
        if name in self.env and self.env[name] is not None:
            x = int(round(float(self.env[name])))
        else:
            x = self.rng.randint(lo, hi) if self.rng is not None else lo
        self.used[name] = x
        return x

    def angle(self, name, c, s):
        """The angle with the given rational cosine and sine"""
        x = math.atan2(float(s), float(c))
        if self.mode == "sym":
            v = self.real(name, x - 1e-6, x + 1e-6, bounded=True)
            sym.set_trig(v, Fraction(c), Fraction(s))
            return v
        self.used[name] = x
        return x

    def array(self, name, shape, lo=-2.0, hi=2.0, bounded=False):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        a = symnp.np_empty(shape, dtype=object if self.mode == "sym" else float)
        for idx in np.ndindex(*shape):
            a[idx] = self.real(name + "".join(f"_{i}" for i in idx), lo, hi, bounded)
        return symnp.wrap(a)

    def assume(self, cond):
        if self.mode == "sym":
            c = sym.liftb(cond)
            if c.op != "true":
                self.assumptions.append(c)
        else:
            if not cond:
                raise AssumptionFailed()

    @contextlib.contextmanager
    def rounding(self, u=Fraction(1, 2**52)):
        """Inside, every sum, difference, product or quotient the code computes may be off by a relative error u."""
        if self.mode != "sym":
            yield
            return

        def f(x):
            e = self.real(f"eps{len(self.ranges)}", -1e-16, 1e-16)
            b = sym.mul(sym.const(u), sym.sabs(x))
            self.assume(sym.cmp("le", e, b))
            self.assume(sym.cmp("le", sym.mul(sym.const(-1), b), e))
            return sym.add(x, e)

        old = sym._rounder[0]
        sym._rounder[0] = f
        try:
            yield
        finally:
            sym._rounder[0] = old

    def const_array(self, a):
        """A concrete array, in a form that mixes with this mode's values."""
        a = np.asarray(a)
        return symnp.wrap(a.astype(object)) if self.mode == "sym" else a


class AssumptionFailed(Exception):
    pass


class Claims:
    def __init__(self):
        self.items = []

    def eq(self, name, lhs, rhs, tol=None, scale=1.0):
        """lhs == rhs (arrays or scalars). tol: claim is |lhs-rhs| <= tol for inputs in the unit box (linear arith.)"""
        la, ra = np.asarray(lhs, dtype=object), np.asarray(rhs, dtype=object)
        if la.shape != ra.shape:
            try:
                la, ra = np.broadcast_arrays(la, ra)
            except ValueError:
                self.items.append(("fail", name, f"shape {la.shape} != {ra.shape}", None, None, 1.0))
                return
        for idx in np.ndindex(*la.shape) if la.shape else [()]:
            nm = name + (str(list(idx)) if la.shape else "")
            self.items.append(("eq", nm, la[idx], ra[idx], tol, scale))

    def holds(self, name, cond):
        ca = np.asarray(cond, dtype=object)
        for idx in np.ndindex(*ca.shape) if ca.shape else [()]:
            nm = name + (str(list(idx)) if ca.shape else "")
            self.items.append(("holds", nm, ca[idx], None, None, 1.0))

    def fail(self, name, why):
        self.items.append(("fail", name, why, None, None, 1.0))


class Sub:
    """One harness.  fn(inp, claims) runs the real code on inp's values and states the claims."""

    def __init__(self, name, fn, timeout=20.0, budget=300.0, tol=1e-8, paths=1, box=None, tier="quick", points=6,
                 concrete_only=False, bounds="", sweep=False, undef=False):
        self.name, self.fn, self.timeout, self.budget = name, fn, timeout, budget
        self.tol, self.paths, self.box, self.tier, self.points = tol, paths, box, tier, points
        self.bounds, self.sweep, self.undef = bounds, sweep, undef


def harness_error(e):
    """The harness itself (not the code it drives) stumbled over a name or a signature that is no longer there"""
    if not isinstance(e, (AttributeError, ImportError, NameError, TypeError)):
        return False
    tb, last = e.__traceback__, None
    while tb is not None:
        last, tb = tb.tb_frame.f_code.co_filename, tb.tb_next
    if last is None or not last.startswith(VERIF + os.sep):
        return isinstance(e, ImportError) and last is not None and "importlib" in last
    return not isinstance(e, TypeError) or "argument" in str(e)


def _num(x):
    if isinstance(x, Sym):
        return float(x)
    if isinstance(x, SymBool):
        return bool(x)
    return x


def _concrete(sub, env=None, rng=None):
    """Run the harness on numbers. Returns (violations [(name, detail)], values used) or None if assumptions fail."""
    inp = Inputs("num", env, rng)
    cl = Claims()
    with symnp.symbolic(False):
        try:
            sub.fn(inp, cl)
        except AssumptionFailed:
            return None
        except Unsupported:
            raise
        except Exception as e:
            if harness_error(e):
                raise Unsupported(f"harness does not fit the code: {type(e).__name__}: {e}")
            return [("exception", f"{type(e).__name__}: {e}", traceback.format_exc(limit=-4))], inp.used
    bad = []
    for kind, name, l, r, tol, scale in cl.items:
        if kind == "fail":
            bad.append((name, str(l), ""))
        elif kind == "eq":
            l, r = _num(l), _num(r)
            try:
                d = abs(l - r)
            except TypeError:
                if l is r or (type(l) is type(r) and l == r):
                    continue
                bad.append((name, f"{l!r} vs {r!r}", ""))
                continue
            m = max(abs(l), abs(r), scale)
            lim = max(sub.tol * m, tol or 0)
            if not d <= lim:
                bad.append((name, f"{l!r} vs {r!r}", ""))
        else:
            if not bool(l):
                bad.append((name, "does not hold", ""))
    return bad, inp.used


def run_sub(sub, seed, tier):
    t0 = time.time()
    out = {"sub": sub.name, "claims": 0, "proved": 0, "unknown": [], "violations": [], "inconclusive": None,
           "paths": 0, "bounds": sub.bounds, "witness": None}
    rng = random.Random(seed * 7919 + 17)
    sym.reset()
    prover = Prover(timeout=sub.timeout, seed=seed)
    prover.sweeping = sub.sweep
    sym.allow_undef = sub.undef
    pend = []
    try:
        holder = {}

        def body():
            inp = Inputs("sym")
            cl = Claims()
            holder["inp"] = inp
            run = explore._current[0]
            if run is not None:
                run.assume = inp.assumptions
            with symnp.symbolic(True):
                sub.fn(inp, cl)
            return inp, cl

        for pc, (kind, val) in explore.paths(body, [], prover.feasible, limit=max(sub.paths, 1)):
            out["paths"] += 1
            if kind == "raise":
                inp = holder["inp"]
                pend.append(("exception", pc, inp, val))
                continue
            inp, cl = val
            prover.ranges.update(inp.ranges)
            ass = inp.assumptions + pc
            if out["witness"] is None and ass:
                w = prover.witness(ass, 10)
                out["witness"] = {k: str(v) for k, v in list(w.items())[:6]} if w else "assumptions satisfiable: not shown"
            for kind2, name, l, r, tol, scale in cl.items:
                out["claims"] += 1
                if time.time() - t0 > sub.budget:
                    out["unknown"].append(name + " (time budget)")
                    continue
                if kind2 == "fail":
                    pend.append(("claim", pc, inp, (name, l, prover.sample_env(inp, ass))))
                    continue
                if kind2 == "eq":
                    if tol is not None and sub.box is not None:
                        res = prover.prove_close(name, l, r, tol, sub.box)
                    elif not sym.is_sym(l) and not sym.is_sym(r) and sym.lift(l) is None:
                        same = l is r or (type(l) is type(r) and l == r)
                        res = Result("proved" if same else "refuted", name, {})
                    elif sym.lift(l) is None or sym.lift(r) is None:
                        res = Result("refuted", name, {})
                    else:
                        res = prover.prove_eq(name, l, r, ass)
                else:
                    res = prover.prove(name, l, ass)
                if res.status == "proved":
                    out["proved"] += 1
                elif res.status == "refuted":
                    pend.append(("claim", pc, inp, (name, res.note, res.env)))
                    if len(pend) > 40:
                        break
                else:
                    out["unknown"].append(f"{name} ({res.note})")
    except Unsupported as e:
        out["inconclusive"] = f"{type(e).__name__}: {e}"
        if os.environ.get("WXF_DEBUG"):
            traceback.print_exc()
    except RecursionError as e:
        out["inconclusive"] = "recursion limit"
    except Exception as e:
        out["inconclusive"] = f"executor error {type(e).__name__}: {e}"
        if os.environ.get("WXF_DEBUG"):
            traceback.print_exc()

    # --- replay what the solver refuted on the real code, in floating point
    def replay(env, label):
        try:
            r = _concrete(sub, env, random.Random(seed))
        except Unsupported as e:
            return None
        except Exception as e:
            out.setdefault("replay_errors", []).append(f"{label}: {type(e).__name__} {e}")
            return None
        if r is None:
            return None
        bad, used = r
        if bad:
            return {"claim": bad[0][0], "detail": bad[0][1], "trace": bad[0][2], "count": len(bad), "env": used}
        return None

    tried = 0
    for kind, pc, inp, info in pend:
        if tried >= 12 or out["violations"]:
            break
        tried += 1
        if kind == "exception":
            env = prover.witness(inp.assumptions + pc, 10) or {}
            v = replay(env, "exception")
            if v:
                out["violations"].append(v)
            else:
                out["unknown"].append(f"exception on a path, not reproduced: {type(info).__name__}: {info}")
        else:
            name, note, env = info
            v = replay(env or {}, name)
            if v:
                v["solver"] = f"{name}: {note}"
                out["violations"].append(v)
            else:
                out["unknown"].append(f"{name}: counterexample not reproduced on the real code ({note})")
    # --- where the solver could not decide, at least run the same assertion on concrete points
    out["concrete_points"] = 0
    if not out["violations"]:
        n = sub.points if (out["inconclusive"] or out["unknown"]) else 1
        for _ in range(n):
            try:
                r = _concrete(sub, None, rng)
            except Unsupported:
                break
            except Exception as e:
                out.setdefault("replay_errors", []).append(f"{type(e).__name__} {e}")
                break
            if r is None:
                continue
            out["concrete_points"] += 1
            bad, used = r
            if bad:
                out["violations"].append({"claim": bad[0][0], "detail": bad[0][1], "trace": bad[0][2],
                                          "count": len(bad), "env": used, "solver": "concrete point"})
                break
    out["stats"] = prover.stats
    out["functions"] = sorted(_covered)
    out["wall_s"] = round(time.time() - t0, 2)
    return out


def _sample_env(self, inp, ass):
    for _ in range(100):
        env = {}
        for v, (lo, hi) in inp.ranges.items():
            env[v] = Fraction(round(self.rng.uniform(lo, hi) * 64), 64)
        try:
            if all(sym.evaluate(list(ass), env)) if ass else True:
                return env
        except Exception:
            continue
    return {}


Prover.sample_env = _sample_env


def _worker(args):
    idx, seed, tier = args
    try:
        return run_sub(_SUBS[idx], seed, tier)
    except BaseException as e:  # noqa
        return {"sub": _SUBS[idx].name, "claims": 0, "proved": 0, "unknown": [], "violations": [], "paths": 0,
                "inconclusive": f"worker: {type(e).__name__}: {e}", "stats": {}, "functions": [], "wall_s": 0,
                "bounds": "", "witness": None, "concrete_points": 0}


_SUBS = []


def main(pid, subs, assumptions, technique_note, bounds, level="other"):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("WXF_JOBS", "8")))
    ap.add_argument("--replay", default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.setrecursionlimit(100000)
    sel = [s for s in subs if (tier == "thorough" or s.tier == "quick") and (a.only is None or a.only in s.name)]
    if a.replay:
        d = json.load(open(a.replay))
        s = next(x for x in subs if x.name == d["sub"])
        r = _concrete(s, d["env"], random.Random(seed))
        print(json.dumps(r, indent=1, default=str))
        sys.exit(1 if r and r[0] else 0)
    _SUBS[:] = sel
    _monitor()
    if a.jobs > 1 and len(sel) > 1:
        with mp.get_context("fork").Pool(min(a.jobs, len(sel)), maxtasksperchild=1) as pool:
            async_r = [pool.apply_async(_worker, ((i, seed, tier),)) for i in range(len(sel))]
            hard = float(os.environ.get("WXF_HARD", "620" if tier == "quick" else "7200"))
            res = []
            for i, r in enumerate(async_r):
                left = max(1.0, hard - (time.time() - t0))
                try:
                    res.append(r.get(left))
                except mp.TimeoutError:
                    res.append({"sub": sel[i].name, "claims": 0, "proved": 0, "unknown": [], "violations": [],
                                "paths": 0, "inconclusive": "time limit", "stats": {}, "functions": [], "wall_s": left,
                                "bounds": sel[i].bounds, "witness": None, "concrete_points": 0})
            pool.terminate()
    else:
        res = [_worker((i, seed, tier)) for i in range(len(sel))]
    finish(pid, res, seed, tier, t0, assumptions, technique_note, bounds, level, a.v)


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        return [k for k in json.load(open(path)) if k["property"] == pid and k["status"] == "known"]
    except FileNotFoundError:
        return []


def finish(pid, res, seed, tier, t0, assumptions, technique_note, bounds, level, verbose):
    os.makedirs(EVID, exist_ok=True)
    viol, known_hit = [], []
    known = known_findings(pid)
    for r in res:
        for v in r["violations"]:
            k = next((k for k in known if k["sub"] == r["sub"] and v["claim"].startswith(k["claim"])), None)
            (known_hit if k else viol).append((r["sub"], v, k))
    stats = {}
    for r in res:
        for k, v in r["stats"].items():
            stats[k] = round(stats.get(k, 0) + v, 3)
    funcs = sorted({f for r in res for f in r["functions"]})
    claims = sum(r["claims"] for r in res)
    proved = sum(r["proved"] for r in res)
    incon = [f"{r['sub']}: {r['inconclusive']}" for r in res if r["inconclusive"]]
    unknown = [f"{r['sub']}: {u}" for r in res for u in r["unknown"]]
    coverage = {
        "explanation": technique_note
        + f" This run: {len(res)} harnesses, {sum(r['paths'] for r in res)} symbolic paths, {claims} claims, "
        + f"{proved} shown by the solver for all values within the bounds, {len(unknown)} left unknown, "
        + f"{len(incon)} harnesses not encoded.",
        "bounds": bounds,
        "harnesses": [
            {k: r[k] for k in ("sub", "paths", "claims", "proved", "wall_s", "bounds", "concrete_points", "witness")}
            for r in res
        ],
        "claims": claims,
        "claims_proved": proved,
        "queries": stats.get("queries", 0),
        "queries_unsat": stats.get("unsat", 0),
        "queries_sat": stats.get("sat", 0),
        "queries_unknown": stats.get("unknown", 0),
        "claims_up_to_rounding_of_constants": stats.get("rounded", 0),
        "case_splits": stats.get("splits", 0),
        "solver_s": stats.get("solver_s", 0),
        "functions_encoded": funcs,
        "unknown": unknown[:50],
        "inconclusive": incon,
        "samples": [r["sub"] for r in res][:5],
    }
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": coverage,
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    if viol:
        rp = os.path.join(EVID, f"{pid}.replay.json")
        sub, v, _ = viol[0]
        json.dump({"property": pid, "sub": sub, "how": f"bash /verif/run.sh {pid} --replay {rp}", **v,
                   "all": [(s, x["claim"], x["detail"]) for s, x, _ in viol]}, open(rp, "w"), indent=1, default=str)
        coverage["violations_found"] = [(s, x["claim"], x["detail"]) for s, x, _ in viol][:20]
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for r in res:
        if verbose or r["violations"] or r["inconclusive"] or r["unknown"]:
            print(f"[{pid}] {r['sub']}: paths {r['paths']} claims {r['claims']} proved {r['proved']} "
                  f"unknown {len(r['unknown'])} {r['inconclusive'] or ''} ({r['wall_s']} s)")
            for u in r["unknown"][:4]:
                print("     unknown:", u)
            for e in r.get("replay_errors", [])[:2]:
                print("     replay error:", e)
    for k in {id(k): k for _, _, k in known_hit}.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    print(f"[{pid}] {tier}: {claims} claims, {proved} proved, {len(unknown)} unknown, {len(incon)} harnesses "
          f"inconclusive, {stats.get('queries', 0)} queries, {stats.get('solver_s', 0):.1f} s in the solver, "
          f"{time.time() - t0:.1f} s")
    if viol:
        for s, v, _ in viol[:6]:
            print(f"  {s}: {v['claim']}: {v['detail']}")
            if v.get("trace"):
                print("   ", v["trace"].strip().replace("\n", "\n    "))
        print(f"VIOLATION property={pid} replay={rp}")
        sys.stdout.flush()
        os._exit(1)
    sys.stdout.flush()
    os._exit(0)
