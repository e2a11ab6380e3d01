"""P06: angles of the grid in 24 bits"""

import math
import types

from wxv.check import Sub, main, np, sym, symnp, REPO
from wxv.simu import quiet

STEP = 2.0 * math.pi / 2**24


def symbolic_angles(Float):
    """the module angle24 with another float: its class then holds any value"""
    src = open(f"{REPO}/wx_factory/common/angle24.py").read()
    m = types.ModuleType("angle24_symbolic")

    class Base:
        def __new__(cls, x=0.0):
            v = Float(x) if not sym.is_sym(x) else x
            if cls is Base:
                return v
            o = object.__new__(cls)
            o.value = v
            return o

    m.float = Base
    exec(compile(src, f"{REPO}/wx_factory/common/angle24.py", "exec"), m.__dict__)
    return m


def module(inp):
    if inp.symbolic:
        return symbolic_angles(float)
    from common import angle24

    return angle24


def nearest(lo, hi, turns):
    def run(inp, cl):
        m = module(inp)
        x = inp.real("x", lo, hi, bounded=True)
        with quiet():
            n = m.encode(x)
            y = m.decode(n)
            a = m.angle24(x)
        cl.holds("code is not negative", n >= 0)
        cl.holds("code fits in 24 bits", n < 2**24)
        cl.holds("code is an integer", np.floor(n) == n)
        cl.holds("decoded angle from -pi", y >= -math.pi * (1 + 1e-12))
        cl.holds("decoded angle below pi", y < math.pi)
        near = None
        for k in range(-turns, turns + 1):  # equal modulo a turn, up to half a unit
            d = y - x - 2.0 * math.pi * k
            r = (d <= STEP * 0.5000001) & (d >= -STEP * 0.5000001)
            near = r if near is None else near | r
        cl.holds("decoded angle is the nearest", near)
        cl.eq("the type angle24 holds the same", getattr(a, "value", a), y)

    return run


def there_and_back(inp, cl):
    m = module(inp)
    n = math.floor(inp.real("n", 0, 2**24 - 0.01, bounded=True))
    x = (n - 2**23) * STEP
    with quiet():
        cl.eq("angle", m.decode(n), x)
        cl.eq("code", m.encode(x), n)
        b = m.angle24(x)
        cl.eq("type", getattr(b, "value", b), x)


def truncated(inp, cl):
    m = module(inp)
    n = inp.integer("n", 0, 2**24 - 1)
    k = inp.integer("k", 0, 255)
    cl.eq("upper bits are ignored", m.decode(n + k * 2**24), m.decode(n))


SUBS = [
    Sub("angles within a turn", nearest(-math.pi, math.pi, 1), paths=10),
    Sub("angles of up to three turns", nearest(-20.0, 20.0, 4), paths=30),
    Sub("codes", there_and_back, paths=10),
    Sub("codes of more than 24 bits", truncated, paths=10),
]

if __name__ == "__main__":
    main(
        "P06",
        SUBS,
        assumptions=["real arithmetic with the constants of the module (rounding of the multiplications is not modelled)"],
        technique_note="The real module runs on a free real angle, or a free integer code, with a float type that holds symbols.",
        bounds="angles from -20 to 20 (three turns), all 2^24 codes, up to 8 more bits",
    )
