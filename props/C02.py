"""Cavity law: voltage, frequency and phase follow their set point, calibration error and offset; set-point requests abs/rel/add."""
from props.common import *

BOUNDS = dict(elements="ring of 5 elements with 2 cavities + 1 unregistered", setpoints="[-4,4]", errors="[-0.5,0.5] calibration, [-2,2] offset")
ASSUMPTIONS = ["addressed ordinates are distinct registered cavities"]
PROPS = ("Voltage", "Frequency", "TimeLag")


def _mk(ctx):
    SC = new_SC(lattice([cavity("A"), drift(), cavity("B"), quad(), cavity("U")]))
    SC.register_cavities(np.array([0, 2]))
    SC.register_magnets(np.array([3]))
    for i in (0, 2):
        for p in PROPS:
            setattr(SC.RING[i], p + "SetPoint", ctx.real(f"{p}{i}.sp"))
            setattr(SC.RING[i], p + "CalError", ctx.real(f"{p}{i}.cal", -0.5, 0.5))
            setattr(SC.RING[i], p + "Offset", ctx.real(f"{p}{i}.off", -2, 2))
    return SC


def _law(ctx, SC, i, label):
    for p in PROPS:
        el = SC.RING[i]
        ctx.eq(getattr(el, p), getattr(el, p + "SetPoint") * (1 + getattr(el, p + "CalError")) + getattr(el, p + "Offset"),
               f"{label}: {p} = setpoint (1+cal) + offset")


def update(ctx, call):
    SC = _mk(ctx)
    before = snap(SC)
    who = {"all": (0, 2), "first": (0,), "second": (2,)}[call]
    SC.update_cavities() if call == "all" else SC.update_cavities(np.array(who))
    for i in who:
        _law(ctx, SC, i, "update")
    allow = [(i, p) for i in who for p in PROPS]
    same_state(ctx, before, SC, "updating cavities changes nothing else", allow)
    once = snap(SC)
    SC.update_cavities() if call == "all" else SC.update_cavities(np.array(who))
    same_state(ctx, once, SC, "updating twice equals updating once")


def setpoints(ctx, param, method, form):
    SC = _mk(ctx)
    SC.update_cavities()
    before = snap(SC)
    if form == "scalar-one":
        who, x = [2], [ctx.real("x")]
        SC.set_cavity_setpoints(2, x[0], param, method)
    elif form == "scalar-both":
        v = ctx.real("x")
        who, x = [0, 2], [v, v]
        SC.set_cavity_setpoints(np.array(who), v, param, method)
    elif form == "default":
        who, x = [2, 0], [ctx.real("x"), ctx.real("y")]
        if method == "abs":
            SC.set_cavity_setpoints(who, x, param)
        else:
            SC.set_cavity_setpoints(ords=who, setpoints=x, param=param, method=method)
    elif form == "int":
        who, x = [0], [ctx.choose("n", 4) - 1]
        SC.set_cavity_setpoints(0, x[0], param, method)
    else:
        who, x = [2, 0], [ctx.real("x"), ctx.real("y")]
        a, o = arr(x), np.array(who)
        keep = a.copy()
        SC.set_cavity_setpoints(o, a, param, method)
        ctx.eq(a, keep, "the caller's setpoints are left alone")
        ctx.eq(o, who, "the caller's ordinates are left alone")
    for v, i in zip(x, who):
        old = before["RING"][i][param + "SetPoint"]
        want = {"abs": v, "rel": v * old, "add": v + old}[method]
        ctx.eq(getattr(SC.RING[i], param + "SetPoint"), want, "setpoint equals the request")
        _law(ctx, SC, i, "after setting")
    allow = [(i, param) for i in who] + [(i, param + "SetPoint") for i in who]
    same_state(ctx, before, SC, "only the addressed property changes", allow)


def history(ctx, p1, m1, p2, m2):
    SC = _mk(ctx)
    SC.update_cavities()
    before = snap(SC)
    sp = {(i, p): before["RING"][i][p + "SetPoint"] for i in (0, 2) for p in PROPS}
    for k, (p, m) in enumerate(((p1, m1), (p2, m2))):
        x = [ctx.real(f"x{k}"), ctx.real(f"y{k}")]
        SC.set_cavity_setpoints(np.array([0, 2]), arr(x), p, m)
        for i, v in zip((0, 2), x):
            sp[i, p] = {"abs": v, "rel": v * sp[i, p], "add": v + sp[i, p]}[m]
    for (i, p), v in sp.items():
        ctx.eq(getattr(SC.RING[i], p + "SetPoint"), v, "setpoints compose over calls")
    for i in (0, 2):
        _law(ctx, SC, i, "after two calls")


CASES = [Case(f"update-{c}", update, call=c) for c in ("all", "first", "second")]
for p in PROPS:
    for m in ("abs", "rel", "add"):
        for f in ("scalar-one", "scalar-both", "array", "default", "int"):
            CASES.append(Case(f"set-{p}-{m}-{f}", setpoints, param=p, method=m, form=f))
        for p2 in PROPS:
            for m2 in ("abs", "rel", "add"):
                CASES.append(Case(f"hist-{p}-{m}-{p2}-{m2}", history, quick=(p != p2 or m == m2), p1=p, m1=m, p2=p2, m2=m2))
