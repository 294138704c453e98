"""The model as it was defined, before any simplification, evaluated at the
values a solved model reports."""
import math


def residuals(mimosa, model, params):
    from pyomo.environ import Constraint, TransformationFactory, Var, value

    # the same settings, with every pyomo transformation switched off
    saved = {}
    classes = set()
    for name in ("contrib.aggregate_vars", "contrib.init_vars_midpoint", "contrib.detect_fixed_vars", "contrib.propagate_fixed_vars"):
        t = TransformationFactory(name)
        classes.add(type(t))
    for c in classes:
        saved[c] = c.__dict__.get("apply_to")
        c.apply_to = lambda self, *a, **k: None
    try:
        ref = mimosa.MIMOSA(params)
    finally:
        for c, f in saved.items():
            if f is None:
                del c.apply_to
            else:
                c.apply_to = f
    cm, rm = model.concrete_model, ref.concrete_model
    missing, badbound = [], []
    n = 0
    for v in rm.component_data_objects(Var):
        other = cm.find_component(v.parent_component().name)
        val = None
        if other is not None:
            try:
                val = value(other[v.index()] if other.is_indexed() else other, exception=False)
            except (KeyError, ValueError):
                val = None
        if val is None:
            missing.append(v.name)
            continue
        n += 1
        if v.fixed and v.value is not None and abs(v.value - val) > 1e-8 * max(1, abs(v.value)):
            badbound.append((v.name, float(val)))
        v.fixed = False
        v.set_value(float(val), skip_validation=True)
        lo, hi = v.bounds
        if (lo is not None and val < value(lo) - 2e-8 * max(1, abs(value(lo)))) or (hi is not None and val > value(hi) + 2e-8 * max(1, abs(value(hi)))):
            badbound.append((v.name, float(val)))
    miss = set(missing)
    bad = []
    m = 0
    from pyomo.core.expr.visitor import identify_variables

    for c in rm.component_data_objects(Constraint, active=True):
        names = [x.name for x in identify_variables(c.body)]
        if miss and any(x in miss for x in names):
            bad.append((c.name, "unset variable"))
            continue
        m += 1
        try:
            b = value(c.body)
        except (ValueError, ZeroDivisionError, OverflowError):
            bad.append((c.name, "not computable"))
            continue
        scale = 1.0
        try:
            scale = max([1.0] + [abs(value(t)) for t in getattr(c.body, "args", ())])
        except Exception:
            pass
        tol = 1e-6 * scale
        lo, hi = c.lower, c.upper
        if (lo is not None and b < value(lo) - tol) or (hi is not None and b > value(hi) + tol) or b != b:
            bad.append((c.name, float(b)))
    return {"full": {"missing": missing[:20], "nmissing": len(missing), "bounds": badbound[:20], "bad": bad[:20], "nbad": len(bad), "vars": n, "cons": m}}
