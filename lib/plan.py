"""Which build configurations decide which property, and how much."""

LEVELS = {"C21": "fault_enumeration"}


def std(generic=0.5, asm=0.1, x86=0.02):
    """Default build in full, the portable backend, the assembly backend, 32-bit words."""
    out = [{"name": "default", "scale": 1.0, "weight": 3}]
    if generic:
        out.append({"name": "generic", "scale": generic, "weight": 3})
    if asm:
        out.append({"name": "asm", "scale": asm, "weight": 1, "optional": True})
    if x86:
        out.append({"name": "386", "scale": x86, "weight": 1, "optional": True})
        out.append({"name": "386-generic", "scale": x86, "weight": 1, "optional": True})
    return out


PLAN = {
    # scalar code does not depend on the field backend
    "C01": {"configs": [{"name": "default", "weight": 3}, {"name": "386", "scale": 0.15, "tscale": 0.15, "optional": True}]},
    "C02": {"configs": [{"name": "default", "weight": 3}, {"name": "386", "scale": 0.15, "tscale": 0.15, "optional": True}]},
    "C03": {"configs": [{"name": "default"}]},
    "C04": {"configs": std()},
    "C05": {"configs": std()},
    "C06": {"configs": std()},
    "C07": {"configs": std()},
    "C08": {"configs": std()},
    "C12": {"configs": std(0.3, 0)},
}
PLAN.update({
    "C09": {"configs": std()},
    "C10": {"configs": std()},
    "C11": {"configs": std()},
    "C13": {"configs": std(1.0, 0.5)},
    "C14": {"configs": std(1.0, 0.5)},
    # the model is not the oracle here: every backend runs the same programs
    "C15": {"configs": [{"name": "default"}], "peers": ["generic", "asm", "386", "386-generic"]},
})
PLAN.update({
    "C16": {"configs": std()},
    "C17": {"configs": [{"name": "race"}, {"name": "race-generic"},
                        {"name": "sched", "optional": True}, {"name": "sched-generic", "optional": True, "scale": 0.2, "tscale": 0.2},
                        {"name": "crefgo", "optional": True}], "workers": 6},
})
PLAN.update({
    "C20": {"configs": std(1.0, 0.1)},
    "C19": {"configs": std()},
    "C21": {"configs": [{"name": "default"}, {"name": "go1.23", "optional": True}]},
    "C18": {"configs": [{"name": "crefgo"}, {"name": "crefc", "optional": True},
                        {"name": "crefc-asan", "optional": True, "scale": 0.02, "tscale": 0.05}]},
})
PLAN["C22"] = {"configs": [{"name": "default"}, {"name": "generic", "optional": True}, {"name": "instr", "optional": True}, {"name": "instr-generic", "optional": True}]}

# Quick case counts, times this.
for _p, _f in {"C01": 3, "C02": 3, "C03": 8, "C04": 3, "C05": 2, "C06": 2, "C09": 3, "C10": 1.6, "C11": 4,
               "C12": 5, "C13": 3, "C14": 3, "C20": 2, "C21": 2}.items():
    PLAN[_p]["quick"] = _f

# Guided search on top: the library tells which blocks were reached and how close
# the operands of its comparisons came.
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12",
           "C13", "C14", "C16", "C19", "C20"):
    PLAN[_p]["configs"] = PLAN[_p]["configs"] + [
        {"name": "guide", "scale": 0.3, "tscale": 0.3, "optional": True}]
for _p in ("C04", "C05", "C06", "C07", "C08", "C09", "C10", "C13", "C14", "C16", "C20", "C15"):
    PLAN[_p]["configs"] = PLAN[_p]["configs"] + [
        {"name": "guide-generic", "scale": 0.1, "tscale": 0.1, "optional": True}]
PLAN["C15"]["configs"] = PLAN["C15"]["configs"] + [{"name": "guide", "scale": 0.1, "tscale": 0.1, "optional": True}]
