"""One decider per property.  A case is plain JSON: what the simulator has to
do.  decide(case) performs it and judges; nothing else enters the verdict."""
import importlib

from .base import Context  # noqa

TABLE = {
    "P01": ("process", "P01"),
    "P02": ("process", "P02"),
    "P03": ("process", "P03"),
    "P04": ("solving", "P04"),
    "P05": ("solving", "P05"),
    "P06": ("solving", "P06"),
    "P07": ("saving", "P07"),
    "P08": ("saving", "P08"),
    "P09": ("saving", "P09"),
    "P10": ("process", "P10"),
    "P11": ("inputs", "P11"),
    "P12": ("process", "P12"),
    "P13": ("environ", "P13"),
    "P14": ("shipped", "P14"),
    "M01": ("model", "M01"),
    "M02": ("model", "M02"),
    "M03": ("probe", "M03"),
    "M04": ("model", "M04"),
    "M05": ("model", "M05"),
    "M06": ("model", "M06"),
    "M07": ("model", "M07"),
    "M08": ("model", "M08"),
    "M09": ("model", "M09"),
    "M10": ("model", "M10"),
    "M11": ("model", "M11"),
    "M12": ("simmode", "M12"),
    "M13": ("inputs", "M13"),
    "M14": ("owninput", "M14"),
}


def get(pid):
    mod, cls = TABLE[pid]
    return getattr(importlib.import_module(f"mimsim.props.{mod}"), cls)()
