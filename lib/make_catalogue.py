"""PYTHONPATH=<a build> /opt/venv/bin/python lib/make_catalogue.py: write lib/catalogue.json from the Prop classes,
so that the driver (which runs outside the package's interpreter) knows each property's variants and floors"""
import importlib, json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from worker import MODULES  # noqa: E402

cat = {}
for mod in MODULES:
    for pid, P in importlib.import_module("props." + mod).PROPS.items():
        cat[pid] = {"variants": list(P.variants), "rule": P.rule, "required": P.required, "assumptions": list(P.assumptions),
                    "min_distinct": P.min_distinct or max(2, P.quick // 5)}
with open(os.path.join(HERE, "catalogue.json"), "w") as f:
    json.dump(dict(sorted(cat.items())), f, indent=1)
    f.write("\n")
