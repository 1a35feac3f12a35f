import sys, json, io, os
real = sys.stdout
from mypy.main import process_options
from mypy.config_parser import parse_mypy_comments

def reply(b):
    real.buffer.write(b"%d\n" % len(b))
    real.buffer.write(b)
    real.buffer.flush()

def values(o, keys):
    r = {}
    for k in keys:
        v = getattr(o, k)
        r[k] = list(v) if isinstance(v, (list, tuple, set)) else v
    return r

def handle(cmd, data):
    d = json.loads(data)
    err = io.StringIO()
    try:
        _, o = process_options(d["args"] + ["-c", "x"], stdout=err, stderr=err)
    except SystemExit:
        return {"error": err.getvalue()}
    r = {"messages": err.getvalue(), "base": values(o, d["keys"] + d["base"]), "modules": {}}
    for m in d["modules"]:
        r["modules"][m] = values(o.clone_for_module(m), d["keys"])
    r["inline"] = {}
    for m, text in d.get("inline", {}).items():
        c = o.clone_for_module(m)
        changes, errors = parse_mypy_comments([(1, text)], c)
        r["inline"][m] = [values(c.apply_changes(changes), d["keys"]), [e[1] for e in errors]]
    return r
