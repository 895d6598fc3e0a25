import importlib, sys, json
sys.path.insert(0, "/repo")
from pyvc.contract import Registry
from pyvc.prove import verify

def load(modname):
    reg = Registry()
    m = importlib.import_module("contracts." + modname)
    schema = m.load(reg)
    return reg, schema

if __name__ == "__main__":
    mod = sys.argv[1]
    only = sys.argv[2:] 
    reg, schema = load(mod)
    for c in reg.contracts.values():
        if c.trusted or (only and not any(o in c.name for o in only)): continue
        r = verify(reg, c, schema.get(c.name, schema.get("*", {})) if "*" in schema else schema)
        print("%-60s %s obligations=%d paths=%d exits=%s/%s %.1fs %s" % (r["name"], r["status"], len(r["obligations"]), r["paths"], r.get("reachable_exits"), r.get("exits"), r["wall"], r["reason"] if r["status"] not in ("failed",) else ""))
        if r["status"] == "failed":
            for o in r["obligations"]:
                if o["status"] != "proved":
                    print("    ", o["name"], o["status"], "line", o["line"], o["text"], o["solver"], o["time"], o["model"][:300].replace("\n", " "))
