"""Loading of irdump JSON."""
import json


class Fn:
    def __init__(self, d, mod):
        self.mod = mod
        self.name = d["name"]
        self.dem = d["dem"]
        self.args = d["args"]
        self.ret = d.get("ret")
        self.file = d.get("file")
        self.line = d.get("line")
        self.root = d.get("root", False)
        self.opaque = d.get("opaque", False)
        self.blocks = d.get("blocks")
        self.loops = {}
        for l in d.get("loops", []):
            lo = Loop(l)
            self.loops[lo.header] = lo

    def insts(self):
        for b in self.blocks:
            for i in b:
                yield i


class Loop:
    def __init__(self, d):
        self.header = d["header"]
        self.blocks = set(d["blocks"])
        self.latches = set(d["latches"])
        self.depth = d["depth"]


class Mod:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns = {}
        self.dem = {}
        for f in d["functions"]:
            fn = Fn(f, self)
            self.fns[fn.name] = fn
            self.dem[fn.name] = fn.dem
        self.decls = {}
        for f in d["decls"]:
            self.decls[f["name"]] = f
            self.dem[f["name"]] = f["dem"]
        self.globals = {g["name"]: g for g in d["globals"]}

    def freeze_tables(self):
        """tables of functions that no instruction of the module writes are constants"""
        written = set()
        for f in self.fns.values():
            for i in (f.insts() if f.blocks else ()):
                if i["op"] == "store":
                    p = i.get("p")
                    if p and p[0] == "g":
                        written.add(p[1])
        for n, g in self.globals.items():
            ini = g.get("init")
            if ini and ini[0] == "agg" and n not in written and all(x[0] == "fn" for x in ini[1]):
                g["const"] = True

    def dname(self, n):
        return self.dem.get(n, n)


def where(inst):
    """human readable source position of an instruction: innermost first"""
    l = inst.get("loc")
    if not l:
        return "?"
    f, ln, sc = l[0]
    return "%s:%d in %s" % (f.replace("/repo/", ""), ln, sc.split("(")[0])


def where_chain(inst):
    l = inst.get("loc") or []
    return " <- ".join("%s:%d(%s)" % (f.replace("/repo/", ""), ln, sc.split("(")[0][-40:]) for f, ln, sc in l)
