"""Value flow over element lifetimes: an element is an opaque identity in a slot, alive, moved-from or absent; its comparisons are
decided once per identity and every outcome is explored."""
import re
from build import *
from flow import *


class Fault(Exception):
    pass


class Elems(Flow):
    def __init__(self, mod, world, es=24):
        super().__init__(mod, world)
        self.es = es
        self.slot = {}          # (object, offset) -> [state, identity]
        self.eq = {}            # identity -> does it equal the value looked for
        self.order = []
        self.ended = []         # identities destroyed
        self.bad = []

    def at(self, p, what, states=("alive",)):
        if not (isinstance(p, tuple) and p[0] == "p"):
            raise Fault("%s of something that is not an element" % what)
        s = self.slot.get(p[1:])
        if s is None:
            c = self.mem.get(p[1], {}).get(p[2])
            if c and c[0] == self.es and isinstance(c[1], tuple) and c[1][0] == "id":
                return ["alive", c[1][1]]
            raise Fault("%s of a slot without an element (%s+%d)" % (what, p[1], p[2]))
        if s[0] not in states:
            raise Fault("%s of a moved-from element" % what)
        return s

    def compare(self, p, q):
        a, b = self.at(p, "comparison"), self.at(q, "comparison")
        if "value" not in (a[1], b[1]):
            raise Fault("compares two elements of the container with each other")
        k = a[1] if b[1] == "value" else b[1]
        if k == "value":
            return 1
        if k not in self.eq:
            self.eq[k] = self.w.choose(2)
            self.order.append(k)
        return self.eq[k]

    def call(self, env, i):
        fn = i.get("fn")
        if fn is None:
            return super().call(env, i)
        d = self.mod.dname(fn)
        a = [self.val(env, o) for o in i["args"]]
        if re.match(r"^(bool )?(Tok|TokC|Triv)::operator==\(", d):
            return self.compare(a[0], a[1])
        m = re.match(r"^(Tok|TokC)::(Tok|TokC|~Tok|~TokC|operator=)\((.*)\)", d)
        if m:
            k = m[2]
            if k[0] == "~":
                s = self.at(a[0], "destruction", ("alive", "husk"))
                if s[0] == "alive":
                    self.ended.append(s[1])
                del self.slot[a[0][1:]]
                return None
            if not m[3] or m[3] == "int":
                raise AnalysisError("an element made from nothing at %s" % where(i))
            src = self.at(a[1], "copy" if "const" in m[3] else "move")
            if k == "operator=":
                if a[0] == a[1]:
                    return a[0]
                dst = self.at(a[0], "assignment", ("alive", "husk"))
                if dst[0] == "alive":
                    self.ended.append(dst[1])
            elif self.slot.get(a[0][1:], ("",))[0] == "alive":
                raise Fault("constructs an element over a live one")
            x = src[1]
            if "const" not in m[3]:
                src[0] = "husk"
            self.slot[a[0][1:]] = ["alive", x]
            return a[0]
        return super().call(env, i)

    def int(self, op, ty, a, i):
        if op in ("udiv", "urem", "sdiv", "srem") and a[1] == 0:
            raise Fault("divides by zero at %s" % where(i))
        return super().int(op, ty, a, i)
