"""Waiting for the first of several events: the kernel's poll set is a table of (descriptor, mask, label) built by the calls the
code makes, every readiness and failure outcome of every call is explored, and the answer must be the position of the ready event."""
import re
from build import *
from flow import *

EINTR, EBADF = 4, 9
MASKS = ((1, 5, 9), (5, 1, 0x2018), (4, 0, 1, 0x80000001))


class Wrong(Exception):
    pass


class Wait(Flow):
    def __init__(self, mod, world, n, ready=None, masks=(1, 5, 9)):
        super().__init__(mod, world)
        self.number = n
        self.only = ready
        self.fd = [17 + (7 * i) % 1009 for i in range(n)]
        self.mask = [masks[i % len(masks)] for i in range(n)]
        self.set = {}           # descriptor -> (mask, label cells)
        self.ep = None
        self.closed = 0
        self.failed = False     # a call failed for good
        self.intr = 0
        self.ready = None
        self.obj("events", {8 * i + o: (4, v) for i in range(n) for o, v in ((0, self.fd[i]), (4, self.mask[i]))})
        self.obj("errno", {0: (4, 0)})

    def fail(self, code=EBADF):
        self.put("errno", 0, 4, code)
        if code != EINTR:
            self.failed = True
        return 0xffffffff

    def pick(self, n):
        return 0 if self.only is not None else self.w.choose(n)

    def call(self, env, i):
        fn = i.get("fn")
        d = self.mod.dname(fn) if fn else ""
        a = None
        if re.match(r"^(epoll_|close$|__errno_location|rpp::Log::|void rpp::Log::|.*Log::Location::make|rpp::Libc::|eventfd|read$|write$|poll$|ppoll$)", d):
            a = [self.val(env, o) for o in i["args"]]
        if a is None:
            return super().call(env, i)
        at = where(i)
        if d == "__errno_location":
            return ("p", "errno", 0)
        if d.startswith("rpp::Libc::exit"):
            self.trap = at
            return None
        if "Log::" in d:
            return None
        if d.startswith("rpp::Libc::strlen"):
            return 0
        if d in ("epoll_create1", "epoll_create"):
            if self.ep is not None:
                raise Wrong("two poll sets are made at %s" % at)
            if self.pick(2):
                return self.fail()
            self.ep = 5
            return 5
        if d == "epoll_ctl":
            if a[0] != 5 or self.closed or a[1] != 1:
                raise Wrong("does not add to the poll set at %s" % at)
            if a[2] not in self.fd:
                raise Wrong("adds descriptor %s, which none of the events has, at %s" % (a[2], at))
            if a[2] in self.set:
                raise Wrong("adds an event twice at %s" % at)
            o, b = a[3][1], a[3][2]
            m = self.get(o, b, 4)
            if m != self.mask[self.fd.index(a[2])]:
                raise Wrong("event %d is added with mask %s instead of its own at %s" % (self.fd.index(a[2]), m, at))
            if self.pick(2):
                return self.fail()
            self.set[a[2]] = {k - b: v for k, v in self.mem[o].items() if b + 4 <= k and k + v[0] <= b + 12}
            return 0
        if d in ("epoll_wait", "epoll_pwait"):
            if a[0] != 5 or self.closed:
                raise Wrong("waits on something else than the poll set at %s" % at)
            if len(self.set) != self.number:
                raise Wrong("waits after adding %d of %d events at %s" % (len(self.set), self.number, at))
            if a[3] not in (0xffffffff, -1):
                raise Wrong("waits with a time limit at %s" % at)
            if not isinstance(a[2], int) or a[2] < 1:
                raise Wrong("waits without room for an event at %s" % at)
            if self.only is None:
                x = self.w.choose(self.number + 1 + (self.intr < 2))
            else:
                x = self.only
            if x == self.number:
                return self.fail()
            if x > self.number:
                self.intr += 1
                return self.fail(EINTR)
            self.ready = x
            o, b = a[1][1], a[1][2]
            for k in [k for k in self.mem[o] if b <= k < b + 12]:
                del self.mem[o][k]
            self.put(o, b, 4, (self.mask[x], self.mask[x] | 0x10, 8)[self.w.choose(3)])
            for k, (z, v) in self.set[self.fd[x]].items():
                self.put(o, b + k, z, v)
            return 1
        if d == "close":
            if a[0] != 5 or self.closed:
                raise Wrong("closes a descriptor it does not own at %s" % at)
            self.closed = 1
            if self.pick(2):
                return self.fail()
            return 0
        raise Wrong("unexpected call of %s at %s" % (d, at))


def wait_any(ctx, mod, name, sizes=(1, 2, 3, 5), long=300):
    fn = mod.fns.get(name)
    if fn is None or fn.blocks is None:
        return ctx.fail("harness function %s vanished" % name)
    probs = {}
    cases = [(n, None, m) for n in sizes for m in MASKS] + [(long, k, MASKS[0]) for k in (0, long // 2, long - 1)]
    for n, only, masks in cases:
        def body(w):
            m = Wait(mod, w, n, only, masks)
            ctx.count("waits on several events")
            at = "of %d events" % n
            try:
                r = m.run(fn, [("p", "events", 0), n])
            except Wrong as e:
                return probs.setdefault(str(e).split(" at /")[0][:60], "%s: %s" % (at, e))
            if m.trap:
                if not m.failed:
                    probs.setdefault("ends", "%s: ends the program at %s although no call failed%s" % (at, m.trap, ", only a signal interrupted the wait" if m.intr else ""))
                return
            if m.ready is None:
                return probs.setdefault("early", "%s: returns without a ready event" % at)
            if r != m.ready:
                return probs.setdefault("index", "%s: event %d is ready, the result is %s" % (at, m.ready, r))
            if not m.closed:
                probs.setdefault("leak", "%s: the poll set is left open" % at)
        try:
            explore(Alg(), body)
        except AnalysisError as e:
            return ctx.undecided(name, "waiting on %d events: %s" % (n, str(e)[:200]))
    for k, p in probs.items():
        ctx.bad(name, "%s:%s" % (name[2:], k), "Event::wait_any: %s" % p)
    if not probs:
        ctx.ok(name)
    return probs
