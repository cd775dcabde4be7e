"""The loop rule: a loop with a symbolic trip count is cut at its invariant.

The contract gives the state of the arrays that the loop changes as a function of the number k of completed iterations.
At the loop head the state is compared with k = 0; then the state is set to that of an arbitrary k, the body runs once,
the state is compared with k + 1, and set to that of the last iteration. Whatever else survives an iteration - other
arrays written, values of containers, local variables that the next iteration reads - is rejected as unsupported.
"""

import dis
import sys


class LoopSpec:
    def __init__(self, w, name, n, state, containers=(), item=None):
        self.w, self.name, self.n, self.state, self.containers, self.item = w, name, n, state, containers, item

    def __len__(self):
        return self.n

    def __getitem__(self, k):
        return self.item(k)

    def __iter__(self):
        for k, x in self.run():
            yield x

    def run(self, only_index=False):
        """yields (k, element)"""
        w, n = self.w, self.n
        if not w.symbolic:
            for k in range(n):
                self._compare(f"loop {self.name}: state before an iteration", k)
                yield k, (k if only_index else self.item(k))
            self._compare(f"loop {self.name}: state after the last iteration", n)
            return
        from .sym import SV, Unsupported, ctx, z3, lift

        frame = sys._getframe(1)
        while frame.f_code.co_filename.startswith(_HERE):
            frame = frame.f_back
        self._compare(f"loop {self.name}: initial state", 0)
        c = ctx()
        t = z3.Int(c.uid("k_" + self.name))
        c.assume(z3.And(t >= 0, t < lift(n)))
        k = SV(t)
        self._set(k)
        old_log, c.wlog = c.wlog, {}
        mark = c.buffer_mark()
        before = {id(x): (x, dict(x)) for x in self.containers}
        loc = dict(frame.f_locals)
        bufs = {get().buf.uid for _, get, *_ in self.state(k)}
        yield k, (k if only_index else self.item(k))
        log, c.wlog = c.wlog, old_log
        changed = [v for v, x in frame.f_locals.items() if v in loc and loc[v] is not x]
        live = live_at(frame.f_code, frame.f_lasti)
        for v in changed:
            if v in live and not self._same(loc[v], frame.f_locals[v]):
                raise Unsupported(f"loop {self.name}: local variable '{v}' is carried from one iteration to the next")
        entries = self.state(k + 1)
        bufs |= {get().buf.uid for _, get, *_ in entries}
        for uid in log:
            if uid < mark and uid not in bufs:
                raise Unsupported(f"loop {self.name}: writes to an array outside its declared state")
        if old_log is not None:
            old_log.update(log)
        for cont, items in before.values():
            for key, x in cont.items():
                if items.get(key) is not x and not self._declared(x, bufs):
                    raise Unsupported(f"loop {self.name}: changes '{key}' outside its declared state")
        self._check(f"loop {self.name}: after an iteration", entries)
        self._set(n)

    def _everywhere(self, mask):
        from .sym import ctx, t_implies

        return all(ctx().entails(t_implies(g, t)) for g, t in self.w._cond_terms(mask))

    @staticmethod
    def _anything(a):
        from .arr import SArr
        from .sym import ctx, z3

        sort = {"f": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[a.k]
        n = sum(len(ax.atoms) for ax in a.axes)
        f = z3.Function(ctx().uid("any"), *([z3.IntSort()] * n), sort) if n else None
        c = None if n else z3.Const(ctx().uid("any"), sort)
        return SArr.new(a.axes, a.k, lambda idx: f(*[t for ix in idx for t in ix]) if n else c)

    @staticmethod
    def _same(a, b):
        return type(a) is type(b) and isinstance(a, (int, str, bool, float)) and a == b

    @staticmethod
    def _declared(x, bufs):
        return getattr(x, "_is_sarr", False) and x.buf.uid in bufs

    def _compare(self, name, k):
        self._check(name, self.state(k))

    def _check(self, name, entries):
        for e in entries:
            if len(e) == 4:
                self.w.eq_where(f"{name}: {e[0]}", e[3], e[1](), e[2])
            else:
                self.w.lemma_eq(f"{name}: {e[0]}", e[1](), e[2])

    def _set(self, k):
        vals = []
        for e in self.state(k):
            val = e[2]
            if len(e) == 4 and not self._everywhere(e[3]):  # known where e[3] holds, anything elsewhere
                val = self.w.np.where(e[3], val, self._anything(e[1]()))
            vals.append((e[1], val.copy() if hasattr(val, "copy") else val))
        for get, val in vals:
            get()[...] = val


_HERE = __file__.rsplit("/", 1)[0]


def live_at(code, offset):
    """The local variables whose values at the given instruction may be read later."""
    ins = list(dis.get_instructions(code))
    pos = {x.offset: i for i, x in enumerate(ins)}
    live = [set() for _ in range(len(ins) + 1)]
    todo = True
    while todo:
        todo = False
        for i in range(len(ins) - 1, -1, -1):
            x = ins[i]
            out = set()
            if x.opname not in ("RETURN_VALUE", "RETURN_CONST", "RAISE_VARARGS", "RERAISE", "JUMP_FORWARD", "JUMP_BACKWARD", "JUMP_BACKWARD_NO_INTERRUPT"):
                out |= live[i + 1]
            if x.opcode in dis.hasjrel or x.opcode in dis.hasjabs:
                out |= live[pos[x.argval]]
            if x.opname in ("STORE_FAST", "DELETE_FAST"):
                out = out - {x.argval}
            elif x.opname in ("LOAD_FAST", "LOAD_FAST_CHECK", "LOAD_DEREF", "LOAD_CLOSURE", "LOAD_FAST_AND_CLEAR"):
                out = out | {x.argval}
            elif x.opname == "LOAD_FAST_LOAD_FAST":
                out = out | set(x.argval)
            if out != live[i]:
                live[i] = out
                todo = True
    while offset not in pos and offset > 0:  # inside the inline cache of the instruction
        offset -= 2
    return live[pos[offset]]
