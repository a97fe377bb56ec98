"""The simulator: rank threads under one baton, a seeded scheduler and a simulated interconnect.

Exactly one thread runs at any time. A rank thread gives the baton back at every communication call
(posting an operation) and at every wait; the scheduler (the thread that called ``World.run``) then picks the
next event among the enabled ones:

    run r                  let rank r continue (until its next post / wait / end)
    rd  g:k r              the interconnect consumes rank r's input of collective k on group g
    wr  g:k r              the interconnect delivers the result of collective k on group g to rank r
    ps  g:s>d:k            the interconnect consumes the k-th point-to-point message s->d of group g
    pd  g:s>d:k            ... and delivers it
    crash r / abort r / stall r / wake r       faults

All choices come from one PRNG; the sequence of labels is the schedule. A recorded schedule can be replayed.
Semantics of the interconnect follow NCCL (see DESIGN.md section 2).
"""

import functools
import hashlib
import sys
import threading
import types
import zlib

import torch
import torch.distributed as dist
import torch.distributed.distributed_c10d as c10d
from torch.testing._internal.distributed.multi_threaded_pg import ThreadLocalWorld, WorldData

RUNNABLE, WAITING, DONE, FAILED, CRASHED = "runnable", "waiting", "done", "failed", "crashed"


class Violation(Exception):
    """A property violation observed by the simulator or by an oracle."""

    def __init__(self, kind, msg):
        if len(msg) > 1200:
            msg = msg[:800] + " ... " + msg[-380:]
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg


class HarnessError(Exception):
    """Something is wrong with the machinery, not with the code under test."""


class SimKill(BaseException):
    """Unwinds a rank thread (crash of the rank, or end of the run)."""


class CommAborted(RuntimeError):
    """What a surviving rank sees when the communicator is aborted under it."""


class InjectedFault(RuntimeError):
    """A failing allocation / operation injected by the simulator."""


def install():
    """Install the per-thread torch.distributed world (idempotent)."""
    if not isinstance(c10d._world, ThreadLocalWorld):
        c10d._world = ThreadLocalWorld()


# ---------------------------------------------------------------------------------------------------------------
# data movement


def raw(t):
    """Flat view of the dense storage behind t, in storage order (what a device-side collective sees)."""
    t = t.detach()
    if t.numel() == 0:
        return t.reshape(-1)
    if t.is_contiguous():
        return t.view(-1)
    if not torch.ops.aten.is_non_overlapping_and_dense(t):
        raise ValueError("Tensors must be contiguous")
    return torch.as_strided(t, (t.numel(),), (1,), t.storage_offset())


def check_dense(tensors):
    for t in tensors:
        if t.is_sparse:
            raise ValueError("Tensors must be dense")
        if t.numel() and not t.is_contiguous() and not torch.ops.aten.is_non_overlapping_and_dense(t):
            raise ValueError("Tensors must be contiguous")


_INT_POISON = -1515870811  # 0xA5A5A5A5


def device_side(f):
    """Buffers of a caller in inference mode may be written by the interconnect as well."""

    @functools.wraps(f)
    def g(t, *a):
        with torch.inference_mode(t.is_inference()):
            return f(t, *a)

    return g


@device_side
def poison_(t):
    r = raw(t)
    if r.numel() == 0:
        return
    if r.is_floating_point() or r.is_complex():
        r.fill_(float("nan"))
    elif r.dtype == torch.bool:
        r.fill_(True)
    elif r.dtype in (torch.int64, torch.int32):
        r.fill_(_INT_POISON)
    else:
        r.fill_(0x5A)


@device_side
def put(dst, src):
    """Write the flat tensor src into the storage behind dst."""
    r = raw(dst)
    if r.numel():
        r.copy_(src)


# ---------------------------------------------------------------------------------------------------------------
# interconnect


class Item:
    """One entry of a rank's in-order communication queue on a group: a collective, or a batch of p2p messages."""

    __slots__ = ("world", "rank", "group", "kind", "coll", "p2p", "done", "error", "parts_left", "label")

    def __init__(self, world, rank, group, kind, label):
        self.world, self.rank, self.group, self.kind, self.label = world, rank, group, kind, label
        self.coll = None
        self.p2p = []
        self.done = False
        self.error = None
        self.parts_left = 0


class P2P:
    __slots__ = ("item", "is_send", "tensor", "peer", "grank", "k", "buf", "posted_at", "read", "finished")

    def __init__(self, item, is_send, tensor, grank, peer, k):
        self.item, self.is_send, self.tensor, self.grank, self.peer, self.k = item, is_send, tensor, grank, peer, k
        self.buf = None
        self.read = False
        self.finished = False


class Coll:
    """A collective instance, the k-th one of a group."""

    __slots__ = ("gid", "k", "size", "part", "inp", "sig")

    def __init__(self, gid, k, size):
        self.gid, self.k, self.size = gid, k, size
        self.part = {}  # group rank -> dict(item, kind, ins, outs, root, op, meta)
        self.inp = {}  # group rank -> list of flat tensors (None until read)


class SimWork:
    """Stands in for torch.distributed.Work."""

    def __init__(self, item):
        self._item = item

    def wait(self, timeout=None):
        self._item.world._wait(self._item)
        return True

    def synchronize(self):
        self.wait()

    def block_current_stream(self):
        self.wait()

    def is_completed(self):
        return self._item.done

    def is_success(self):
        return self._item.done and self._item.error is None

    def exception(self):
        return self._item.error

    def source_rank(self):
        return -1

    def result(self):
        self.wait()
        return []

    def get_future(self):
        fut = torch.futures.Future()
        self.wait()
        fut.set_result([])
        return fut


def _op_name(op):
    s = str(op)
    for n in ("SUM", "AVG", "PRODUCT", "MIN", "MAX", "BAND", "BOR", "BXOR", "PREMUL_SUM"):
        if s.endswith("." + n) or s.endswith(n):
            return n
    # ReduceOp objects compare equal to their RedOpType
    for n in ("SUM", "AVG", "PRODUCT", "MIN", "MAX"):
        if op == getattr(dist.ReduceOp, n):
            return n
    return s


class SimGroup(dist.ProcessGroup):
    """A process group as one rank sees it."""

    def __init__(self, world, rank, gid, ranks):
        super().__init__(ranks.index(rank), len(ranks))
        self.sim = world
        self.sim_rank = rank
        self.gid = gid
        self.ranks = list(ranks)
        self.grank = ranks.index(rank)
        self.supports_coalescing = world.coalescing
        self._batch = None
        self._ncoll = 0
        self.is_shutdown = False
        self.fail_shutdown = 0  # the next n attempts to shut down fail
        self.failed_once = False
        self.downs = 0

    # identity / queries
    def size(self):
        return len(self.ranks)

    def rank(self):
        return self.grank

    def name(self):
        return "simnccl"

    def getBackendName(self):
        return "simnccl"

    @property
    def group_name(self):
        return self.gid

    @property
    def pg_name(self):
        return self.gid

    @property
    def group_desc(self):
        return self.gid

    def _get_backend(self, device):
        return self

    @property
    def _device_types(self):
        return [torch.device("cpu")]

    def shutdown(self):
        if self.fail_shutdown:
            self.fail_shutdown -= 1
            self.failed_once = True
            raise InjectedFault(f"shutdown of communicator {self.gid} failed")
        self.downs += 1
        self.is_shutdown = True
        self.sim._note(self.sim_rank, f"shutdown {self.gid}")

    def abort(self):
        self.shutdown()

    def __repr__(self):
        return f"<SimGroup {self.gid} {self.ranks} rank {self.grank}>"

    # collectives. Every one is described as: ins (list of input tensors), outs (list of output tensors).
    def _coll(self, kind, ins, outs, root=None, op=None, split=None):
        return self.sim._post_coll(self, kind, ins, outs, root, op, split)

    def allreduce(self, tensors, opts=None):
        return self._coll("allreduce", list(tensors), list(tensors), op=_op_name(opts.reduceOp) if opts is not None else "SUM")

    def allreduce_coalesced(self, tensors, opts=None):
        return self.allreduce(tensors, opts)

    def reduce(self, tensors, opts=None):
        root = opts.rootRank
        return self._coll("reduce", list(tensors), list(tensors) if root == self.grank else [], root=root, op=_op_name(opts.reduceOp))

    def broadcast(self, tensors, opts=None):
        root = opts.rootRank
        me = root == self.grank
        return self._coll("broadcast", list(tensors) if me else [], [] if me else list(tensors), root=root)

    def allgather(self, outs, ins, opts=None):
        return self._coll("allgather", list(ins), list(outs[0]))

    def all_gather_single(self, out, inp, opts=None):
        n = self.size()
        check_dense([out])
        return self._coll("allgather", [inp], list(raw(out).chunk(n)) if out.numel() else [out] * n)

    _allgather_base = all_gather_single

    def all_gather_single_coalesced(self, outs, ins, opts=None):
        w = None
        for o, i in zip(outs, ins):
            if w is not None:
                w.wait()
            w = self.all_gather_single(o, i)
        return w

    def allgather_coalesced(self, out_lists, ins, opts=None):
        w = None
        for j, i in enumerate(ins):
            if w is not None:
                w.wait()
            w = self.allgather([[ol[j] for ol in out_lists]], [i])
        return w

    def gather(self, outs, ins, opts=None):
        root = opts.rootRank
        return self._coll("gather", list(ins), list(outs[0]) if root == self.grank else [], root=root)

    def scatter(self, outs, ins, opts=None):
        root = opts.rootRank
        return self._coll("scatter", list(ins[0]) if root == self.grank else [], list(outs), root=root)

    def reduce_scatter(self, outs, ins, opts=None):
        return self._coll("reduce_scatter", list(ins[0]), list(outs), op=_op_name(opts.reduceOp) if opts is not None else "SUM")

    def reduce_scatter_single(self, out, inp, opts=None):
        n = self.size()
        check_dense([inp])
        if inp.numel() % n:
            raise ValueError("reduce_scatter_tensor: input size must be equal to output size times world size")
        return self._coll("reduce_scatter", list(raw(inp).chunk(n)) if inp.numel() else [inp] * n, [out], op=_op_name(opts.reduceOp) if opts is not None else "SUM")

    _reduce_scatter_base = reduce_scatter_single

    def reduce_scatter_single_coalesced(self, outs, ins, opts=None):
        w = None
        for o, i in zip(outs, ins):
            if w is not None:
                w.wait()
            w = self.reduce_scatter_single(o, i, opts)
        return w

    def alltoall(self, outs, ins, opts=None):
        return self._coll("alltoall", list(ins), list(outs))

    def all_to_all_single(self, out, inp, out_splits, in_splits, opts=None):
        n = self.size()
        check_dense([out, inp])

        def parts(t, splits):
            d0 = t.shape[0] if t.dim() else 0
            if not splits:
                if d0 % n:
                    raise ValueError("Tensor's dim 0 does not divide equally across group size")
                splits = [d0 // n] * n
            if sum(splits) != d0:
                raise ValueError("Split sizes doesn't match total dim 0 size")
            row = t.numel() // d0 if d0 else 0
            return list(raw(t).split([s * row for s in splits]))

        return self._coll("alltoall", parts(inp, in_splits), parts(out, out_splits))

    alltoall_base = all_to_all_single

    def barrier(self, opts=None):
        t = torch.zeros(1)
        return self._coll("barrier", [t], [t.clone()])

    # point to point
    def _start_coalescing(self, device=None):
        self._batch = []

    def _end_coalescing(self, device=None):
        batch, self._batch = self._batch, None
        return self.sim._post_p2p(self, batch)

    def send(self, tensors, dst, tag=0):
        return self._p2p(True, tensors[0], dst)

    def recv(self, tensors, src, tag=0):
        return self._p2p(False, tensors[0], src)

    def recv_anysource(self, tensors, tag=0):
        raise HarnessError("recv_anysource is not simulated")

    def _p2p(self, is_send, t, peer):
        if self._batch is not None:
            self._batch.append((is_send, t, peer))
            return None
        return self.sim._post_p2p(self, [(is_send, t, peer)], alone=True)


# ---------------------------------------------------------------------------------------------------------------
# ranks


class _Baton:
    """Binary semaphore, initially taken."""

    __slots__ = ("lock", "acquire", "release")

    def __init__(self):
        self.lock = threading.Lock()
        self.lock.acquire()
        self.acquire = self.lock.acquire
        self.release = self.lock.release


class Rank:
    def __init__(self, world, idx):
        self.world, self.idx = world, idx
        self.state = RUNNABLE
        self.item = None
        self.sem = _Baton()
        self.thread = None
        self.exc = None
        self.tb = None
        self.ns = None  # module namespace of this rank (dict for sys.modules)
        self.rng = None
        self.out = {}
        self.stalled = False
        self.kill = False
        self.abort = False
        self.posts = 0  # communication operations posted
        self.crash_at = None  # die right before the n-th post
        self.fail_post = None  # the n-th post fails with an error
        self.wd = None


class World:
    """One simulated deployment of `size` ranks."""

    def __init__(self, size, rng, *, style="uniform", coalescing=True, eager=True, inorder=True, order_mode="perm", schedule=None, max_steps=20000, modules=None, poison=True, epoch=0):
        install()
        self.size = size
        self.rng = rng
        self.style = style
        self.coalescing = coalescing
        self.eager = eager
        self.inorder = inorder  # False: collectives of one group may overlap and complete in any order (a transport with several worker threads)
        self.poison = poison
        self.order_mode = order_mode
        self.schedule = list(schedule) if schedule is not None else None
        self.sched_pos = 0
        self.max_steps = max_steps
        self.ranks = [Rank(self, i) for i in range(size)]
        self.main = _Baton()
        self.colls = {}
        self.queues = {}  # (rank, queue key) -> list of Items, head first
        self.p2pq = {}  # (gid, src, dst) -> ([sends], [recvs])
        self.p2pn = {}
        self.groups = {}
        self.trace = []
        self.steps = 0
        self.ops = {}
        self.faults = {}
        self.modules = modules
        self.violation = None
        self.finished = False
        self.hash = hashlib.blake2b(digest_size=8)
        self.prio = None
        self.cur = None
        self.fault_plan = []  # list of (step, fn)
        self.epoch = epoch
        self.notes = []
        self.aborted_groups = set()

    # -- set-up ------------------------------------------------------------------------------------------------
    def make_group(self, gid, ranks):
        """Register a group on all its member ranks; returns {rank: SimGroup}."""
        out = {}
        for r in ranks:
            g = SimGroup(self, r, gid, ranks)
            out[r] = g
            self.groups[(gid, r)] = g
        return out

    def _register(self, wd, g, default=False):
        wd.pg_map[g] = ("simnccl", None)
        wd.pg_names[g] = g.gid
        wd.pg_group_ranks[g] = {gr: i for i, gr in enumerate(g.ranks)}
        wd.pg_backend_config[g] = "cpu:simnccl"
        tag = f"ptd:{g.gid}"
        wd.pg_to_tag[g] = tag
        wd.tags_to_pg.setdefault(tag, []).append(g)
        if default:
            wd.default_pg = g

    # -- baton --------------------------------------------------------------------------------------------------
    def _yield(self, me):
        """Called from a rank thread: hand the baton to the scheduler and wait for it to come back."""
        self.main.release()
        me.sem.acquire()
        if me.kill:
            raise SimKill()

    def _resume(self, r):
        self.cur = r
        if r.ns is not None:
            r.ns.enter()
        torch.set_rng_state(r.rng)
        r.sem.release()
        self.main.acquire()
        r.rng = torch.get_rng_state()
        if r.ns is not None:
            r.ns.leave()
        self.cur = None

    def _me(self):
        me = self.cur
        if me is None or threading.current_thread() is not me.thread:
            raise HarnessError("communication call from a thread the simulator does not own")
        return me

    # -- posting (rank threads) ---------------------------------------------------------------------------------
    def _note(self, rank, what):
        self.notes.append((rank, what))

    def _pre_post(self, g):
        me = self._me()
        if g.is_shutdown:
            raise RuntimeError(f"communicator {g.gid} has been destroyed")
        if me.crash_at is not None and me.posts == me.crash_at:
            me.crash_at = None
            self._count_fault("crash")
            me.state = CRASHED
            self._event(f"crash {me.idx}")
            self._on_crash(me)
            raise SimKill()
        if me.fail_post is not None and me.posts == me.fail_post:
            me.fail_post = None
            self._count_fault("failing-communication-call")
            self._event(f"failpost {me.idx}")
            raise CommAborted(f"transport error on communicator {g.gid}")
        me.posts += 1
        if g.gid in self.aborted_groups or me.abort:
            raise CommAborted(f"communicator {g.gid} was aborted")
        return me

    def _post_coll(self, g, kind, ins, outs, root, op, split):
        check_dense(ins)
        check_dense(outs)
        me = self._pre_post(g)
        self.ops[kind] = self.ops.get(kind, 0) + 1
        k = g._ncoll
        g._ncoll += 1
        c = self.colls.get((g.gid, k))
        if c is None:
            c = self.colls[(g.gid, k)] = Coll(g.gid, k, g.size())
        it = Item(self, me.idx, g.gid, kind, f"{g.gid}:{k}")
        it.coll = c
        c.part[g.grank] = dict(item=it, kind=kind, ins=ins, outs=outs, root=root, op=op)
        # output buffers hold garbage until the operation completes
        if self.poison:
            inset = {id(t) for t in ins} | {t.untyped_storage().data_ptr() for t in ins if t.numel()}
            for t in outs:
                if t.numel() and id(t) not in inset and t.untyped_storage().data_ptr() not in inset:
                    poison_(t)
        self.queues.setdefault((me.idx, g.gid) if self.inorder else (me.idx, g.gid, "c", k), []).append(it)
        self._yield(me)
        return SimWork(it)

    def _post_p2p(self, g, batch, alone=False):
        check_dense([t for _, t, _ in batch])
        me = self._pre_post(g)
        it = Item(self, me.idx, g.gid, "p2p", f"{g.gid}:p{me.posts}")
        keys = []
        for is_send, t, peer in batch:
            if not (0 <= peer < g.size()):
                raise ValueError(f"invalid peer {peer} in group of size {g.size()}")
            self.ops["send" if is_send else "recv"] = self.ops.get("send" if is_send else "recv", 0) + 1
            s, d = (g.grank, peer) if is_send else (peer, g.grank)
            key = (g.gid, s, d)
            q = self.p2pq.setdefault(key, ([], []))[0 if is_send else 1]
            n = self.p2pn.setdefault((key, is_send), 0)
            self.p2pn[(key, is_send)] = n + 1
            p = P2P(it, is_send, t, g.grank, peer, n)
            q.append(p)
            it.p2p.append(p)
            keys.append(key)
            if not is_send and self.poison:
                poison_(t)
        it.parts_left = len(it.p2p)
        if it.parts_left == 0:
            it.done = True
        else:
            qk = (me.idx, g.gid) if not alone else (me.idx, g.gid, "s" if batch[0][0] else "r", batch[0][2])
            self.queues.setdefault(qk, []).append(it)
        self._yield(me)
        return SimWork(it)

    def _wait(self, it):
        me = self._me()
        if not it.done:
            me.item = it
            me.state = WAITING
            self._yield(me)
            me.item = None
            me.state = RUNNABLE
        if it.error is not None:
            raise it.error

    # -- scheduler ----------------------------------------------------------------------------------------------
    def _enabled(self):
        """Enabled events, in a canonical order: list of (label, actor rank, fn)."""
        ev = []
        for r in self.ranks:
            if r.stalled or r.state in (DONE, FAILED, CRASHED):
                continue
            if r.state == RUNNABLE or (r.state == WAITING and (r.item.done or r.abort)):
                ev.append((f"run {r.idx}", r.idx, None))
        for qk in sorted(self.queues, key=str):
            q = self.queues[qk]
            if not q:
                continue
            it = q[0]
            r = qk[0]
            if self.ranks[r].state == CRASHED or it.error is not None:
                continue
            if it.coll is not None:
                c = it.coll
                gr = self.groups[(it.group, r)].grank
                if gr not in c.inp:
                    ev.append((f"rd {it.label} {r}", r, ("rd", it, gr)))
                elif self._ready(c, gr):
                    ev.append((f"wr {it.label} {r}", r, ("wr", it, gr)))
            else:
                for p in it.p2p:
                    if p.finished:
                        continue
                    key = (it.group, p.grank, p.peer) if p.is_send else (it.group, p.peer, p.grank)
                    sends, recvs = self.p2pq[key]
                    if p.is_send:
                        if p.read:
                            continue
                        if not self.eager and not self._p2p_head(recvs, p.k):
                            continue
                        ev.append((f"ps {key[0]}:{key[1]}>{key[2]}:{p.k}", r, ("ps", p, key)))
                    else:
                        if p.k < len(sends) and sends[p.k].read:
                            ev.append((f"pd {key[0]}:{key[1]}>{key[2]}:{p.k}", r, ("pd", p, key)))
        return ev

    def _p2p_head(self, recvs, k):
        if k >= len(recvs):
            return False
        it = recvs[k].item
        for qk, q in self.queues.items():
            if q and q[0] is it:
                return True
        return False

    @staticmethod
    def _ready(c, gr):
        kind = c.part[gr]["kind"]
        root = c.part[gr]["root"]
        if kind in ("broadcast", "scatter"):
            return root in c.inp
        if kind in ("reduce", "gather") and gr != root:
            return True
        return len(c.inp) == c.size

    def _choose(self, ev):
        if self.schedule is not None:
            while self.sched_pos < len(self.schedule):
                want = self.schedule[self.sched_pos]
                self.sched_pos += 1
                for i, e in enumerate(ev):
                    if e[0] == want:
                        return i
                # not enabled here (schedule was shortened or code changed): skip it
                if want.split(" ", 1)[0] in ("crash", "stall", "wake", "abort", "cut"):
                    continue
            return 0
        n = len(ev)
        if n == 1:
            return 0
        rng, style = self.rng, self.style
        if style == "uniform":
            return rng.randrange(n)
        if style == "pct":
            # priorities per actor and per event class, re-drawn at random change points
            if self.prio is None or rng.random() < 0.05:
                self.prio = {}
            best, bi = None, 0
            for i, e in enumerate(ev):
                key = (e[1], e[0].split(" ", 1)[0])
                p = self.prio.get(key)
                if p is None:
                    p = self.prio[key] = rng.random()
                if best is None or p > best:
                    best, bi = p, i
            return bi
        if style == "lazy":  # run ranks as far as possible before the interconnect moves anything
            runs = [i for i, e in enumerate(ev) if e[0].startswith("run")]
            if runs and rng.random() < 0.97:
                return rng.choice(runs)
            return rng.randrange(n)
        if style == "eager":  # the interconnect moves everything as soon as it can
            nr = [i for i, e in enumerate(ev) if not e[0].startswith("run")]
            if nr and rng.random() < 0.97:
                return rng.choice(nr)
            return rng.randrange(n)
        if style == "slow":  # one rank is much slower than the others
            if self.prio is None:
                self.prio = {"slow": rng.randrange(self.size)}
            fast = [i for i, e in enumerate(ev) if e[1] != self.prio["slow"]]
            if fast and rng.random() < 0.95:
                return rng.choice(fast)
            return rng.randrange(n)
        if style == "lifo":
            return n - 1 if rng.random() < 0.9 else rng.randrange(n)
        raise HarnessError(f"unknown style {style}")

    def _event(self, label):
        self.trace.append(label)
        self.hash.update(label.encode() + b"\n")

    def _count_fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1

    # -- interconnect actions (scheduler thread) ------------------------------------------------------------------
    def _do_read(self, it, gr):
        c = it.coll
        p = c.part[gr]
        c.inp[gr] = [raw(t).clone() for t in p["ins"]]
        # input that doubles as output is undefined from here on
        if self.poison and p["kind"] in ("allreduce", "reduce"):
            for t in p["outs"]:
                poison_(t)
        if len(c.inp) == c.size:
            self._check_coll(c)

    def _check_coll(self, c):
        parts = [c.part[i] for i in range(c.size)]
        kinds = [p["kind"] for p in parts]
        where = f"operation {c.k} on group {c.gid}"
        if len(set(kinds)) != 1:
            raise Violation("collective-mismatch", f"{where}: ranks issued different collectives {kinds}")
        if len({p["root"] for p in parts}) != 1 or len({p["op"] for p in parts}) != 1:
            raise Violation("collective-mismatch", f"{where}: ranks disagree on root or reduction: {[(p['root'], p['op']) for p in parts]}")
        kind = kinds[0]
        dts = {t.dtype for p in parts for t in list(p["ins"]) + list(p["outs"])}
        if len(dts) > 1 and kind != "barrier":
            raise Violation("collective-mismatch", f"{where} ({kind}): ranks use different dtypes {sorted(map(str, dts))}")
        sz = [([t.numel() for t in p["ins"]], [t.numel() for t in p["outs"]]) for p in parts]
        n = c.size
        bad = False
        if kind == "allreduce":
            bad = any(s[0] != sz[0][0] for s in sz)
        elif kind == "allgather":
            bad = any(len(s[0]) != 1 or len(s[1]) != n or any(s[1][j] != sz[j][0][0] for j in range(n)) for s in sz)
        elif kind == "alltoall":
            bad = any(len(s[0]) != n or len(s[1]) != n for s in sz) or any(sz[i][1][j] != sz[j][0][i] for i in range(n) for j in range(n))
        elif kind == "reduce_scatter":
            bad = any(len(s[0]) != n or len(s[1]) != 1 for s in sz) or any(sz[i][0][j] != sz[j][1][0] for i in range(n) for j in range(n))
        elif kind == "broadcast":
            r = parts[0]["root"]
            bad = any(sz[i][1] != sz[r][0] for i in range(n) if i != r)
        elif kind == "reduce":
            bad = any(s[0] != sz[0][0] for s in sz)
        elif kind == "gather":
            r = parts[0]["root"]
            bad = any(sz[r][1][j] != sz[j][0][0] for j in range(n))
        elif kind == "scatter":
            r = parts[0]["root"]
            bad = any(sz[j][1][0] != sz[r][0][j] for j in range(n))
        if bad:
            raise Violation("collective-mismatch", f"{where} ({kind}): message sizes do not match (elements in/out per rank): {sz}")

    def _reduction(self, c, ts, op):
        ts = list(ts)
        if self.order_mode == "perm" and len(ts) > 1:
            # the order of a reduction is not specified; it is fixed per collective by a seed-derived permutation,
            # and identical on all ranks (as NCCL guarantees)
            h = zlib.crc32(f"{c.gid}:{c.k}:{self.epoch}".encode())
            rot = h % len(ts)
            ts = ts[rot:] + ts[:rot]
            if (h >> 8) & 1:
                ts = ts[::-1]
        acc = ts[0].clone()
        for t in ts[1:]:
            if op in ("SUM", "AVG"):
                acc = acc + t
            elif op == "PRODUCT":
                acc = acc * t
            elif op == "MAX":
                acc = torch.maximum(acc, t)
            elif op == "MIN":
                acc = torch.minimum(acc, t)
            else:
                raise HarnessError(f"reduction {op} is not simulated")
        if op == "AVG":
            acc = acc / len(ts)
        return acc

    def _do_write(self, it, gr):
        c = it.coll
        p = c.part[gr]
        kind = p["kind"]
        n = c.size
        outs = p["outs"]
        if kind == "allreduce" or (kind == "reduce" and gr == p["root"]):
            for j, t in enumerate(outs):
                put(t, self._reduction(c, [c.inp[i][j] for i in range(n)], p["op"]))
        elif kind in ("allgather", "gather"):
            if outs:
                for i in range(n):
                    put(outs[i], c.inp[i][0])
        elif kind == "alltoall":
            for i in range(n):
                put(outs[i], c.inp[i][gr])
        elif kind == "reduce_scatter":
            put(outs[0], self._reduction(c, [c.inp[i][gr] for i in range(n)], p["op"]))
        elif kind == "broadcast":
            for j, t in enumerate(outs):
                if t.numel() != c.inp[p["root"]][j].numel():
                    raise Violation("collective-mismatch", f"broadcast size mismatch on {c.gid}:{c.k}")
                put(t, c.inp[p["root"]][j])
        elif kind == "scatter":
            src = c.inp[p["root"]][gr]
            if outs[0].numel() != src.numel():
                raise Violation("collective-mismatch", f"scatter size mismatch on {c.gid}:{c.k}")
            put(outs[0], src)
        it.done = True
        self._pop(it)

    def _pop(self, it):
        for qk, q in self.queues.items():
            if q and q[0] is it:
                q.pop(0)
                if not self.inorder and it.coll is not None:
                    del self.queues[qk]
                    if any(k[:3] == qk[:3] and k[3] < qk[3] for k in self.queues if len(k) == 4):
                        self._count_fault("collectives-out-of-order")
                return
        raise HarnessError("completed item is not at the head of its queue")

    def _p2p_part_done(self, p):
        p.finished = True
        p.item.parts_left -= 1
        if p.item.parts_left == 0:
            p.item.done = True
            self._pop(p.item)

    def _do_psend(self, p, key):
        p.buf = raw(p.tensor).clone()
        p.read = True
        if self.eager:
            self._p2p_part_done(p)

    def _do_pdeliver(self, p, key):
        s = self.p2pq[key][0][p.k]
        if s.buf.numel() != p.tensor.numel() or s.buf.dtype != p.tensor.dtype:
            raise Violation("p2p-mismatch", f"message {key[1]}->{key[2]} on group {key[0]}: sent {s.buf.numel()} x {s.buf.dtype}, receive buffer has {p.tensor.numel()} x {p.tensor.dtype}")
        put(p.tensor, s.buf)
        s.buf = None
        self._p2p_part_done(p)
        if not self.eager:
            self._p2p_part_done(s)

    # -- faults -------------------------------------------------------------------------------------------------
    def _on_crash(self, r):
        """Rank r died: every communicator it belongs to will be aborted on the survivors."""
        for (gid, rr), g in self.groups.items():
            if rr == r.idx:
                self.aborted_groups.add(gid)

    def _abort_blocked(self):
        """Survivors blocked on an aborted communicator get an error."""
        for r in self.ranks:
            if r.state == WAITING and not r.item.done and r.item.group in self.aborted_groups:
                r.item.error = CommAborted(f"communicator {r.item.group} was aborted")
                r.item.done = True
                for q in self.queues.values():
                    if r.item in q:
                        q.remove(r.item)
                self._count_fault("abort-blocked")
                return True
        return False

    # -- main loop ------------------------------------------------------------------------------------------------
    def run(self, prog):
        """Run prog(rank_ctx) on every rank to completion. Returns the list of Rank objects."""
        base_rng = torch.get_rng_state()
        for r in self.ranks:
            r.rng = base_rng.clone()
            r.thread = threading.Thread(target=self._thread_main, args=(r, prog), daemon=True, name=f"rank{r.idx}")
            r.thread.start()
        try:
            self._loop()
        except Violation as v:
            self.violation = v
        finally:
            self._teardown()
            torch.set_rng_state(base_rng)
        self.finished = True
        if self.violation is not None:
            raise self.violation
        return self.ranks

    def _loop(self):
        while True:
            if all(r.state in (DONE, FAILED, CRASHED) for r in self.ranks):
                return
            ev = self._enabled()
            if not ev:
                if self.aborted_groups and self._abort_blocked():
                    self._event("abort")
                    continue
                self._deadlock()
            i = self._choose(ev)
            label, actor, act = ev[i]
            self._event(label)
            self.steps += 1
            if self.steps > self.max_steps:
                raise Violation("no-progress", f"not finished after {self.max_steps} scheduler steps")
            if act is None:
                self._resume(self.ranks[actor])
            elif act[0] == "rd":
                self._do_read(act[1], act[2])
            elif act[0] == "wr":
                self._do_write(act[1], act[2])
            elif act[0] == "ps":
                self._do_psend(act[1], act[2])
            elif act[0] == "pd":
                self._do_pdeliver(act[1], act[2])

    def _deadlock(self):
        what = []
        for r in self.ranks:
            if r.state == WAITING:
                what.append(f"rank {r.idx} waits for {r.item.kind} {r.item.label}")
            else:
                what.append(f"rank {r.idx} {r.state}" + (f" ({type(r.exc).__name__}: {r.exc})" if r.exc is not None else ""))
        raise Violation("deadlock", "; ".join(what))

    def _thread_main(self, r, prog):
        r.sem.acquire()
        try:
            if r.kill:
                return
            with torch.autograd.set_multithreading_enabled(False):
                ThreadLocalWorld._world.world = r.wd if r.wd is not None else WorldData()
                prog(r)
            r.state = DONE
        except SimKill:
            if r.state != CRASHED:
                r.state = FAILED
        except BaseException as e:  # noqa: BLE001 - everything the code under test raises is an observation
            r.exc = e
            import traceback

            r.tb = traceback.format_exc(limit=-6)
            r.state = FAILED
        finally:
            self.main.release()

    def _teardown(self):
        for r in self.ranks:
            if r.thread is not None and r.thread.is_alive():
                if r.state in (RUNNABLE, WAITING):
                    r.kill = True
                    self.cur = r
                    if r.ns is not None:
                        r.ns.enter()
                    n = 0
                    while r.thread.is_alive() and n < 1000:
                        r.sem.release()
                        self.main.acquire()
                        n += 1
                        if r.state in (DONE, FAILED, CRASHED):
                            break
                    if r.ns is not None:
                        r.ns.leave()
                    self.cur = None
                r.thread.join(timeout=30)
                if r.thread.is_alive():
                    raise HarnessError(f"rank thread {r.idx} did not unwind")
        self.colls.clear()
        self.queues.clear()
        self.p2pq.clear()

    def digest(self):
        return self.hash.hexdigest()


def outcomes(ranks):
    """Human-readable outcome of each rank."""
    return [f"rank {r.idx}: {r.state}" + (f" {type(r.exc).__name__}: {r.exc}" if r.exc is not None else "") for r in ranks]
