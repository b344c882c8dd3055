"""In-process discrete-event simulator for cocotb.

The code under test is written against cocotb, which normally runs inside an
HDL simulator.  Here `cocotb.simulator` (the C extension that talks to the HDL
simulator) is replaced with a pure-Python event wheel, so the *real* cocotb
scheduler, triggers, queues and handles run the *real* code from /repo inside
one ordinary Python process: thousands of short simulations per minute, each
fully determined by its inputs.

Phases of one time step follow the VPI model cocotb expects: timed callbacks,
then read/write-synch callbacks (cocotb applies its cached writes there),
value-change callbacks in a fresh delta, repeat until nothing is left, then
read-only callbacks, then the next time step.
"""

import heapq
import os
import sys
import types
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VENV_SITE = "/opt/venv/lib/python3.12/site-packages"

PRECISION = -12  # 1 ps, what the repository's own test makefiles use


class SimLimit(Exception):
    """The event budget of one simulation was exhausted."""


class _Cb:
    __slots__ = ("func", "arg", "dead", "kind", "key", "edge")

    def __init__(self, func, arg, kind, key=None, edge=None):
        self.func = func
        self.arg = arg
        self.dead = False
        self.kind = kind
        self.key = key
        self.edge = edge

    def deregister(self):
        self.dead = True

    def get_coverage(self):
        return None


class Wheel:
    def __init__(self):
        self.reset()

    def reset(self):
        self.now = 0
        self.heap = []
        self.count = 0
        self.rw = []
        self.ro = []
        self.nxt = []
        self.vc = {}       # signal id -> list of _Cb
        self.changed = []  # pending (sig, old, new)
        self.events = 0
        self.limit = 10_000_000

    # -- registration
    def timed(self, steps, func, arg):
        cb = _Cb(func, arg, "t")
        self.count += 1
        heapq.heappush(self.heap, (self.now + int(steps), self.count, cb))
        return cb

    def readwrite(self, func, arg):
        cb = _Cb(func, arg, "rw")
        self.rw.append(cb)
        return cb

    def readonly(self, func, arg):
        cb = _Cb(func, arg, "ro")
        self.ro.append(cb)
        return cb

    def nextstep(self, func, arg):
        cb = _Cb(func, arg, "n")
        self.nxt.append(cb)
        return cb

    def value_change(self, sig, func, edge, arg):
        cb = _Cb(func, arg, "v", sig, edge)
        self.vc.setdefault(id(sig), []).append(cb)
        return cb

    def _fire(self, cb):
        if cb.dead:
            return
        cb.dead = True
        self.events += 1
        if self.events > self.limit:
            raise SimLimit("event budget exhausted at t=%d ps" % self.now)
        cb.func(cb.arg)

    def _settle(self):
        while True:
            if self.changed:
                ch, self.changed = self.changed, []
                for sig, old, new in ch:
                    lst = self.vc.get(id(sig))
                    if not lst:
                        continue
                    keep, fire = [], []
                    for cb in lst:
                        if cb.dead:
                            continue
                        e = cb.edge
                        if (e == 3 or (e == 1 and new == "1" and old != "1")
                                or (e == 2 and new == "0" and old != "0")):
                            fire.append(cb)
                        else:
                            keep.append(cb)
                    self.vc[id(sig)] = keep
                    for cb in fire:
                        self._fire(cb)
                continue
            if self.rw:
                lst, self.rw = self.rw, []
                for cb in lst:
                    self._fire(cb)
                continue
            return

    def step(self):
        """Run one time step; False when nothing is left."""
        h = self.heap
        while h and h[0][2].dead:
            heapq.heappop(h)
        if not h:
            return False
        t = h[0][0]
        self.now = t
        if self.nxt:
            lst, self.nxt = self.nxt, []
            for cb in lst:
                self._fire(cb)
        while h and h[0][0] == t:
            cb = heapq.heappop(h)[2]
            self._fire(cb)
        self._settle()
        while self.ro:
            lst, self.ro = self.ro, []
            for cb in lst:
                self._fire(cb)
        return True


wheel = Wheel()


class FakeGpi:
    """GPI object for a REG of `width` bits."""

    def __init__(self, name, width, init=0, x=False):
        self.name = name
        self.width = width
        self.bits = "x" * width if x else format(init, "0%db" % width)

    def get_name_string(self):
        return self.name

    def get_type_string(self):
        return "GPI_REGISTER"

    def get_definition_name(self):
        return ""

    def get_definition_file(self):
        return ""

    def get_num_elems(self):
        return self.width

    def get_range(self):
        return (self.width - 1, 0)

    def get_type(self):
        return 6

    def get_const(self):
        return False

    def get_signal_val_binstr(self):
        return self.bits

    def get_signal_val_long(self):
        return int(self.bits, 2)

    def _set(self, bits):
        old = self.bits
        if old != bits:
            self.bits = bits
            wheel.changed.append((self, old[-1], bits[-1]))

    def set_signal_val_int(self, action, value):
        self._set(format(value & ((1 << self.width) - 1), "0%db" % self.width))

    def set_signal_val_binstr(self, action, value):
        self._set(value)


def _install():
    mod = types.ModuleType("cocotb.simulator")
    names = ["UNKNOWN", "MODULE", "STRUCTURE", "REG", "NET", "NETARRAY", "REAL",
             "INTEGER", "ENUM", "STRING", "GENARRAY", "OBJECTS", "DRIVERS", "LOADS",
             "MEMORY", "PARAMETER"]
    for i, n in enumerate(names):
        setattr(mod, n, i + 100)
    mod.get_precision = lambda: PRECISION
    mod.get_sim_time = lambda: (wheel.now >> 32, wheel.now & 0xffffffff)
    mod.register_timed_callback = wheel.timed
    mod.register_readonly_callback = wheel.readonly
    mod.register_rwsynch_callback = wheel.readwrite
    mod.register_nextstep_callback = wheel.nextstep
    mod.register_value_change_callback = wheel.value_change
    mod.log_level = lambda lvl: None
    mod.stop_simulator = lambda: None
    mod.is_running = lambda: True
    mod.get_simulator_product = lambda: "fakesim"
    mod.get_simulator_version = lambda: "1"
    sys.modules["cocotb.simulator"] = mod

    if VENV_SITE not in sys.path:
        sys.path.append(VENV_SITE)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    import cocotb
    cocotb.simulator = mod
    import cocotbext
    want = os.path.join(REPO, "cocotbext")
    paths = list(cocotbext.__path__)
    # namespace package: axi comes from the venv, pcie from the tree under test
    if not paths or paths[0] != want:
        cocotbext.__path__ = [want] + [p for p in paths if p != want]
    extra = os.path.join(VENV_SITE, "cocotbext")
    if extra not in cocotbext.__path__:
        cocotbext.__path__.append(extra)
    import logging
    logging.getLogger("cocotb").setLevel(logging.CRITICAL + 1)
    logging.getLogger().setLevel(logging.CRITICAL + 1)
    logging.disable(logging.CRITICAL)
    import cocotbext.pcie.core
    assert os.path.realpath(cocotbext.pcie.core.__file__).startswith(os.path.realpath(REPO) + "/"), \
        "not testing the tree at %s" % REPO


_install()

import cocotb  # noqa: E402
import cocotb.handle  # noqa: E402
import cocotb.log  # noqa: E402
from cocotb.binary import BinaryValue  # noqa: E402
from cocotb.scheduler import Scheduler  # noqa: E402
from cocotb.task import Task  # noqa: E402
import cocotb.triggers as _trg  # noqa: E402

cocotb.log = __import__("logging").getLogger("cocotb")
cocotb.SIM_NAME = "fakesim"
cocotb.LANGUAGE = "verilog"


class Signal(cocotb.handle.ModifiableObject):
    """A cocotb handle on a FakeGpi register."""


def signal(name, width, init=0):
    return Signal(FakeGpi(name, width, init), "top." + name)


class Dut:
    """Stand-in for the HDL top level: a named bag of signals."""

    def __init__(self, **widths):
        import logging
        self._name = "top"
        self._path = "top"
        self._log = logging.getLogger("cocotb.top")
        self._log.propagate = False
        for k, w in widths.items():
            self._add(k, w)

    def _add(self, name, width, init=0):
        s = signal(name, width, init)
        setattr(self, name, s)
        return s


class Deadlock(Exception):
    """No event left and the main coroutine has not finished."""


class TimeLimit(Exception):
    """Simulated time limit reached before the main coroutine finished."""


def _reset():
    wheel.reset()
    for trg in (Scheduler._next_time_step, Scheduler._read_write, Scheduler._read_only,
                Scheduler._timer1):
        trg.cbhdl = None
        trg.primed = False


def run(main, max_time_ns=50_000_000, max_events=3_000_000):
    """Run async function `main()` as the test; return its value.

    Exceptions of the test or of any forked coroutine of the code under test
    propagate unchanged.  Raises Deadlock / TimeLimit / SimLimit when the
    simulation cannot or does not finish.
    """
    _reset()
    wheel.limit = max_events
    done = []
    sched = Scheduler(handle_result=lambda t: done.append(t))
    cocotb.scheduler = sched
    task = Task(main())
    try:
        sched._add_test(task)
        limit = max_time_ns * 1000
        # initial activity (delta 0 of time 0)
        wheel._settle()
        while not done:
            if not wheel.step():
                if not done:
                    raise Deadlock("no event left at t=%d ps" % wheel.now)
            if wheel.now > limit and not done:
                raise TimeLimit("simulated time limit reached, t=%d ps" % wheel.now)
        return done[0]._outcome.get()
    finally:
        if not done:
            # throw away everything still scheduled
            try:
                if task._outcome is None:
                    task._outcome = cocotb.outcomes.Value(None)
                    sched._cleanup()
            except BaseException:
                pass
        wheel.reset()


def now_ns():
    return wheel.now / 1000.0
