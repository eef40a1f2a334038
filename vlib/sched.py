"""A deterministic scheduler for real threads: one thread runs at a time; at every line (or byte code instruction) of
the watched code the running thread may have to hand over. The seeded choices make a schedule replayable, the trace
of hand-overs identifies it."""
import os
import sys
import threading
import time
from . import runner

TOOL = 3


class Sched(object):
    """mode: 'line' | 'instr' | 'free' (no control: real preemption with a tiny switch interval).
    switch: probability of a hand-over at each point, or a list of the points at which to hand over."""

    def __init__(self, rnd, mode, switch, also=()):
        self.r, self.mode, self.switch = rnd, mode, switch
        self.points = set(switch) if isinstance(switch, (list, set)) else None
        self.pre = (os.path.join(runner.REPO, 'asn1PERser') + os.sep,) + tuple(also)
        self.steps = 0
        self.handovers = 0
        self.trace = []
        self.ids = {}
        self.open = False
        self.stuck = False

    def point(self, code, where):
        if not code.co_filename.startswith(self.pre):
            return sys.monitoring.DISABLE
        i = self.ids.get(threading.get_ident())
        if i is None or self.open:
            return
        self.steps += 1
        if (self.steps in self.points) if self.points is not None else (self.r.random() < self.switch):
            others = [j for j in self.alive if j != i]
            if others:
                j = self.r.choice(others)
                self.handovers += 1
                if len(self.trace) < 4000:
                    self.trace.append((i, j, code.co_name, where))
                self.sems[j].release()
                self.sems[i].acquire()

    def run(self, fns):
        n = len(fns)
        self.sems = [threading.Semaphore(0) for _ in fns]
        self.alive = list(range(n))
        out = [None] * n

        def body(i):
            if self.mode != 'free':
                self.sems[i].acquire()
                self.ids[threading.get_ident()] = i
            else:
                start.wait()
            try:
                out[i] = fns[i]()
            except BaseException as e:
                out[i] = e
            finally:
                self.ids.pop(threading.get_ident(), None)
                self.alive.remove(i)
                if self.alive and self.mode != 'free':
                    self.sems[self.r.choice(self.alive)].release()
        start = threading.Barrier(n)
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        interval = sys.getswitchinterval()
        m = sys.monitoring
        if self.mode == 'free':
            sys.setswitchinterval(1e-6)
        else:
            m.use_tool_id(TOOL, 'verif-sched')
            ev = m.events.LINE if self.mode == 'line' else m.events.INSTRUCTION
            m.register_callback(TOOL, ev, self.point)
            m.set_events(TOOL, ev)
            m.restart_events()
        try:
            for t in ts:
                t.start()
            if self.mode != 'free':
                self.sems[self.r.randrange(n)].release()
            last, since = -1, time.time()
            while any(t.is_alive() for t in ts):
                for t in ts:
                    if t.is_alive():
                        t.join(0.2)
                        break
                if self.steps != last:
                    last, since = self.steps, time.time()
                elif time.time() - since > 3 and not self.open and self.mode != 'free':
                    # the thread that may run waits for a lock another one holds: let them all go
                    self.open = self.stuck = True
                    for s in self.sems:
                        s.release()
        finally:
            if self.mode == 'free':
                sys.setswitchinterval(interval)
            else:
                m.set_events(TOOL, 0)
                m.register_callback(TOOL, ev, None)
                m.free_tool_id(TOOL)
        return out
