"""Interruption points and thread interleavings.

Both use Python's line events of the library's own files: an interruption is
raised when a chosen line is about to run; the thread scheduler lets exactly
one thread run at a time and decides, from the run's seed, at every line event
of the chosen files whether another thread gets the processor.
"""
import os
import random
import sys
import threading


class Interrupter:
    """raises `exc` when the k-th distinct line of the library is reached (n-th occurrence)"""

    def __init__(self, root, distinct=None, occurrence=1, exc=KeyboardInterrupt):
        self.root = root
        self.k, self.occ, self.exc = distinct, occurrence, exc
        self.lines = {}
        self.target = None
        self.target_seen = 0
        self.fired = None
        self.total = 0

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.root):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event != "line" or self.fired:
            return self._local
        key = (frame.f_code.co_filename, frame.f_lineno)
        self.total += 1
        if key not in self.lines:
            self.lines[key] = len(self.lines) + 1
            if self.lines[key] == self.k:
                self.target = key
        if key == self.target:
            self.target_seen += 1
            if self.target_seen == self.occ:
                self.fired = (os.path.relpath(key[0], self.root), key[1], frame.f_code.co_name)
                raise self.exc("simulated interruption")
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


class Baton:
    """one runnable thread at a time; a seeded choice at every scheduling point"""

    def __init__(self, seed, p_switch, files, script=None, stops=()):
        self.rng = random.Random(seed)
        self.p = p_switch
        self.files = tuple(files)
        self.cv = threading.Condition()
        self.current = None
        self.alive = []
        self.points = 0
        self.switches = []  # (point number, from, to): the schedule that happened
        self.script = script  # replay/minimise: {point: target}
        # stops: (thread, k-th distinct line it reaches, n-th time): there it has to wait for the others
        self.stops = {}
        for s in stops:
            self.stops.setdefault(s[0], []).append(tuple(s[1:]))
        self.lines = {}
        self.times = {}

    def _interesting(self, fn):
        return any(fn.endswith(x) or x in fn for x in self.files)

    def _global(self, frame, event, arg):
        if self._interesting(frame.f_code.co_filename):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            self.point(frame)
        return self._local

    def point(self, frame):
        me = threading.current_thread().name
        self.points += 1
        to = None
        if self.script is not None:
            to = self.script.get(self.points)
            if to not in self.alive:
                to = None
        elif len(self.alive) > 1 and self._stop(me, frame):
            to = self.rng.choice([a for a in self.alive if a != me])
        elif len(self.alive) > 1 and self.rng.random() < self.p:
            to = self.rng.choice([a for a in self.alive if a != me])
        if to is None or to == me:
            return
        self.switches.append((self.points, me, to, os.path.basename(frame.f_code.co_filename), frame.f_lineno))
        with self.cv:
            self.current = to
            self.cv.notify_all()
            while self.current != me:
                self.cv.wait()

    def _stop(self, me, frame):
        want = self.stops.get(me)
        if not want:
            return False
        k = (frame.f_code.co_filename, frame.f_lineno)
        seen = self.lines.setdefault(me, {})
        if k not in seen:
            seen[k] = len(seen) + 1
        t = self.times[me, k] = self.times.get((me, k), 0) + 1
        return (seen[k], t) in want

    def run(self, jobs):
        """jobs: {name: function}; returns {name: ("ok", value) | ("err", exception)}"""
        out = {}

        def body(name, fn):
            with self.cv:
                while self.current != name:
                    self.cv.wait()
            sys.settrace(self._global)
            try:
                out[name] = ("ok", fn())
            except BaseException as exc:  # noqa: the outcome is judged, not hidden
                out[name] = ("err", exc)
            finally:
                sys.settrace(None)
                with self.cv:
                    self.alive.remove(name)
                    if self.alive:
                        nxt = self.alive[0] if self.script is not None else self.rng.choice(self.alive)
                        self.switches.append((self.points, name, nxt, "end", 0))
                        self.current = nxt
                    else:
                        self.current = None
                    self.cv.notify_all()

        self.alive = list(jobs)
        ths = [threading.Thread(target=body, args=(n, f), name=n, daemon=True) for n, f in jobs.items()]
        for t in ths:
            t.start()
        with self.cv:
            self.current = next(iter(jobs)) if self.script is not None else self.rng.choice(self.alive)
            self.cv.notify_all()
        for t in ths:
            t.join()
        return out
