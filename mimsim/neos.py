"""The simulated remote solve service behind pyomo's NEOS client.

The client code (pyomo.neos) is real; its XML-RPC proxy is replaced.  Every
remote call is one message exchange whose fate (delivered, lost, refused,
answered twice, delayed, answered by an error) comes from the run's plan.
"""
import base64
import gzip
import http.client
import os
import re
import socket
import tempfile
import xmlrpc.client

from . import ipoptsim


class Service:
    def __init__(self, clock):
        self.clock = clock
        self.jobs = {}
        self.calls = []
        self.script = []
        self.response = None
        self.queue = 0
        self.killed = []
        self.submitted = []
        self.t0 = 0.0

    def plan(self, net, response):
        """net: {"faults": {call number: kind}, "queue": polls before done, "final": kind}"""
        self.net = net
        self.response = response
        self.calls = []
        self.submitted = []
        self.t0 = self.clock.now

    def report(self):
        return {
            "calls": [c[:2] for c in self.calls[:60]],
            "ncalls": len(self.calls),
            "fired": [c[1] for c in self.calls if c[1]],
            "submitted": [{k: v for k, v in s.items() if k not in ("text", "col", "row")} for s in self.submitted],
            "elapsed": self.clock.now - self.t0,
            "finished": any(s.get("fetched") for s in self.submitted),
            "delivered": [s.get("delivered") for s in self.submitted],
        }

    # one remote call

    def call(self, name, args):
        i = len(self.calls) + 1
        fault = self.net.get("faults", {}).get(str(i))
        down = self.net.get("outage")  # from this call on, for good
        if down and i >= down[0]:
            fault = down[1]
        self.calls.append((name, fault))
        self.clock.now += self.net.get("delay", 0.2)
        if len(self.calls) > 5000:
            raise RuntimeError("simulated service: the client never stops polling")
        if fault == "lost_request":
            self.clock.now += 60
            raise socket.timeout("timed out")
        if fault == "refused":
            raise ConnectionRefusedError(111, "Connection refused")
        if fault == "http503":
            raise xmlrpc.client.ProtocolError("neos-server.org", 503, "Service Unavailable", {})
        if fault == "badstatus":
            raise http.client.BadStatusLine("")
        if fault == "fault":
            raise xmlrpc.client.Fault(1, "simulated server fault")
        out = getattr(self, "do_" + name)(*args)
        if fault == "lost_reply":
            self.clock.now += 60
            raise socket.timeout("timed out")
        if fault == "duplicate":
            out = getattr(self, "do_" + name)(*args)
        if fault == "reset":
            raise ConnectionResetError(104, "Connection reset by peer")
        return out

    def do_ping(self):
        return "NeosServer is alive\n"

    def do_listSolversInCategory(self, cat):
        if self.net.get("no_ipopt"):
            return ["CONOPT:AMPL", "KNITRO:AMPL"]
        return ["CONOPT:AMPL", "Ipopt:AMPL", "KNITRO:AMPL"]

    def do_submitJob(self, xml, user, interface):
        if self.net.get("reject"):
            return (0, "Error: too many jobs")
        n = 1000 + len(self.jobs)
        m = re.search(r"<nlfile><base64>(.*?)</base64>", xml, re.S)
        text = gzip.decompress(base64.b64decode(m.group(1))).decode()
        email = re.search(r"<email>(.*?)</email>", xml).group(1)
        solver = re.search(r"<solver>(.*?)</solver>", xml).group(1)
        col = re.search(r"<col><!\[CDATA\[(.*?)\]\]></col>", xml, re.S)
        row = re.search(r"<row><!\[CDATA\[(.*?)\]\]></row>", xml, re.S)
        job = {"n": n, "text": text, "nl": ipoptsim.digest(text), "core": ipoptsim.core(text), "email": email, "solver": solver, "polls": 0}
        job["col"] = col.group(1) if col else None
        job["row"] = row.group(1) if row else None
        self.jobs[n] = job
        self.submitted.append(job)
        return (n, "secret")

    def do_getJobStatus(self, n, pw):
        job = self.jobs[n]
        job["polls"] += 1
        self.clock.now += 1
        if self.net.get("unknown_job") and job["polls"] >= self.net["unknown_job"]:
            return "Unknown Job"
        if job["polls"] <= self.net.get("queue", 0):
            return "Waiting" if job["polls"] == 1 else "Running"
        return "Done"

    def do_getIntermediateResults(self, n, pw, off):
        return (xmlrpc.client.Binary(b"iter ...\n"), off + 9)

    def do_killJob(self, n, pw):
        self.killed.append(n)
        return "killed"

    def do_getFinalResults(self, n, pw):
        job = self.jobs[n]
        job["fetched"] = True
        final = self.net.get("final", "honest")
        rec = {}
        if final == "text":
            job["delivered"] = "text"
            return xmlrpc.client.Binary(b"Error: your job was aborted by the NEOS administrator\n")
        if final == "empty":
            job["delivered"] = "empty"
            return xmlrpc.client.Binary(b"")
        names = [x for x in job["col"].split("\n") if x] if job["col"] else self.names()
        connames = [x for x in job["row"].split("\n") if x] if job["row"] else None
        sol, rc, log = ipoptsim.solve_problem(job["text"], names, connames, self.response, rec)
        job["solver_record"] = {k: rec.get(k) for k in ("kind", "tried", "x")}
        if sol is None:
            job["delivered"] = "nosol"
            return xmlrpc.client.Binary(b"Ipopt crashed\n")
        job["delivered"] = "solution" if re.search(r"^objno 0 \d{1,2}$", sol.rstrip(), re.M) else "failure"
        if final == "fewer":
            job["delivered"] = "wrong length"
            lines = sol.rstrip().split("\n")
            k = next(i for i, l in enumerate(lines) if l == "Options") + 7
            n = int(lines[k]) - 3
            lines[k] = lines[k + 1] = str(n)
            sol = "\n".join(lines[:-4] + lines[-1:]) + "\n"
        if final == "cut":
            job["delivered"] = "cut"
            lines = sol.split("\n")
            sol = "\n".join(lines[: len(lines) // 2]) + "\n"
        return xmlrpc.client.Binary(sol.encode())

    def names(self):
        """variable names of the submitted problem (the client sends none): same writer, same order"""
        m = ipoptsim.SCRIPT.model
        if m is None:
            return None
        stub = os.path.join(tempfile.gettempdir(), "neosnames")
        m.concrete_model.write(stub + ".nl", format="nl", io_options={"symbolic_solver_labels": True})
        with open(stub + ".col") as fh:
            return [x for x in fh.read().split("\n") if x]


SERVICE = None


class Method:
    def __init__(self, name):
        self.name = name

    def __call__(self, *a):
        return SERVICE.call(self.name, a)


class FakeProxy:
    def __init__(self, uri, transport=None, **kw):
        self.uri = uri

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Method(name)


def install(clock):
    global SERVICE
    SERVICE = Service(clock)
    SERVICE.net = {}
    xmlrpc.client.ServerProxy = FakeProxy
    return SERVICE
