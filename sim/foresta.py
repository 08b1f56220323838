"""
A simulated Foresta server and the `dspotconnect` client library in front of it (which is not shipped with ticdat).

The server is a passive state machine driven by the virtual clock: scenarios are queued, solved one after another for a
simulated time, renamed, shadowed and deleted by other users.  Every request is two steps (send, reply), each of which may
fail: a failed send never reached the server, after a failed reply the server has done what was asked for.
"""
import random
import sys
import types

from .world import W, SimCrash


class RemoteError(Exception):
    """the server refused"""


class Scenario:
    def __init__(self, id, name, number):
        self.id, self.name, self.number = id, name, number
        self.rows = None
        self.start = self.finish = None
        self.failed = False
        self.deleted = False


class Server:
    """rows_of(dat) -> comparable rows; solution(number, part) -> solution rows of a scenario (part: still being computed)"""

    def __init__(self, seed, spec, rows_of, solution):
        self.rng = random.Random("foresta:%s" % seed)
        self.spec, self.rows_of, self.solution = spec, rows_of, solution
        self.scenarios = {}
        self.log = []
        self.free_at = 0.0
        self.t0 = W.now
        self.events = sorted([list(e) for e in spec["events"]], key=lambda e: e[0])
        for name, state in spec["existing"]:
            s = self.create(name)
            if state == "solved":
                s.start = s.finish = W.now - 1
            elif state == "failed":
                s.start = s.finish = W.now - 1
                s.failed = True

    def create(self, name):
        n = len(self.scenarios) + 1
        names = {s.name for s in self.scenarios.values() if not s.deleted}
        name = name or "Scenario %d" % n
        while name in names:
            name += " (2)"
        s = Scenario("id-%d-%d" % (self.rng.randrange(10 ** 6), n), name, n)
        self.scenarios[s.id] = s
        return s

    def tick(self):
        """what others did since the last request"""
        while self.events and self.t0 + self.events[0][0] <= W.now:
            at, what = self.events.pop(0)
            live = [s for s in self.scenarios.values() if not s.deleted]
            last = live[-1] if live else None
            if what == "create":
                s = self.create("somebody else's")
                s.start = s.finish = W.now
            elif last is None:
                continue
            elif what == "rename":
                was, last.name = last.name, last.name + " renamed"
                s = self.create(was)
                s.start = s.finish = W.now
            elif what == "delete":
                last.deleted = True
            W.count("server: " + what)
            W.record("server", what, last and last.id)

    def get(self, id):
        s = self.scenarios.get(id)
        if s is None or s.deleted:
            raise RemoteError("no scenario %r" % (id,))
        return s

    def request(self, client, op, id, fn):
        entry = {"client": client, "op": op, "id": id, "sent": W.now, "at": None, "ok": False, "value": None}
        self.log.append(entry)
        self.hop("net.send " + op)
        self.tick()
        entry["at"] = W.now
        try:
            v = fn()
        except RemoteError as e:
            entry["refused"] = True
            self.hop("net.reply " + op)
            raise e
        entry["effect"] = v
        self.hop("net.reply " + op)
        entry["ok"] = True
        entry["value"] = v
        entry["replied"] = W.now
        W.count("request: " + op)
        return v

    def hop(self, step):
        act = W.io_step(step)
        if act in ("crash", "dead"):
            raise SimCrash()
        if act == "stall":
            W.sleep(60 + 300 * self.rng.random())
        elif act == "timeout":
            W.sleep(30)
            raise TimeoutError("the request timed out")
        elif act:
            raise ConnectionError("connection reset by peer")
        W.sleep(self.spec["latency"] * (.2 + self.rng.random()))

    # ---- what the server does ----------------------------------------------------------------------------------
    def connect(self, server, token, app_id):
        if (server, token, app_id) != ("https://foresta", "secret", "app 7"):
            raise RemoteError("%s does not know %s, %s" % (server, token, app_id))
        return "the app"

    def upload(self, rows, name):
        s = self.create(name)
        s.rows = rows
        return s.id

    def launch(self, id):
        s = self.get(id)
        if s.rows is None:
            raise RemoteError("nothing to solve")
        s.start = max(W.now, self.free_at)
        secs = self.spec["seconds"]
        s.finish = s.start + secs[s.number % len(secs)]
        self.free_at = s.finish
        s.failed = s.number % 7 in self.spec["failing"]

    def solving(self, id):
        s = self.get(id)
        return s.start is not None and W.now < s.finish

    def download(self, id):
        s = self.get(id)
        if s.start is None or s.failed and W.now >= s.finish:
            return None
        return self.solution(s.number, W.now < s.finish)


SERVER = None        # the server of the current run
FACTORIES = {}       # client -> (build the solution object)
CLIENT = [None]


def me():
    return W.sched.current_name() if W.sched is not None else CLIENT[0]


class AppConnect:
    def __init__(self, server, token, app_id):
        self._server = SERVER
        self._name = SERVER.request(me(), "connect", None, lambda: SERVER.connect(server, token, app_id))

    @property
    def app_name(self):
        return self._name

    def current_scenarios(self):
        def f():
            return {s.id: s.name for s in self._server.scenarios.values() if not s.deleted}
        return self._server.request(me(), "list", None, f)

    def launch_solve(self, scenario_id):
        self._server.request(me(), "launch", scenario_id, lambda: self._server.launch(scenario_id))

    def is_solving_underway(self, scenario_id):
        return self._server.request(me(), "poll", scenario_id, lambda: self._server.solving(scenario_id))


class TicDatConnector:
    def __init__(self, con, engine):
        if not isinstance(con, AppConnect):
            raise TypeError("not a connection")
        self._con, self._engine = con, engine
        engine.input_schema, engine.solution_schema, engine.solve

    def upload_input_dat(self, dat, scenario_name=None):
        sv = self._con._server
        rows = sv.rows_of(dat)
        return sv.request(me(), "upload", (scenario_name, rows), lambda: sv.upload(rows, scenario_name))

    def download_solution(self, scenario_id):
        sv = self._con._server
        rows = sv.request(me(), "download", scenario_id, lambda: sv.download(scenario_id))
        return None if rows is None else FACTORIES["build"](self._engine.solution_schema, rows)


def install():
    m = types.ModuleType("dspotconnect")
    m.AppConnect, m.TicDatConnector = AppConnect, TicDatConnector
    sys.modules["dspotconnect"] = m
    for name, mod in list(sys.modules.items()):
        if name.split(".")[0] == "ticdat" and getattr(mod, "dspotconnect", 0) is None:
            mod.dspotconnect = m
