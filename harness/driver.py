"""Executes requests (one JSON object per line) with the Python package and answers in plain lines."""
import json
import os
import sys
import tempfile

import clingo
from clingo import ast
from clingo.symbol import parse_term, SymbolType
from clingcon import ClingconTheory
from clingo.application import clingo_main
import clingcon.__main__ as app

OUT = os.fdopen(os.dup(1), "w", encoding="utf-8")
os.dup2(2, 1)


def say(*args):
    OUT.write("".join(str(x) for x in args).replace("\n", " ") + "\n")


def shown(model):
    csp, cost = [], []
    for s in model.symbols(theory=True):
        if s.match("__csp", 2):
            csp.append(f"{s.arguments[0]}={s.arguments[1]}")
        elif s.match("__csp_cost", 1):
            cost.append(s.arguments[0].string if s.arguments[0].type == SymbolType.String else "no string")
        else:
            csp.append(f"unexpected {s}")
    return " ".join(sorted(csp)), " ".join(cost)


class Run:
    def __init__(self, req):
        self.names = [parse_term(v) for v in req["vars"]]
        self.theory = ClingconTheory()
        for k, v in req["opts"]:
            self.theory.configure(k, v)
        self.ctl = clingo.Control(req["args"], logger=lambda c, m: None)
        self.theory.register(self.ctl)
        self.stats = 0

    def add(self, text):
        with ast.ProgramBuilder(self.ctl) as bld:
            ast.parse_string(text, lambda s: self.theory.rewrite_ast(s, bld.add), logger=lambda c, m: None)

    def on_model(self, m):
        t = self.theory
        t.on_model(m)
        tid = m.thread_id
        assignment = {}
        for name, val in t.assignment(tid):
            if name in assignment:
                say("E assignment yields ", name, " twice")
            assignment[name] = val
        vals = []
        for n in self.names:
            i = t.lookup_symbol(n)
            if i is None:
                vals.append("none")
                if n in assignment:
                    say("E assignment yields ", n, " which cannot be looked up")
                continue
            if t.get_symbol(i) != n:
                say("E symbol of index ", i, " is ", t.get_symbol(i), " and not ", n)
            if not t.has_value(tid, i):
                vals.append("novalue")
                continue
            v = t.get_value(tid, i)
            if type(v) is not int:
                say("E value of ", n, " is ", repr(v))
            if assignment.get(n) != v:
                say("E assignment has ", n, "=", assignment.get(n), " but the value is ", v)
            vals.append(v)
        if not set(assignment) <= set(self.names):
            say("E unexpected names: ", set(assignment) - set(self.names))
        csp, cost = shown(m)
        say("M ", " ".join(sorted(str(a) for a in m.symbols(shown=True))), ";", " ".join(map(str, vals)), ";", csp, ";", cost)

    def on_statistics(self, step, accu):
        self.theory.on_statistics(step, accu)
        self.stats += 1

    def solve(self, **kw):
        self.theory.prepare(self.ctl)
        mode = kw.pop("mode", "callback")
        if mode == "callback":
            r = self.ctl.solve(on_model=self.on_model, on_statistics=self.on_statistics, **kw)
        else:  # iterate over the models
            with self.ctl.solve(yield_=True, on_statistics=self.on_statistics, **kw) as hnd:
                for m in hnd:
                    self.on_model(m)
                r = hnd.get()
        say("R ", "SAT" if r.satisfiable else "UNSAT" if r.unsatisfiable else "UNKNOWN")
        say("S ", stats(self.ctl.statistics.get("user_step", {}).get("Clingcon", {})))


def stats(s):
    if isinstance(s, dict):
        return "{" + "".join(f"{k}:{stats(s[k])}," for k in sorted(s) if "ime" not in k) + "}"
    if isinstance(s, list):
        return "[" + "".join(f"{stats(x)}," for x in s) + "]"
    return f"{s:.6g}"


def solve(req):
    run = Run(req)
    for text in req["prg"]:
        run.add(text)
    run.ctl.ground([("base", [])])
    run.solve(mode=req["mode"])
    if run.stats != 1:
        say("E statistics callback called ", run.stats, " times")


def multi(req):
    """One program per step."""
    run = Run(req)
    for i, text in enumerate(req["prg"]):
        run.add(f"#program s{i}. {text}")
        run.ctl.ground([(f"s{i}", [])])
        run.solve(mode=req["mode"])
        say("step")
    if run.stats != len(req["prg"]):
        say("E statistics callback called ", run.stats, " times")


def errors(req):
    """Exceptions raised while rewriting reach the caller."""
    t = ClingconTheory()

    def add(stm):
        raise ValueError("from callback")

    n = 0
    try:
        ast.parse_string(req["prg"][0], lambda s: t.rewrite_ast(s, add), logger=lambda c, m: None)
    except Exception as e:  # pylint: disable=broad-except
        n += 1
        say("X ", "from callback" in str(e) or "from callback" in str(e.__cause__))
    if n != 1:
        say("E error in callback is lost")


def version(req):
    t = ClingconTheory()
    say("V ", ".".join(map(str, t.version())))


def application(req):
    """Runs the application in a child process."""
    with tempfile.TemporaryFile() as tmp:
        pid = os.fork()
        if pid == 0:
            code = 99
            try:
                os.dup2(tmp.fileno(), 1)
                os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
                r, w = os.pipe()
                os.write(w, "".join(req["prg"]).encode())
                os.close(w)
                os.dup2(r, 0)
                code = int(clingo_main(app.ClingconApp("clingcon"), req["args"]))
                sys.stdout.flush()
            finally:
                os._exit(code)
        _, st = os.waitpid(pid, 0)
        tmp.seek(0)
        for line in tmp.read().decode().split("\n"):
            say("O ", line)
        say("C ", os.waitstatus_to_exitcode(st))


OPS = {"solve": solve, "multi": multi, "errors": errors, "version": version, "app": application}

for line in sys.stdin:
    req = json.loads(line)
    try:
        OPS[req["op"]](req)
    except RuntimeError as e:
        say("F ", e)
    except Exception as e:  # pylint: disable=broad-except
        say("E unexpected ", type(e).__name__, ": ", e)
    say(".")
    OUT.flush()
