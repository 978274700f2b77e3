"""An exception that strikes from outside at a drawn line of the tools' own code.

job["interrupt"] = {"exc": "KeyboardInterrupt" | "MemoryError", "mode": "all" | "new" | "try" | "body" | "enter", "at": n}
The exception is raised just before the n-th executed line of the repository's code ("all"), or the n-th line
that is executed for the first time ("new": every site counts once, however often a loop runs over it), the
n-th of those that are in a try statement with handlers or in a function called from one ("body"), on entering
the n-th different try statement ("try"), or each of the first five times that a try statement is entered ("enter").
job["count_lines"]: note how many there are.
"""
import ast
import os
import sys

from . import shim

EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


def guarded(path):
    """{line: first lines of the innermost try or suppressing with statement around it, and of its body}"""
    out = {}
    try:
        with open(path) as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError, ValueError):
        return out
    for n in ast.walk(tree):                     # outer statements come first
        if isinstance(n, ast.Try):
            for b in n.body:
                out.update((i, (n.lineno, n.body[0].lineno)) for i in range(b.lineno, b.end_lineno + 1))
        elif isinstance(n, ast.With) and any("suppress" in ast.dump(i.context_expr) for i in n.items):
            for b in n.body:
                out.update((i, (n.lineno, n.body[0].lineno)) for i in range(b.lineno, b.end_lineno + 1))
    return out


class Interrupt:
    def __init__(self, spec, repo=None):
        self.spec = spec or {}
        self.repo = os.path.realpath(repo or os.environ.get("RMTSIM_REPO", "/repo")) + os.sep
        self.pid = os.getpid()
        self.inside, self.seen = {}, set()
        self.n = {"all": 0, "new": 0, "try": 0, "body": 0, "enter": 0}
        self.lines, self.entered, self.times = {}, set(), {}
        self.mode, self.at = self.spec.get("mode"), self.spec.get("at")
        self.fired = None

    def local(self, frame, event, arg):
        if event != "line" or os.getpid() != self.pid or self.fired:
            return self.local
        self.n["all"] += 1
        hit = self.mode == "all" and self.n["all"] == self.at
        k = (frame.f_code, frame.f_lineno)
        if k not in self.seen:
            self.seen.add(k)
            self.n["new"] += 1
            hit = hit or self.mode == "new" and self.n["new"] == self.at
            t = self.under_try(frame)
            if t:
                self.n["body"] += 1
                hit = hit or self.mode == "body" and self.n["body"] == self.at
                if t not in self.entered:
                    self.entered.add(t)
                    self.n["try"] += 1
                    hit = hit or self.mode == "try" and self.n["try"] == self.at
        if frame.f_code.co_filename not in self.lines:
            self.lines[frame.f_code.co_filename] = guarded(frame.f_code.co_filename)
        t = self.lines[frame.f_code.co_filename].get(frame.f_lineno)
        if t and t[1] == frame.f_lineno:
            t = (frame.f_code.co_filename, t[0])
            self.times[t] = self.times.get(t, 0) + 1
            if self.times[t] <= 5:
                self.n["enter"] += 1
                hit = hit or self.mode == "enter" and self.n["enter"] == self.at
        if hit:
            self.fired = f"{os.path.relpath(frame.f_code.co_filename, self.repo)}:{frame.f_lineno}"
            e = EXC[self.spec["exc"]]
            raise e() if e is KeyboardInterrupt else e("Unable to allocate memory (injected)")
        return self.local

    def under_try(self, frame):
        for _ in range(2):                       # here or one call further up (some tools run all of main() in one)
            if frame is None:
                break
            f = frame.f_code.co_filename
            if self.inside.get(f):
                if f not in self.lines:
                    self.lines[f] = guarded(f)
                if frame.f_lineno in self.lines[f]:
                    return f, self.lines[f][frame.f_lineno]
            frame = frame.f_back
        return None

    def glob(self, frame, event, arg):
        if self.fired or os.getpid() != self.pid:
            return None
        f = frame.f_code.co_filename
        if f not in self.inside:
            self.inside[f] = os.path.realpath(f).startswith(self.repo)
        return self.local if self.inside[f] else None

    def start(self):
        sys.settrace(self.glob)

    def stop(self):
        sys.settrace(None)
        if self.spec:
            if self.fired:
                shim.note(f"fault:{self.spec['exc']}", 1)
                sys.stderr.write(f"simulator: {self.spec['exc']} at {self.fired}\n")
        else:
            for k, v in self.n.items():
                shim.note("lines:" + k, v)
