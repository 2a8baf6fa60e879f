"""Syntactic survey of the package: direct calls that block (C30), effects on process-wide state (C38).

C30: the scenarios decide the same rule for every path they reach; the survey covers the functions and branches they
do not reach.  C38: every call, assignment and deletion of every module (also at import) is classified by the dotted
path of its target, following local names bound to process-wide objects (the loop, its policy, root logger, ...).
"""
from __future__ import annotations

import ast

from .models import BLOCKING
from .scn import Viol

PREFIX = ("socket.", "subprocess.", "requests.", "urllib.", "shutil.")


def imports(tree):
    """Local name -> dotted path, for the imports of a module."""
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
            for a in n.names:
                out[a.asname or a.name] = f"{n.module}.{a.name}"
    return out


def dotted(e, imp, local):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if not isinstance(e, ast.Name) or e.id in local:
        return None
    if e.id in imp:
        return ".".join([imp[e.id]] + parts[::-1])
    if not parts and e.id in ("open", "input", "print"):
        return "builtins." + e.id
    return None


# Calls that change state of the process, the interpreter, the event loop or the logging configuration.
GLOBAL = {
    "builtins.print", "builtins.exit", "builtins.quit",
    "sys.setrecursionlimit", "sys.setswitchinterval", "sys.settrace", "sys.setprofile", "sys.exit", "sys.setdlopenflags",
    "sys.set_asyncgen_hooks", "sys.set_coroutine_origin_tracking_depth", "sys.set_int_max_str_digits",
    "sys.addaudithook", "sys.stdout.write", "sys.stderr.write", "sys.activate_stack_trampoline",
    "gc.disable", "gc.enable", "gc.freeze", "gc.unfreeze", "gc.set_threshold", "gc.set_debug",
    "warnings.simplefilter", "warnings.filterwarnings", "warnings.resetwarnings",
    "logging.basicConfig", "logging.disable", "logging.setLoggerClass", "logging.setLogRecordFactory",
    "logging.captureWarnings", "logging.addLevelName", "logging.shutdown", "logging.raiseExceptions",
    "signal.signal", "signal.alarm", "signal.setitimer", "signal.set_wakeup_fd", "signal.raise_signal",
    "atexit.register", "atexit.unregister", "faulthandler.enable", "faulthandler.disable",
    "os.putenv", "os.unsetenv", "os.chdir", "os.umask", "os._exit", "os.kill", "os.nice", "os.abort",
    "os.environ.update", "os.environ.setdefault", "os.environ.pop", "os.environ.clear",
    "locale.setlocale", "random.seed", "time.tzset", "threading.settrace", "threading.setprofile",
    "threading.stack_size", "tracemalloc.start", "tracemalloc.stop", "tracemalloc.clear_traces",
    "asyncio.set_event_loop", "asyncio.set_event_loop_policy", "asyncio.new_event_loop", "asyncio.run",
    "threading.Thread", "threading.Timer", "multiprocessing.Process", "multiprocessing.Pool",
    "concurrent.futures.ThreadPoolExecutor", "concurrent.futures.ProcessPoolExecutor",
    "asyncio.set_child_watcher", "importlib.reload", "importlib.invalidate_caches",
}
# Module-level functions of logging configure the root logger when it has no handler.
ROOTLOG = {f"logging.{n}" for n in ("debug", "info", "warning", "warn", "error", "critical", "exception", "log")}
# Expressions that denote an object shared by the whole process or event loop.
SHARED = {"asyncio.get_running_loop", "asyncio.get_event_loop", "asyncio.get_event_loop_policy",
          "asyncio.events.get_running_loop", "asyncio.events.get_event_loop", "logging.getLogger",
          "asyncio.current_task", "asyncio.all_tasks", "threading.current_thread", "threading.main_thread",
          "decimal.getcontext"}
MUTATORS = {"set_debug", "set_exception_handler", "set_task_factory", "set_default_executor", "add_signal_handler",
            "remove_signal_handler", "setLevel", "addHandler", "removeHandler", "addFilter", "removeFilter",
            "set_event_loop", "set_event_loop_policy", "set_child_watcher", "shutdown_default_executor",
            "shutdown_asyncgens", "setDaemon", "set_name", "run_forever", "run_until_complete"}
LOOPSTOP = {"stop", "close"}


class Effects(ast.NodeVisitor):
    """Effects of one module on objects outside the library."""

    def __init__(self, m, rep):
        self.m, self.rep, self.imp = m, rep, imports(m.tree)
        self.internal = {k for k, v in self.imp.items() if v.startswith("frequenz.channels")}
        self.scopes = [dict()]  # local name -> external path or None
        self.qual = []
        self.n = 0

    def path(self, e):
        """Dotted external path or 'shared:<path>' of an expression, or None."""
        if isinstance(e, ast.NamedExpr):
            return self.path(e.value)
        if isinstance(e, ast.Call):
            p = self.path(e.func)
            return "shared:" + p if p in SHARED and not (p == "logging.getLogger" and e.args and not (
                isinstance(e.args[0], ast.Constant) and not e.args[0].value)) else None
        if isinstance(e, ast.Attribute):
            p = self.path(e.value)
            if p is None and e.attr in ("_loop", "loop") and isinstance(e.value, ast.Name):
                return "shared:loop"
            return None if p is None else f"{p}.{e.attr}"
        if isinstance(e, ast.Subscript):
            p = self.path(e.value)
            return None if p is None else f"{p}[]"
        if isinstance(e, ast.Name):
            for sc in reversed(self.scopes):
                if e.id in sc:
                    return sc[e.id]
            if e.id in self.imp and e.id not in self.internal:
                return self.imp[e.id]
            if e.id in ("print", "exit", "quit", "setattr", "delattr"):
                return "builtins." + e.id
        return None

    def bad(self, node, what):
        q = ".".join(self.qual) or "<module>"
        self.rep.add(Viol("C38", "process-wide-effect", f"{self.m.rel}:{q}", what, f"{self.m.rel}:{node.lineno}"))

    def bind(self, t, p):
        if isinstance(t, ast.Name):
            self.scopes[-1][t.id] = p
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, None)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, None)

    def target(self, t, how):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x, how)
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            self.n += 1
            p = self.path(t.value)
            if p is not None:
                self.bad(t, f"{how} of {ast.unparse(t)} changes an object outside the library")

    # ---- scopes
    def func(self, node):
        for d in getattr(node, "decorator_list", []):
            self.visit(d)
        a = node.args
        for x in [*a.defaults, *[d for d in a.kw_defaults if d]]:
            self.visit(x)
        sc = {x.arg: None for x in [*a.posonlyargs, *a.args, *a.kwonlyargs, *([a.vararg] if a.vararg else []),
                                    *([a.kwarg] if a.kwarg else [])]}
        for n in ("loop",):
            if n in sc:
                sc[n] = "shared:loop"
        self.scopes.append(sc)
        self.qual.append(getattr(node, "name", "<lambda>"))
        for x in node.body if isinstance(node.body, list) else [node.body]:
            self.visit(x)
        self.qual.pop()
        self.scopes.pop()

    visit_FunctionDef = visit_AsyncFunctionDef = visit_Lambda = func

    def visit_ClassDef(self, node):
        for x in [*node.decorator_list, *node.bases, *[k.value for k in node.keywords]]:
            self.visit(x)
        self.scopes[-1][node.name] = None
        self.scopes.append({})
        self.qual.append(node.name)
        for x in node.body:
            self.visit(x)
        self.qual.pop()
        self.scopes.pop()

    # ---- effects
    def visit_Assign(self, node):
        self.visit(node.value)
        for t in node.targets:
            self.target(t, "assignment")
            self.bind(t, self.path(node.value))
            self.generic_visit(t)

    def visit_AnnAssign(self, node):
        if node.value is not None:
            self.visit(node.value)
            self.target(node.target, "assignment")
            self.bind(node.target, self.path(node.value))

    def visit_AugAssign(self, node):
        self.visit(node.value)
        self.target(node.target, "assignment")

    def visit_Delete(self, node):
        for t in node.targets:
            self.target(t, "deletion")

    def visit_For(self, node):
        self.visit(node.iter)
        p = self.path(node.iter)
        self.bind(node.target, p if p and p.startswith("shared:") else None)
        for x in [*node.body, *node.orelse]:
            self.visit(x)

    visit_AsyncFor = visit_For

    def visit_With(self, node):
        for i in node.items:
            self.visit(i.context_expr)
            if i.optional_vars is not None:
                self.bind(i.optional_vars, None)
        for x in node.body:
            self.visit(x)

    visit_AsyncWith = visit_With

    def visit_Call(self, node):
        self.n += 1
        p = self.path(node.func)
        if p is not None:
            last = p.rsplit(".", 1)[-1]
            if p in GLOBAL:
                self.bad(node, f"call of {p} has an effect outside the library")
            elif p in ROOTLOG:
                self.bad(node, f"call of {p} uses (and may configure) the root logger")
            elif p in ("builtins.setattr", "builtins.delattr") and node.args and self.path(node.args[0]) is not None:
                self.bad(node, f"{ast.unparse(node)} changes an object outside the library")
            elif p.startswith("shared:") and "." in p and last in MUTATORS | LOOPSTOP | (
                    {"cancel"} if "current_task" in p or "all_tasks" in p else set()):
                self.bad(node, f"{ast.unparse(node.func)}() changes an object shared by the whole program")
            elif p.startswith("os.environ"):
                if last not in ("get", "keys", "items", "values", "copy", "__getitem__", "__contains__"):
                    self.bad(node, f"call of {p} changes the process environment")
        elif isinstance(node.func, ast.Attribute) and node.func.attr in MUTATORS - {"set_name"} and not (
                node.func.attr == "addHandler" and "NullHandler" in ast.unparse(node)):
            self.bad(node, f"{ast.unparse(node.func)}() changes an object shared by the whole program")
        self.generic_visit(node)


def run_effects(prog, rep):
    for m in prog.mods.values():
        if getattr(m, "synthetic", False):
            continue
        v = Effects(m, rep)
        v.visit(m.tree)
        for _ in range(v.n):
            rep.ok("C38", "effect-surveyed")


def run_survey(prog, rep, tier):
    run_effects(prog, rep)
    n = 0
    for m in prog.mods.values():
        if getattr(m, "synthetic", False):
            continue
        imp = imports(m.tree)
        shadow = set(m.classes) | set(m.funcs)
        for f in [*m.funcs.values(), *[x for c in m.classes.values()
                                       for x in (*c.methods.values(), *c.setters.values())]]:
            n += 1
            rep.fns.add(f.key)
            rep.ok("C30", "function-surveyed")
            args = {a.arg for a in ast.walk(f.node) if isinstance(a, ast.arg)}
            for c in ast.walk(f.node):
                if not isinstance(c, ast.Call):
                    continue
                rep.ok("C30", "call-surveyed")
                rep.sites.add(f"{m.rel}:{c.lineno}")
                p = dotted(c.func, imp, shadow | args)
                if p is not None and (p in BLOCKING or p.startswith(PREFIX)):
                    rep.add(Viol("C30", "blocking-call", f"{m.rel}:{f.qual}", f"blocking call of {p}",
                                 f"{m.rel}:{c.lineno}"))
    rep.states["functions surveyed"] = n
    if not n:
        rep.vacuous.append("survey")
