"""Runs the delta-debugging tool and ends the process at a given file-system step (DDCRASH=k[:e])."""
import os, runpy, signal, sys
spec = os.environ.pop("DDCRASH", None)
if spec:
    k, early = (spec.split(":") + [""])[:2]
    left = [int(k)]

    def hook(ev, args):
        if ev == "open":
            p, mode = args[0], args[1]
            if not isinstance(p, str) or "dd.line" not in p or not mode or "r" in mode:
                return
        elif ev not in ("os.mkdir", "subprocess.Popen", "os.symlink", "os.rename", "os.remove"):
            return
        left[0] -= 1
        if left[0] == 0:
            if early and ev == "open":   # opened, nothing written yet
                os.close(os.open(args[0], os.O_WRONLY | os.O_CREAT | os.O_TRUNC))
            os.kill(os.getpid(), signal.SIGKILL)
    sys.addaudithook(hook)
sys.argv = ["vfc_ddebug"] + sys.argv[1:]
runpy.run_module("verificarlo.ddebug.main", run_name="__main__")
