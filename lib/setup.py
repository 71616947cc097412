"""Fills the object cache (an optimisation: every check rebuilds whatever differs from /repo's current tree by itself)."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, checks
srcs = [build.REPO + "/" + s for s in build.engine_sources()]
build.compile_many(srcs, "opt")
for cid, c in checks.CHECKS.items():
    for h in c.get("harnesses") or [c]:
        try:
            exe, t = build.build_harness(cid, f"{build.VERIF}/harness/{h['src']}", h.get("sources"), h.get("config", "opt"), h.get("link", ()), h.get("objs", ()), cflags=h.get("cflags", ()))
            os.unlink(exe)
        except RuntimeError as e:
            print(cid, str(e)[-1500:])
            sys.exit(1)
print("ready")
