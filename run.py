#!/opt/venv/bin/python
"""
Runs one registered check: `run.py C01`. The tier is taken from
VERIF_TIER (or --thorough). `run.py C01 --replay FILE` repeats the
execution recorded with a violation.
"""

import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    args = sys.argv[1:]
    pid = args[0]
    if "--thorough" in args:
        os.environ["VERIF_TIER"] = "thorough"
    replay = None
    if "--replay" in args:
        replay = args[args.index("--replay") + 1]
    if os.environ.get("VERIF_CHILD") != "1":
        env = dict(
            os.environ,
            VERIF_CHILD="1",
            PYTHONHASHSEED="0",
            PYTHONDONTWRITEBYTECODE="1",
            # never trust byte code caches: compile the working tree
            PYTHONPYCACHEPREFIX="/nonexistent/verif",
        )
        env.pop("PYTHONPATH", None)
        os.execve(
            "/opt/venv/bin/python",
            ["/opt/venv/bin/python", "-X", "faulthandler"]
            + [os.path.join(HERE, "run.py")]
            + args,
            env,
        )
    sys.path.insert(0, HERE)
    module = importlib.import_module(f"checks.{pid.lower()}")
    if replay:
        import json

        with open(replay) as f:
            data = json.load(f)["replay"]
        if data.get("sticky"):
            from mc import tasks

            tasks.STICKY[0] = True
        return module.replay(data)
    try:
        return module.main()
    except Exception as error:
        from mc import report

        return report.crashed(pid, error)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code or 0)
