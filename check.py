#!/usr/bin/env python3
"""usage: check.py PROPERTY [quick|thorough] | check.py setup"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import engine  # noqa: E402
import checks  # noqa: E402

# The order of sets of strings is part of what a seed stands for.
if os.environ.get("PYTHONHASHSEED") != "0":
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if sys.argv[1] == "setup":
        context = engine.Context("setup", tier, seed)
        for crate in checks.HARNESSES:
            context.build(crate)
        context.close()
        return 0
    prop = sys.argv[1]
    check, assumptions = checks.CHECKS[prop]
    context = engine.Context(prop, tier, seed)
    try:
        check(context)
        return context.finish(assumptions)
    except (engine.ToolError, engine.subprocess.TimeoutExpired) as e:
        print(f"{prop}: error of the check: {e}", file=sys.stderr)
        # What was found before the error stands.
        if context.violations:
            return context.finish(assumptions)
        return 2
    finally:
        context.close()


sys.exit(main())
