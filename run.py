#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--seed N]   runs one check
   run.py setup                                        builds what the checks share
   run.py list                                         the checks"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import core, props

def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    if "--tier" in argv: tier = argv[argv.index("--tier") + 1]
    if "--seed" in argv: seed = argv[argv.index("--seed") + 1]
    if argv[0] == "setup":
        core.build_java()
        import tempfile
        os.makedirs(core.BUILD, exist_ok=True)
        d = tempfile.mkdtemp(dir=core.BUILD)
        core.build(d)
        import shutil
        shutil.rmtree(d)
        return 0
    if argv[0] == "list":
        for k in sorted(props.CHECKS): print(k, props.CHECKS[k].level)
        return 0
    p = argv[0]
    c = props.CHECKS[p]
    r = core.Run(p, tier, int(seed))
    try:
        c.run(r)
        return r.finish(c.level, c.assumes)
    except core.Broken as e:
        core.log("ERROR", e)
        return 3
    finally:
        import shutil
        shutil.rmtree(r.work, ignore_errors=True)

if __name__ == "__main__": sys.exit(main(sys.argv[1:]))
