"""run.py <property> [--tier quick|thorough] [--only substring] [--replay file]"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONHASHSEED", "0")
from sympic import harness
if "--replay" in sys.argv:
    rc = harness.replay_cmd(sys.argv[1], sys.argv[sys.argv.index("--replay") + 1])
else:
    rc = harness.main(sys.argv)
sys.stdout.flush()
os._exit(rc)
