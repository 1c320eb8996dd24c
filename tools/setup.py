"""Nothing to build: verify that the tools the checks need are present."""
import os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import pydv
import z3
print('z3', z3.get_version_string())
print(subprocess.run(['cvc5', '--version'], capture_output=True, text=True).stdout.splitlines()[0])
for d in ('evidence', 'replays'):
    os.makedirs(os.path.join(ROOT, d), exist_ok=True)
