"""Nothing is compiled: checks that the tools the checks need are there."""
import subprocess
import sys
sys.path.append('/opt/venv/lib/python3.12/site-packages')
import z3      # noqa
print('z3', z3.get_version_string())
print(subprocess.run(['cvc5', '--version'], capture_output=True,
                     text=True).stdout.splitlines()[0])
