"""Nothing to build: the specifications are interpreted by TLC. Checks that the toolchain answers."""
import subprocess

out = subprocess.run(["java", "-version"], stderr=subprocess.STDOUT, stdout=subprocess.PIPE, text=True)
assert out.returncode == 0, out.stdout
print(out.stdout.splitlines()[0])
