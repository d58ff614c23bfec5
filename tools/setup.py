"""setup_cmd: nothing is prebuilt (every check builds from /repo's working tree); verifies that the tools are there."""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("g++", "java", "python3"):
    if not shutil.which(t):
        sys.exit("missing " + t)
if not os.path.exists("/opt/veriftools/tla/tla2tools.jar"):
    sys.exit("missing TLC")
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
print("ready")
