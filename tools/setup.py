"""Check that the tools the checks need are present."""
import glob, os, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
assert shutil.which("tlc"), "tlc is missing"
subprocess.run(["/opt/venv/bin/python", "-c", "import sys; sys.path.insert(0, '/repo'); sys.dont_write_bytecode = True; import vtelem"], check=True)
os.makedirs(os.path.join(H, "evidence"), exist_ok=True)
print("ok")
