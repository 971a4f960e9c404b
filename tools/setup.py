"""Check that the tools the checks need are there; create output directories. Nothing is fetched."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("build", "evidence", "replays"):
    os.makedirs(os.path.join(V, d), exist_ok=True)
if not (shutil.which("clang++") or shutil.which("g++")):
    sys.exit("no C++ compiler")
print("ok")
