"""Nothing to install: g++ and python3 only.  Checks build what they need from /repo's tree."""
import shutil, sys
for t in ("g++",):
    if not shutil.which(t): print("missing", t); sys.exit(1)
print("ok")
