"""Checks that the tools the checks need are installed; nothing is kept."""
import shutil, sys

need = ["gcc", "xxd", "python3"]
missing = [t for t in need if not shutil.which(t)]
if not (shutil.which("llvm-config-19") or shutil.which("llvm-config")):
    missing.append("llvm-config")
if missing:
    print("missing tools: " + ", ".join(missing))
    sys.exit(1)
print("ok")
