import os, sys
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
from .runner import main
sys.exit(main(sys.argv[1].lower()))
