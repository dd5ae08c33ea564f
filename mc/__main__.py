import sys
from mc.core import main
rc = main(sys.argv[1:])
sys.stdout.flush()
sys.exit(rc)
