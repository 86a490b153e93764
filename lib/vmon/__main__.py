import sys
from vmon.core import main
sys.exit(main(sys.argv[1:]))
