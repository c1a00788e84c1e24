import sys
from dpv.cli import main
sys.exit(main(sys.argv[1:]))
