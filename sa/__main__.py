import sys
from .common import main; sys.exit(main(sys.argv))
