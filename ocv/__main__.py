import sys
from ocv.core import main

sys.exit(main())
