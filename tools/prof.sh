#!/bin/bash
# where is a check spending its time: dump stacks after N seconds
cd /verif; timeout ${2:-60} python3 -X faulthandler -c "
import sys,faulthandler
faulthandler.dump_traceback_later(${3:-40},exit=True)
sys.argv=['run','$1']
sys.path.insert(0,'/verif')
from sa.run import main
main()
" 2>&1 | grep -v "in run$" | head -${4:-60}
