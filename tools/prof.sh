#!/bin/bash
# where does the verification of a contract spend its time: prof.sh p09:0 SECONDS
timeout $(( $2 * 4 + 10 )) python3-vt -X faulthandler -c "
import faulthandler,sys
faulthandler.dump_traceback_later($2,exit=False,repeat=True,file=open('/tmp/prof.txt','w'))
sys.argv=['x','$1']
exec(open('/verif/tools/dev_sym.py').read())
"
grep -v pyvenv /tmp/prof.txt | grep 'Timeout\|File' | sed 's/File "\/verif\///'
