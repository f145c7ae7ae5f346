#!/usr/bin/env python3
# addcheck.py "<python dict item text>" : append an entry to checks.py and regenerate the manifest
import sys,subprocess,os
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','checks.py'); s=open(p).read().rstrip(); assert s.endswith('}'); s=s[:-1]+' '+sys.argv[1].strip()+'\n}\n'; open(p,'w').write(s)
subprocess.check_call([sys.executable,os.path.join(os.path.dirname(os.path.abspath(__file__)),'gen_manifest.py')],stdout=subprocess.DEVNULL)
