# appends the last /repo fix commit to known_findings.txt: fixed.py <property>
import subprocess,sys
h,s=subprocess.check_output(['git','-C','/repo','log','-1','--format=%h %s'],text=True).strip().split(' ',1)
assert s.startswith('fix: ')
open('/verif/known_findings.txt','a').write(f"fixed: property={sys.argv[1]} {h} {s[5:]}\n")
