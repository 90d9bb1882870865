#!/usr/bin/env python3
"""seed.py SPEC.py : SPEC defines ID PROP PKG NEEDS BREAKS EDITS=[(file,old,new)] DEMO"""
import sys,subprocess,os
ns={}
exec(open(sys.argv[1]).read(),ns)
R='/tmp/w/'
for f,a,b in ns['EDITS']:
    s=open(R+f).read()
    assert s.count(a)==1,(f,s.count(a),a)
    open(R+f,'w').write(s.replace(a,b))
open('/tmp/demo_test.go','w').write(ns['DEMO'])
r=subprocess.run(['/verif/tools/mkseed.sh',ns['ID'],ns['PROP'],ns['PKG'],ns['NEEDS'],ns['BREAKS']],capture_output=True,text=True,env=dict(os.environ,**ns.get('ENV',{})))
print('#####',ns['ID'],r.stdout[-1500:],r.stderr[-500:])
subprocess.run(['git','-C','/tmp/w','checkout','-q','--','.'])
