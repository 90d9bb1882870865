# addp.py FILE: insert dict entries (text of FILE) before the closing bracket of P
import sys
p='/verif/tools/props.py'
s=open(p).read().rstrip()
assert s.endswith(']')
s=s[:-1]+open(sys.argv[1]).read().rstrip()+'\n]\n'
open(p,'w').write(s)
