import sys
from tmpl import *
g=Gen('/repo', probe=len(sys.argv)>3)
s=g.run(open('/verif/proofs/%s.vrs'%sys.argv[1]).read())
open(sys.argv[2],'w').write(s)
print(len(g.fns),'fns',len(g.edits),'edits',g.probes,'probes')
