import sys; sys.argv,A=[sys.argv[0]],sys.argv[1:]
from seedlib import *
id=A[0]
if os.path.exists(WT): shutil.rmtree(WT)
sh(f'cp -a /repo {WT}'); rc,o=sh(f'git apply /verif/seeded/{id}/patch.diff',WT)
if rc: print('apply',o); sys.exit()
run(id,A[1:],WT)
