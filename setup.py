"""setup_cmd: nothing to build ahead; check that the tools the checks need are there."""
import os, shutil, sys
missing = [t for t in ('cbmc', 'goto-cc', 'goto-instrument', 'gcc') if not shutil.which(t)]
if missing: print('missing tools:', missing); sys.exit(1)
for d in ('evidence', 'replays'): os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), d), exist_ok=True)
print('ok')
