#!/bin/bash
# mkpatch.sh NAME: takes the edits made in the scratch copy /tmp/sw as the patch of seeded/NAME and resets the copy
cd /tmp/sw && git diff > /verif/seeded/$1/patch.diff && git checkout -q -- . && wc -l /verif/seeded/$1/patch.diff
