#!/bin/bash
# seed_new.sh ID PROPERTY NEEDS BREAKS : takes the edit present in /tmp/seedrepo as the patch.
D=/verif/seeded/$1; mkdir -p "$D"
git -C /tmp/seedrepo diff > "$D/patch.diff"
python3 -c "
import json,sys
json.dump({'property':sys.argv[1],'needs':sys.argv[2],'what_it_breaks':sys.argv[3]},open(sys.argv[4],'w'),indent=1)" "$2" "$3" "$4" "$D/meta.json"
git -C /tmp/seedrepo checkout -q -- .
