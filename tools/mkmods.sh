#!/bin/bash
# regenerates harness/src/props/mod.rs from the files present
cd "$(dirname "$0")/../harness/src/props"
python3 - <<'PY'
import glob,os
mods=sorted(os.path.basename(f)[:-3] for f in glob.glob('c*.rs'))
s="mod util;\n"+"".join(f"mod {m};\n" for m in mods)+"use crate::Prop;\npub fn all() -> Vec<Prop> {\n    vec![\n"+"".join(f"        {m}::PROP,\n" for m in mods)+"    ]\n}\n"
open('mod.rs','w').write(s)
PY
