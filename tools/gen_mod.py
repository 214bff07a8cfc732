#!/usr/bin/env python3
import glob, os
d="/verif/harness/src/props/"
ids=sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(d+"c[0-9][0-9].rs"))
s="use crate::engine::Check;\n\n"+"".join(f"pub mod {i.lower()};\n" for i in ids)+"\npub const IDS: &[&str] = &["+", ".join(f'"{i}"' for i in ids)+"];\n\npub fn check(id: &str, thorough: bool) -> Option<Check> {\n    Some(match id {\n"+"".join(f'        "{i}" => {i.lower()}::check(thorough),\n' for i in ids)+"        _ => return None,\n    })\n}\n"
open(d+"mod.rs","w").write(s)
