"""Everything the machinery knows about a property: text, facets, rule.  bin/gen writes properties.jsonl
and MANIFEST.json from here; bin/check runs the facets."""

WRAP_BREAK = ["-Wl,--wrap=_ZN12StorageStrat22getBinaryBreakingPointEv"]
KBG = dict(groups=["kognac", "core", "rdf3x"], link=WRAP_BREAK + ["-llz4", "-lz", "-lcurl", "-ltbb", "-lpthread", "-lrt"])

HARNESSES = {
    "kb": KBG,
    "lowlevel": dict(groups=["kognac", "core", "rdf3x"]),
    "snap_graph": dict(groups=["snap"]),
    "snap_algo": dict(groups=["snap"]),
    "snap_struct": dict(groups=["snap"]),
    "snap_sub": dict(groups=["snap"]),
    "snap_cont": dict(groups=["snap"]),
    "rdf_ops": dict(groups=["kognac", "core", "rdf3x"], link=["-llz4","-lz","-lpthread"]),
    "sparql": dict(groups=["kognac", "core", "rdf3x"], link=["-llz4","-lz","-lpthread"]),
    "kbquery": dict(groups=["kognac", "core", "rdf3x", "layer"], link=WRAP_BREAK + ["-llz4", "-lz", "-lcurl", "-ltbb", "-lpthread", "-lrt"]),
    "store": dict(groups=["kognac", "core", "rdf3x"], link=WRAP_BREAK + ["-llz4", "-lz", "-lcurl", "-ltbb", "-lpthread", "-lrt"]),
    "rdf_text": dict(groups=["kognac", "core", "rdf3x"]),
    "snap_centr": dict(groups=["snap"]),
}

PROPS = {}

def prop(id, title, statement, over, text, why, files, mechanism, facets=None, rule="", assumptions=None, observe=None,
         technique="", note="", reason=None, state=None):
    PROPS[id] = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                     facets=facets or [], rule=rule, assumptions=assumptions or [], observe=observe or [], technique=technique,
                     note=note, reason=reason, state=state or [])

TRUST = "the compiler, AddressSanitizer, the PBT engine (lib/pbt.h) and the reference model in the harness"

import props  # noqa
