from __future__ import annotations

import argparse
import importlib
import json
import os
import sys
import traceback

from mc import core


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--family", action="append")
    ap.add_argument("--procs", type=int)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    sys.path.insert(0, str(core.REPO))
    import surface_potential_analysis as spa

    where = os.path.realpath(spa.__path__[0])
    if not where.startswith(str(core.REPO) + os.sep):
        print(f"wrong package under test: {where}", file=sys.stderr)
        return 2
    try:
        mod = importlib.import_module(f"mc.props.{a.property.lower()}")
    except Exception as e:  # noqa: BLE001
        if not any(
            f.filename.startswith(where) for f in traceback.extract_tb(e.__traceback__)
        ):
            raise
        # The package itself cannot be imported: nothing it provides holds.
        out = core.VERIF / "evidence" / "replay" / f"{a.property}-import.json"
        out.parent.mkdir(parents=True, exist_ok=True)
        out.write_text(json.dumps({"property": a.property, "import_error": repr(e)}))
        traceback.print_exc()
        print(f"VIOLATION property={a.property} replay={out}")
        return 1
    if a.replay:
        return core.replay(mod.PROP, a.replay)
    return core.run_property(
        mod.PROP, a.tier, families=a.family, procs=a.procs, verbose=a.v
    )


if __name__ == "__main__":
    raise SystemExit(main())
