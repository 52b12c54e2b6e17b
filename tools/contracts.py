"""Writes mc/contracts.json: what the signatures of the public functions of the package promise about bases.

Run by hand when the promises themselves change; the checks only read the file.
"""

from __future__ import annotations

import ast
import json
import pathlib
import sys

PACKAGE = pathlib.Path(sys.argv[1] if len(sys.argv) > 1 else "/repo") / "surface_potential_analysis"
OUT = pathlib.Path(__file__).resolve().parent.parent / "mc" / "contracts.json"

# Arrays whose number of axes depends on the arguments, which their signature does not say.
ANY_SHAPE = {
    "surface_potential_analysis.basis.basis_like:convert_matrix": "np.ndarray[Any, np.dtype[np.complex128]]",
    "surface_potential_analysis.stacked_basis.util:get_x_coordinates_in_axes": "np.ndarray[Any, np.dtype[np.float64]]",
    "surface_potential_analysis.stacked_basis.util:get_k_coordinates_in_axes": "np.ndarray[Any, np.dtype[np.float64]]",
    "surface_potential_analysis.stacked_basis.util:calculate_distances_along_path": "np.ndarray[Any, np.dtype[np.int_]]",
}


def text(node) -> str | None:
    return None if node is None else ast.unparse(node)


def signature(node: ast.FunctionDef):
    a = node.args
    return {
        "parameters": [[x.arg, text(x.annotation)] for x in (*a.posonlyargs, *a.args, *a.kwonlyargs)],
        "returns": text(node.returns),
    }


def main() -> None:
    out = {}
    for path in sorted(PACKAGE.rglob("*.py")):
        module = ".".join(path.relative_to(PACKAGE.parent).with_suffix("").parts)
        for node in ast.parse(path.read_text()).body:
            if not isinstance(node, ast.FunctionDef) or node.name.startswith("_") or node.returns is None:
                continue
            overload = any("overload" in ast.unparse(d) for d in node.decorator_list)
            entry = out.setdefault(f"{module}:{node.name}", {"overloads": [], "plain": None})
            if overload:
                entry["overloads"].append(signature(node))
            else:
                entry["plain"] = signature(node)
    for name, returns in ANY_SHAPE.items():
        out[name]["plain"]["returns"] = returns
    lines = [f"{json.dumps(k)}: {json.dumps(v)}" for k, v in sorted(out.items())]
    OUT.write_text("{\n" + ",\n".join(lines) + "\n}\n")


main()
