"""Instance names and metadata of a check, without importing jax."""
import importlib
import json
import sys

COMMON = [
    "floating point is read as exact extended real arithmetic (NaN and infinities modelled, rounding and signed zero not); results are compared within rtol 1e-3 / atol 1e-6 where an equality is not exact",
    "transcendental functions are uninterpreted with sound axioms (sign, monotonicity, inverse values) refined at model points; random samplers are arbitrary values of their support",
    "concrete reals read from the source and from files are taken at their decimal value",
]


def main():
    m = importlib.import_module("checks." + sys.argv[1].lower())
    insts = m.instances(sys.argv[2])
    print(
        json.dumps(
            {
                "instances": [i["name"] for i in insts],
                "bounds": getattr(m, "BOUNDS", ""),
                "functions": getattr(m, "FUNCTIONS", []),
                "assumptions": getattr(m, "ASSUMPTIONS", []),
                "common": COMMON,
            }
        )
    )


main()
