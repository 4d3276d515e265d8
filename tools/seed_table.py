"""Prints the table of planted bugs (for DESIGN.md) from seeded/*/meta.json."""
import glob, json, os
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    print(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {' '.join(m['needs'].split())} |")
