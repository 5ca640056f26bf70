"""
Renews the generated tables of DESIGN.md: costs (from the evidence files, kept
in tools/costs.json), repaired defects (from known_findings.txt), planted bugs.
"""

import json
import pathlib
import re

ROOT = pathlib.Path(__file__).resolve().parent.parent


def costs():
    file = ROOT / "tools/costs.json"
    known = json.loads(file.read_text()) if file.exists() else {}
    for path in sorted((ROOT / "evidence").glob("C*.json")):
        e = json.loads(path.read_text())
        cov = e["coverage"]
        amount = cov.get("transitions") or cov.get("evaluations")
        states = cov.get("states") or cov.get("distinct_nontrivial")
        known.setdefault(e["property"], {})[e["tier"]] = [
            round(e["wall_s"]), states, amount
        ]
    file.write_text(json.dumps(known, indent=0, sort_keys=True) + "\n")
    rows = ["| id | quick s | states | transitions | thorough s | states | transitions |",
            "|---|---|---|---|---|---|---|"]
    for pid, tiers in sorted(known.items()):
        cells = []
        for tier in ("quick", "thorough"):
            s, states, amount = tiers.get(tier, ("-", "-", "-"))
            cells += [str(s), str(states), str(amount)]
        rows.append(f"| {pid} | " + " | ".join(cells) + " |")
    return rows


def fixed():
    rows = ["| property | commit | what failed |", "|---|---|---|"]
    for line in (ROOT / "known_findings.txt").read_text().splitlines():
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
        if m:
            rows.append(f"| {m[1]} | {m[2]} | {m[3]} |")
    return rows


def seeds():
    rows = ["| planted bug | property | breaks | needs |", "|---|---|---|---|"]
    for path in sorted((ROOT / "seeded").glob("*/meta.json")):
        m = json.loads(path.read_text())
        clean = lambda s: " ".join(s.split()).replace("|", "/")  # noqa: E731
        rows.append(
            f"| {path.parent.name} | {m['property']} | {clean(m['what_it_breaks'])} | {clean(m['needs'])} |"
        )
    return rows


def main():
    file = ROOT / "DESIGN.md"
    text = file.read_text()
    for name, rows in dict(costs=costs(), fixed=fixed(), seeds=seeds()).items():
        text = re.sub(
            f"<!-- {name} -->.*?<!-- /{name} -->",
            lambda _: "\n".join([f"<!-- {name} -->", *rows, f"<!-- /{name} -->"]),
            text,
            flags=re.S,
        )
    file.write_text(text)


if __name__ == "__main__":
    main()
