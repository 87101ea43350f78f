"""Rewrites the table of planted bugs at the end of DESIGN.md (not used by any check)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Planted bugs\n"


def main():
    rows = []
    seeded = os.path.join(VERIF, "seeded")
    for name in sorted(os.listdir(seeded)):
        with open(os.path.join(seeded, name, "meta.json")) as f:
            meta = json.load(f)
        rows.append("| `%s` | %s | %s | %s |" % (name, meta["property"], meta["what_it_breaks"], meta["needs"]))
    path = os.path.join(VERIF, "DESIGN.md")
    with open(path) as f:
        text = f.read()
    head = text[: text.index(MARK)]
    with open(path, "w") as f:
        f.write(head + MARK + TEXT + "\n".join(rows) + "\n")


TEXT = """
Each is caught by the quick check of the property in the second column (each was run on a patched copy). All pass the
existing tests. Those that were missed at first, and what was added to the checks:

* `serial_roe_default`: arguments that have their default value are sometimes left out (`style` in `gen.py`).
* `no_traps_alias`: histories also contain calls without any traps.
* `slow_isclose`: extreme factors between units, and tiny timescales.
* `well_cache`: wells are used before their settings are changed.
* `instant_mixed`: groups of different kinds of traps in one call.
* stale rates of traps (the reverse of a repair): traps are first made with other timescales.

Changes that were tried but that the existing tests catch (so not kept): wrong mean of collapsed levels, collapse of levels
that are full for one species only, empty phases, aliased saved states, one saved state for all phases, plans cached by
size, Poisson densities of another shape, shallow copies of traps, injection without the offset, highest level left out
of a release.

| id | property | what it breaks | needs |
|---|---|---|---|
"""

if __name__ == "__main__":
    main()
