"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    assert len(title) <= 80, (id, len(title))
    p = {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": a, "where": b} for a, b in mech],
        },
    }
    if observe:
        p["anchors"]["observe_at"] = observe
    PROPS.append((p, technique, note))


def not_applicable(id, reason):
    NA.append({"property": id, "reason": reason})


SYM = "symbolic execution of the real Python code (numpy on SMT terms), z3 decides each assertion"

prop(
    "P01",
    "Halo exchange of scalars delivers the neighbour's value at the same point",
    "When the tiles of the cubed sphere exchange a scalar field along their edges, every tile receives, for each of "
    "its four edges and each point of that edge, exactly the value its neighbouring tile holds at the same physical "
    "point of the sphere, in its own orientation. This holds for any number of tiles (6 n^2 processes), for edges "
    "inside a panel and between panels (including the reversed ones), and for every array layout in use (lines of "
    "points, element by element, with leading dimensions, and 3-D element blocks with a vertical direction).",
    ["inputs", "configurations", "schedules"],
    "all field values; 6 to 150 processes; all layouts used by the code",
    "The tests compare smooth analytic fields on 6 and sometimes 24 processes; a wrong permutation of points on one of "
    "the reversed panel edges, or only with several tiles per panel, stays invisible to them.",
    ["wx_factory/process_topology.py"],
    [("neighbour table and flip table", "ProcessTopology.__init__"), ("exchange", "ProcessTopology.start_exchange_scalars"),
     ("unpacking", "ExchangeRequest.wait")],
    SYM,
    "All field values as free reals, on a simulated MPI world running the real topology code on every rank; bounded "
    "in the number of ranks and points per edge.",
)
prop(
    "P02",
    "Halo exchange of vectors delivers the same physical vector",
    "When tiles exchange a vector field along their edges, the components a tile receives describe, in its own panel's "
    "coordinate basis, the same physical tangent vector that the neighbour holds at the same point, for contravariant "
    "and for covariant components alike. A third (vertical) component is passed on unchanged. This holds at every "
    "point of every edge, for any number of tiles and every array layout in use.",
    ["inputs", "configurations", "schedules"],
    "all component values, all edge coordinates, all panel edges and orientations; 6, 24 and 54 processes",
    "The tests check a few wind fields at the grid's own points for the contravariant case with a tolerance; "
    "covariant exchange is not tested at all and one of its 24 edge formulas was in fact wrong.",
    ["wx_factory/process_topology.py"],
    [("per-panel conversion formulas", "ProcessTopology.__init__ (convert_contra, convert_cov)"),
     ("exchange", "ProcessTopology.start_exchange_vectors"), ("unpacking", "VectorExchangeRequest")],
    SYM,
    "Vector components and the coordinate along the edge are free reals; the conversions are compared with the "
    "change of basis derived from an independent description of the gnomonic panels.",
)
prop(
    "P03",
    "Gathering tiles and distributing a cube are inverse and keep every point",
    "Gathering the tiles of a panel or of the whole cube on one process puts every tile's value at its place in the "
    "global (panel, row, column, point) order, and distributing a global cube gives each process exactly the values "
    "of its own tile; gather followed by distribute (or the reverse) is the identity. This holds for any number of "
    "tiles, of fields and levels, and of points per element.",
    ["inputs", "configurations", "schedules"],
    "all field values; 1 to 9 tiles per panel (25 in depth), 2-D and 3-D layouts",
    "The tests run two process counts with one array shape each; an index mix-up that is symmetric for square test "
    "shapes or single tiles per panel is not seen.",
    ["wx_factory/process_topology.py"],
    [("gather", "ProcessTopology.gather_tiles_to_panel, gather_cube"), ("distribute", "ProcessTopology.distribute_cube")],
    SYM,
    "Field values are free; every output entry is compared with the global order given by the tile numbering.",
)
prop(
    "P04",
    "Single-process sections: one executes, all agree on the outcome",
    "Work delegated to a single process of a group is executed by exactly that process, exactly once. If it succeeds, "
    "every process of the group continues and obtains the value it produced; if it fails, the failure surfaces on the "
    "process that failed and no other process continues past the section, so that nobody is left waiting in a later "
    "collective operation. This holds for any group size, any choice of executing process, any produced value and any "
    "order in which processes arrive.",
    ["inputs", "schedules", "fault_sequences"],
    "success or failure of the section, produced values (numbers, empty and false values, objects), group sizes 1-5, "
    "executing process, arrival orders",
    "The tests run one success and one failure on a fixed process in one schedule.",
    ["wx_factory/wx_mpi.py"],
    [("section", "SingleProcess, MultipleProcesses, Conditional"), ("one-shot", "do_once")],
    SYM + "; failure is a symbolic branch",
    "Failure or success is a symbolic condition explored on both sides; values are free; schedules are the listed "
    "arrival orders of a deterministic rank simulator.",
)

# --- more properties are appended by the modules below
EXTRA = os.path.join(HERE, "tools", "props_extra.py")
if os.path.exists(EXTRA):
    exec(compile(open(EXTRA).read(), EXTRA, "exec"))


def write():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _, _ in PROPS:
            f.write(json.dumps(p) + "\n")
    na_ids = {n["property"] for n in NA}
    man = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"bash run.sh {p['id']}",
                "thorough_cmd": f"bash run.sh {p['id']} --tier thorough",
                "technique": t,
                "level": "other",
                "level_note": n,
            }
            for p, t, n in PROPS
            if p["id"] not in na_ids
        ],
        "not_applicable": NA,
        "notes": "Solver-based checking of the real code throughout: see DESIGN.md. No hooks in /repo are needed.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    write()
