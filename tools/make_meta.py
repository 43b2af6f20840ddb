"""
Single source of properties.jsonl and MANIFEST.json

    python3 tools/make_meta.py
"""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/mpllayout/"

EXPL = "exploration"
MC = "model_checking"


def p(id, title, statement, over, text, cant, files, mech, level, technique, note, observe=()):
    return dict(
        id=id, title=title, statement=statement, over=over, text=text, cant=cant, files=files,
        mech=mech, level=level, technique=technique, note=note, observe=list(observe),
    )


PROPS = [
    p("C01", "Solved layouts satisfy every constraint that was added",
      "Solving a layout whose constraints can be satisfied returns primitives that satisfy every constraint, judged by the "
      "documented geometric meaning of each constraint. If the constraints determine the geometry, it is that geometry "
      "(within solver tolerance), whatever the order in which primitives and constraints were added, the names of the "
      "primitives and the initial geometry of figure and axes. It holds for every documented constraint alone and in "
      "combination, and in single and double precision.",
      ["inputs", "configurations"],
      "all combinations of margins and sizes per direction, sides, constraint orders, redundancy, names, initial geometries, numbers of "
      "axes, grid shapes; all single constraints and pairs (triples) of a consistent scene",
      "tests solve a handful of layouts with one order, one naming scheme and default initial geometry, and mostly compare "
      "residuals computed by the same constraints",
      ["solver.py", "layout.py", "constraints.py"],
      [("Newton/least squares iteration on concatenated residuals", "solver.py:solve_newton"),
       ("flat residual assembly", "layout.py:Layout.flat_constraints, solver.py:assem_constraint_residual")],
      EXPL, "exhaustive enumeration of layouts in bounds, real solver, independent geometric oracle",
      "every layout in the stated finite families is solved by the real code and compared with independently computed "
      "rectangles or constraint definitions; nothing is sampled. Starts of non-linear scenes are near a solution.",
      ["solver.solve", "Layout.add_constraint"]),
    p("C02", "Solving preserves structure, types, sharing and unrelated primitives",
      "The solution has the same keys in the same order and the same primitive types as the layout that was solved; points "
      "shared between primitives stay shared and no others become shared, and primitives that no constraint involves keep "
      "their coordinates. The layout that was solved is not modified, also not by later edits of the solution. Solving a "
      "solution again does not change it.",
      ["inputs", "configurations"],
      "all set partitions of shared points over two primitives, every documented constraint in a layout with unrelated "
      "primitives of every documented and of user-defined types, both solver methods",
      "tests solve layouts in which little is shared and look only at a few coordinates of the solution",
      ["solver.py", "primitives.py", "containers.py"],
      [("unique value decomposition and rebuild", "primitives.py:filter_unique_values_from_prim, build_prim_from_unique_values")],
      EXPL, "exhaustive enumeration of sharing patterns and constraints, real solver, structural oracle",
      "every sharing pattern of five vertices and every documented constraint in bounds is solved by the real code; most "
      "solves run uncompiled (jax.disable_jit), a part compiled",
      ["solver.solve"]),
    p("C03", "Solver controls and error lists are truthful",
      "The reported absolute errors are the norms of the constraint residuals at the geometries the solver went through, and "
      "the relative errors are these divided by the first one. Newton iteration stops at the first iteration that meets the absolute or "
      "the relative tolerance and never exceeds the iteration limit. A default argument means its documented "
      "value, and an unknown method is rejected.",
      ["inputs", "histories"],
      "all combinations of iteration limits, absolute/relative tolerances placed between all consecutive error values, "
      "methods and layouts of a catalogue",
      "tests never look at the error lists or change a tolerance",
      ["solver.py"],
      [("Newton loop and stopping tests", "solver.py:solve_newton"), ("callback of the minimizer", "solver.py:solve_minimize")],
      MC, "explicit-state exploration of the iterate sequence; every control setting replayed on the real solver",
      "states are the iterates of each layout; each control combination is a trace run on the real solver and compared with "
      "what the iterate sequence prescribes",
      ["solver.solve"]),
    p("C04", "Point and line constraints vanish exactly on their geometric relation",
      "For all coordinates and parameters, the residual of every point and line constraint is zero if and only if the "
      "documented geometric relation (distance, length, direction, angle, midpoint, collinearity, ...) holds. Its number of "
      "components does not depend on the coordinates.",
      ["inputs"], "all placements of the vertices on finite lattices, all parameters of a list, all constraints",
      "tests evaluate each constraint at one or a few satisfied configurations, and never show that violated ones give a "
      "non-zero residual",
      ["constraints.py", "constructions.py"], [("residual definitions", "constraints.py, constructions.py")],
      EXPL, "exhaustive lattice enumeration on the real constraints against independent geometry",
      "every placement on the stated lattices is evaluated on the real code; other coordinates are not covered",
      ["constraint call"]),
    p("C05", "Rectangle, margin and alignment constraints vanish exactly on their relation",
      "For all rectangles and parameters, the residual of every size, aspect ratio, margin, alignment, face and margin array "
      "constraint on quadrilaterals is zero if and only if the documented relation holds, with sides and signs as documented. "
      "The box constraint vanishes exactly on quadrilaterals with horizontal and vertical sides.",
      ["inputs"], "all rectangles and pairs of rectangles of a menu, general quadrilaterals on a lattice, arrays of 2 to 5",
      "tests use one or two rectangles per side and satisfied configurations only",
      ["constraints.py", "constructions.py"], [("residual definitions", "constraints.py, constructions.py")],
      EXPL, "exhaustive menu/lattice enumeration on the real constraints against independent geometry",
      "every placement of the stated menus is evaluated on the real code; other coordinates are not covered",
      ["constraint call"]),
    p("C06", "Grid constraints hold exactly when all rectangles form the given grid",
      "For every grid shape, the residual of the grid constraints on rectangles is zero if and only if all rectangles form "
      "the grid: rows from top to bottom and columns from left to right aligned, with the given relative widths and heights "
      "and the given margins between consecutive columns and rows.",
      ["inputs", "configurations"], "all shapes up to a bound x parameters x exact, displaced, resized and exchanged arrangements",
      "tests use shapes up to 2x2 or so with uniform dimensions, in satisfied configurations",
      ["constraints.py"], [("child constraints and index arithmetic of grids", "constraints.py:RectilinearGrid, Grid")],
      EXPL, "exhaustive enumeration of grid shapes, parameters and perturbations on the real constraints",
      "every shape/perturbation in bounds is evaluated; general quadrilaterals in a grid only through Box and Align",
      ["constraint call"]),
    p("C07", "Axis position, label and thickness constraints act on the right parts",
      "For every axes configuration, the axis position constraints are zero exactly when the axis (and its twin on the "
      "opposite side) lies outside against the given frame side, the label constraints exactly when the label is at the given "
      "fraction of the frame's width or height, and thickness constraints without a measured axis exactly when the axis has "
      "zero thickness. Other parts of the axes have no influence.",
      ["inputs", "configurations"], "all axes flags x sides x twin x placements of axis rectangles and labels",
      "tests cover a few sides and satisfied configurations",
      ["constraints.py", "primitives.py"], [("child primitive keys", "constraints.py:PositionAxis, PositionAxisLabel, AxisThickness")],
      EXPL, "exhaustive enumeration of axes configurations on the real constraints against independent geometry",
      "every placement of the stated menus is evaluated on the real code",
      ["constraint call"]),
    p("C08", "Constructions return the documented geometric quantity",
      "For all coordinates and parameters, every construction (coordinates, vectors, lengths, distances, midpoints, angles, "
      "widths, heights, aspect ratios, margins) returns the documented quantity, with the documented sign and shape.",
      ["inputs"], "all placements of the vertices on finite lattices, all parameters of a list, all constructions",
      "tests evaluate a few constructions at one configuration",
      ["constructions.py"], [("construction definitions", "constructions.py")],
      EXPL, "exhaustive lattice enumeration on the real constructions against closed forms",
      "every placement on the stated lattices is evaluated on the real code",
      ["construction call"]),
    p("C09", "Combined constructions equal the same arithmetic on their values",
      "A construction built from others by negation, sums, products, quotients, powers, partial parameters, mapping over "
      "primitives, or turning into a constraint has the value of the same arithmetic on the parts' values, at any nesting depth, "
      "and takes the corresponding number of primitives and parameters. The parts themselves keep their values.",
      ["programs", "inputs"], "all well-typed expressions up to a depth over a set of atoms and operators",
      "tests check each operator once at depth one",
      ["constructions.py"], [("construction transformations", "constructions.py:transform_*")],
      EXPL, "exhaustive enumeration of expressions up to a depth, denotational oracle",
      "every expression up to the depth bound is built and called on the real code",
      ["construction operators"]),
    p("C10", "A constraint has the same residual wherever it is used",
      "The residual components of a constraint are the same when called directly, in a layout, next to any other constraints, under "
      "any names and nesting of its primitives, compiled or not, and for any numeric type of its parameters. This holds also "
      "if its primitives are repeated or share points with each other.",
      ["inputs", "configurations"], "all documented constraints x naming schemes x positions in a layout x call forms; all ordered pairs",
      "tests call constraints directly with one naming scheme, or only solve",
      ["constructions.py", "layout.py", "solver.py"],
      [("primitive key substitution", "constructions.py:ConstructionNode.child_prim_keys, root_prim_keys"),
       ("flat residual assembly", "layout.py:Layout.flat_constraints, solver.py:assem_constraint_residual")],
      EXPL, "exhaustive enumeration of uses, differential oracle (direct call)",
      "every documented constraint in every listed form is evaluated on the real code",
      ["constraint call", "Layout.flat_constraints"]),
    p("C11", "Wrong primitives or parameters are rejected, correct ones accepted",
      "Constraints and constructions accept exactly the documented number and types (including subtypes) of primitives and "
      "number of parameters, both called directly and added to a layout; anything else raises an error, also if it is passed "
      "on to the constructions that a construction consists of. A rejected constraint leaves the layout unchanged.",
      ["inputs"], "all type sequences up to a length x parameter counts x missing keys, for every constraint and construction; user-defined compounds with one primitive or parameter too few or too many",
      "tests check a single mismatch",
      ["constructions.py", "layout.py", "primitives.py"],
      [("validation of primitives and parameters", "constructions.py:validate_prims, validate_params; primitives.py:validate_prims")],
      EXPL, "exhaustive enumeration of argument type sequences and counts, specification oracle",
      "every sequence in bounds is tried on the real code; the exception type is not prescribed",
      ["constraint call", "Layout.add_constraint"]),
    p("C12", "Layouts stay consistent through every editing history",
      "After any history of adding primitives and constraints, including rejected calls, a layout holds exactly what was "
      "added, in order and under the requested or new automatic keys, with every constraint paired with its own primitives "
      "and parameters. Histories of different layouts do not influence each other.",
      ["histories"], "all histories of valid and invalid edits up to a depth, and interleavings over two layouts",
      "tests build one layout by one history",
      ["layout.py", "containers.py"],
      [("aligned trees for constraints, primitive keys and parameters", "layout.py:Layout.add_constraint"),
       ("automatic keys", "containers.py:ItemCounter")],
      MC, "explicit-state search over edit histories, every transition replayed on the real Layout against a model",
      "all histories up to the depth over the stated alphabet; every transition is executed on the real code",
      ["Layout"]),
    p("C13", "Layout updates change exactly the named parameters and nothing else",
      "Updating parameters gives a parameter tree equal to that of a layout built with the new values: the named constraints "
      "get them, all others keep theirs, and the original is unchanged. An updated layout and its original are independent "
      "under any later history of edits and updates.",
      ["histories", "inputs"], "all parameter assignments and update calls; all histories of updates and edits up to a depth",
      "tests do not update parameters of nested constraints or edit after updating",
      ["layout.py", "constructions.py"], [("parameter tree update", "layout.py:update_root_param, update_layout_constraints")],
      MC, "explicit-state search over parameter states and update/edit histories on the real code against a model",
      "all assignments and histories in bounds; every transition is executed on the real code",
      ["update_root_param", "update_layout_constraints"]),
    p("C14", "Trees behave as ordered nested mappings under every edit history",
      "After any history of additions and assignments at any path, keys, order, membership, lookup by path, integer or slice, "
      "length, iteration and height agree with an ordered nested mapping. Invalid edits and lookups raise a key error and change nothing.",
      ["histories", "inputs"], "all edit histories over label alphabets up to a tree size, all query paths",
      "tests build one or two trees and look up a few keys",
      ["containers.py"], [("recursive child access", "containers.py:Node")],
      MC, "explicit-state search over tree edit histories on the real Node classes against a nested-list model",
      "all trees up to the stated size; every transition is executed on the real code",
      ["containers.Node"]),
    p("C15", "Tree traversals and transformations lose nothing",
      "Flattening and rebuilding, copying, mapping, accumulating and jax tree operations keep every node's key, order, type "
      "and value for every tree shape. Primitives survive them, and compiled functions, with their types and shared points.",
      ["inputs"], "all ordered tree shapes up to a size x labellings x types x operations; all primitive types and sharing patterns",
      "tests round-trip a few trees whose keys are in alphabetical order",
      ["containers.py", "primitives.py"],
      [("flatten/unflatten and pytree registration", "containers.py"), ("unique values", "primitives.py:filter_unique_values_from_prim")],
      EXPL, "exhaustive enumeration of trees up to a size against a recursive specification",
      "every tree in bounds goes through every operation of the real code",
      ["containers.flatten", "containers.unflatten", "containers.map", "jax.tree"]),
    p("C16", "Primitives consist of exactly the documented parts",
      "A primitive can be built exactly from the documented child primitives and values, which then are at the documented "
      "keys; polygons of any size are closed loops through the given points, and axes have exactly the parts their options ask "
      "for. Coordinates are copied, so that later changes of the given arrays have no effect.",
      ["inputs", "configurations"], "all child type sequences up to a length, polygon sizes, axes options, user-defined signatures, histories of array changes",
      "tests construct one instance of each primitive",
      ["primitives.py"], [("child construction and validation", "primitives.py:Primitive.init_children, PrimitiveNode")],
      EXPL, "exhaustive enumeration of constructor arguments against the documentation",
      "every argument combination in bounds is tried on the real code",
      ["primitives"]),
    p("C17", "Figures and axes get the size and position of their primitives",
      "The created or updated figure has the size of its primitive in inches and every axes has the position and size of its "
      "frame relative to the figure's lower left corner, for any figure position, keys and number of axes. Without given keys "
      "exactly the top-level primitives named as axes are created. After any sequence of updates, figure and axes equal freshly created ones.",
      ["inputs", "histories"], "all figure positions/sizes x frames on a lattice x key sets; all sequences of updates up to a depth",
      "no test creates matplotlib figures from layouts with a figure away from the origin or updates them",
      ["matplotlibutils.py"], [("figure-relative rectangles", "matplotlibutils.py:update_subplots, rect_from_box")],
      MC, "explicit-state search over update histories of real matplotlib figures, independent rectangle oracle",
      "all menus and histories in bounds are run with the real matplotlib (Agg)", ["subplots", "update_subplots"]),
    p("C18", "Axis labels and ticks are drawn where their primitives are",
      "Axis labels are anchored at the position of their point relative to the figure, and the ticks of each axis are on the "
      "side of the frame that its axis primitive lies on, for every side and figure position, and also after the label's text is set. Axes without such parts keep matplotlib's placement. "
      "After any sequence of updates of axes with the same parts, labels and ticks are where a freshly created figure has them.",
      ["inputs", "histories"], "all combinations of sides, label points, figure origins and axes options; all sequences of updates up to a depth",
      "no test looks at the labels or ticks of the created axes",
      ["matplotlibutils.py"], [("label coordinates and tick sides", "matplotlibutils.py:update_subplots, find_axis_position")],
      MC, "explicit-state search over update histories of real matplotlib axes, independent position oracle",
      "all menus and histories in bounds are run with the real matplotlib (Agg)", ["subplots", "update_subplots"]),
    p("C19", "Measured axis thickness reaches the layout and changes nothing else",
      "The thickness used for an axis is the extent from the frame side to the outer edge of its visible tick labels "
      "(without the axis label) in inches, for any tick side, font, rotation and resolution. Updating a layout with the "
      "created axes replaces exactly the thickness parameters with those of the matching axes, and measuring leaves the axes as they were. "
      "After updating and solving a layout every such axis has the measured thickness, in any sequence of style changes and updates.",
      ["inputs", "histories"], "all combinations of tick styles, sides, label options, axes keys; sequences of measure/solve/update",
      "tests measure one default axis and compare with the same function",
      ["constraints.py", "layout.py"], [("tight bounding box without the label", "constraints.py:AxisThickness, get_axis_thickness"),
                                        ("replacing thickness parameters", "layout.py:update_layout_constraints")],
      MC, "explicit-state search over axis styles and feedback loops on real matplotlib, renderer-extent oracle",
      "extents are taken from matplotlib's own tick artists; all styles and histories in bounds", ["update_layout_constraints"]),
    p("C20", "Drawn primitives show every point, line and polygon at its coordinates",
      "Plotting primitives draws every free-standing point, every line of non-zero length and every polygon exactly once at its "
      "coordinates, for any nesting, labelled by its key (lines along their direction) and in one colour per top-level primitive. Given labels and styles are applied "
      "and all optional arguments may be omitted. The drawn primitives are not changed and nothing is drawn elsewhere.",
      ["inputs"], "all primitive types and nestings up to a bound, all line directions on a lattice, all option combinations",
      "no test calls the plotting functions",
      ["ui.py"], [("plot functions per primitive type", "ui.py")],
      EXPL, "exhaustive enumeration of primitives, independent list of expected artists",
      "artists of real matplotlib axes are compared; styling details other than the stated ones are not judged", ["ui.plot_prims"]),
    p("C21", "Layouts become figures with the requested sizes, as reusable templates",
      "A figure created from a solved layout has the requested figure size, margins, axes sizes and gaps, in inches. Changing "
      "the parameters of a layout and solving it again, in any sequence of changes, gives the same figure as building the "
      "layout with those parameters from the start.",
      ["inputs", "histories"], "all sequences of parameter changes up to a depth over templates with one axes, rows, columns and grids",
      "no test follows a layout to the created figure or re-uses it with other parameters",
      ["solver.py", "layout.py", "matplotlibutils.py"],
      [("solve, create, update workflow", "solver.py:solve, matplotlibutils.py:subplots, layout.py:update_root_param")],
      MC, "explicit-state search over template re-parameterisation histories on the full real workflow",
      "all parameter states and histories in bounds; sizes are read from the real matplotlib objects", ["subplots"]),
]

NOT_BUILT = "check under construction"


def built(id):
    return os.path.exists(os.path.join(ROOT, "mc", "checks", f"{id.lower()}.py"))


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for q in PROPS:
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps({
                "id": q["id"], "title": q["title"], "statement": q["statement"],
                "quantifier": {"over": q["over"], "text": q["text"]},
                "why_tests_cant": q["cant"],
                "anchors": {
                    "files": [SRC + x for x in q["files"]],
                    "mechanism": [{"name": n, "where": w} for n, w in q["mech"]],
                    "observe_at": q["observe"], "hook_needed": None,
                },
            }) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [
            {
                "property": q["id"],
                "quick_cmd": f"bash run.sh {q['id']} quick",
                "thorough_cmd": f"bash run.sh {q['id']} thorough",
                "evidence_file": f"evidence/{q['id']}.json",
                "technique": "model checking: " + q["technique"],
                "level": q["level"],
                "level_note": q["note"],
            }
            for q in PROPS if built(q["id"])
        ],
        "not_applicable": [{"property": q["id"], "reason": NOT_BUILT} for q in PROPS if not built(q["id"])],
        "notes": "No hooks: the checks use only the public API of /repo/src (pure Python, imported from the working tree).",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
