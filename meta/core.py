Q_IN = lambda t: {"over": ["inputs"], "text": t}
Q_H = lambda t: {"over": ["inputs", "histories"], "text": t}
PROPS = [
 dict(id="C02", title="Cumulative and incremental views describe the same amounts",
  statement="Converting a triangle to cumulative gives, at each age, the sum of the amounts up to that age, and converting to incremental gives the successive differences; the two conversions undo each other, nothing is created beyond the valuation date, and a conversion to the form already held changes nothing. Development factors accumulate multiplicatively from the right instead. With the in-place option the object itself becomes the converted triangle; otherwise it is untouched.",
  quantifier=Q_H("every triangle of amounts or factors on any index, columns, grain, backend and pattern of missing cells, reached by any sequence of earlier calls"),
  why_tests_cant="the tests convert a few sample triangles; missing cells, sparse backend, single ages, valuation axes and slices multiply into cases no sample covers",
  anchors={"files": ["chainladder/core/triangle.py"], "mechanism": [{"name": "incr_to_cum", "where": "core/triangle.py"}, {"name": "cum_to_incr", "where": "core/triangle.py"}, {"name": "nan_triangle", "where": "core/base.py"}], "observe_at": ["Triangle.incr_to_cum", "Triangle.cum_to_incr"], "hook_needed": None},
  note="Exhaustive call sequences to depth 2 on small bases plus seeded sessions on random triangles, each event compared by TLC with IncrToCum/CumToIncr; cells compared at 1e-8."),
 dict(id="C03", title="Age and valuation axes are two labellings of the same cells",
  statement="Re-expressing a triangle by valuation date, or back by age, keeps every amount with its index row, column, origin period and valuation date, and going there and back restores the original cells. Cells after the valuation date stay empty, and the kind of axis is reported correctly.",
  quantifier=Q_H("every gapless triangle of any origin and development grain, with any missing cells, full or partial, cumulative or incremental, sliced and filtered by earlier calls"),
  why_tests_cant="the tests compare round trips on a handful of complete triangles; missing first rows, sliced axes and sparse storage select different code paths",
  anchors={"files": ["chainladder/core/triangle.py"], "mechanism": [{"name": "dev_to_val, val_to_dev, _val_dev", "where": "core/triangle.py"}, {"name": "valuation", "where": "core/triangle.py / core/base.py"}], "observe_at": ["Triangle.dev_to_val", "Triangle.val_to_dev"], "hook_needed": None},
  note="Every relabelled cell is compared with DevToVal/ValToDev of Tri.tla; axes with gaps are outside the domain."),
 dict(id="C04", title="Coarser grains sum origins and keep period-end development",
  statement="Changing grain gives each coarser origin the sum of its finer origins at the same valuation date, keeps for cumulative triangles the valuations that end each coarser development period counted back from the latest one (and sums the period for incremental triangles), and never changes the latest diagonal's total. Requests for a finer grain or an impossible combination are rejected.",
  quantifier=Q_H("every gapless triangle in yearly, quarterly or monthly grain, trailing or calendar, cumulative or incremental, on either backend, for every target grain"),
  why_tests_cant="grain tests use a few fully populated samples (and most cannot run in this environment); partial first and last periods and fiscal closes are combinatorial",
  anchors={"files": ["chainladder/core/triangle.py"], "mechanism": [{"name": "grain", "where": "core/triangle.py"}], "observe_at": ["Triangle.grain"], "hook_needed": None},
  note="Grain of Tri.tla is the oracle for every transition; semi-annual grain is excluded (see known findings)."),
 dict(id="C05", title="Slicing and filtering select exactly the requested cells",
  statement="Positional and label indexing, column selection, boolean filters on index, origin, age or valuation, head/tail, the latest diagonal and removal of empty edges return exactly the requested rows, columns and cells with their own labels and amounts. A filter by valuation empties every cell outside the filter and drops only periods with no selected cell, and the valuation date of a slice never exceeds what the slice contains.",
  quantifier=Q_H("every triangle and every well-formed index expression: integers, negative integers, slices with steps, lists, labels, ranges, comparisons, on each axis and in combination, after any earlier calls"),
  why_tests_cant="the tests slice sample triangles with a few expressions; backend, step, sign, ellipsis and axis combinations are unbounded",
  anchors={"files": ["chainladder/core/slice.py", "chainladder/core/pandas.py", "chainladder/core/triangle.py"], "mechanism": [{"name": "_LocBase.get_idx, Location, Ilocation, At, Iat", "where": "core/slice.py"}, {"name": "TriangleSlicer._slice_valuation/_slice", "where": "core/slice.py"}, {"name": "dropna", "where": "core/pandas.py"}], "observe_at": ["Triangle.loc/iloc/at/iat/[]", "Triangle.latest_diagonal", "Triangle.dropna"], "hook_needed": None},
  note="All argument menus exhaustively at depth 1-2 on small bases (both backends) and seeded sessions; Slice/SelValn/LatestDiagonal/DropNa of Tri.tla are the oracle."),
 dict(id="C06", title="Arithmetic aligns triangles by label before combining cells",
  statement="Adding, subtracting, multiplying or dividing two triangles combines cells with equal index, column, origin and development labels, broadcasting single-entry axes and coarser index levels, whatever the order of rows and columns in either operand. A cell missing from one operand counts as zero in sums and differences and leaves products and quotients missing, and the result keeps the later valuation date. Arithmetic and comparison with numbers act cell by cell.",
  quantifier=Q_H("every pair of triangles of one grain, with any overlap and order of index rows, columns, origins and ages, any backends, and every operator"),
  why_tests_cant="alignment depends on the relation between two operands (subset, permutation, overlap, singleton, levels) on four axes at once; the tests use a few pairs",
  anchors={"files": ["chainladder/core/dunders.py"], "mechanism": [{"name": "_validate_arithmetic, _prep_index, _prep_columns, _prep_origin_development", "where": "core/dunders.py"}, {"name": "_arithmetic_cleanup", "where": "core/dunders.py"}], "observe_at": ["+ - * / ** < <= == round abs neg on Triangle"], "hook_needed": None},
  note="Arith of Tri.tla; order of newly united index rows is left open (only required to be a permutation)."),
 dict(id="C07", title="Aggregation and grouping partition the triangle",
  statement="Summing or otherwise aggregating along index, columns, origin or development combines exactly the non-missing cells that share the other three labels, and grouping index rows by any of their levels yields one row per distinct label holding the aggregate of exactly the rows with that label. Totals are preserved by sums, the result is labelled accordingly, and a fully reduced triangle becomes a number.",
  quantifier=Q_H("every triangle, axis (by name, position or negative position), supported aggregate function and set of index levels, on both backends"),
  why_tests_cant="tests aggregate small samples along one or two axes; missing cells, label order and backend give different paths for each function",
  anchors={"files": ["chainladder/core/pandas.py"], "mechanism": [{"name": "add_triangle_agg_func", "where": "core/pandas.py"}, {"name": "TriangleGroupBy / add_groupby_agg_func", "where": "core/pandas.py"}], "observe_at": ["Triangle.sum/mean/max/min/median/prod/var/std", "Triangle.groupby(...)"], "hook_needed": None},
  note="Agg and GroupBy of Tri.tla; row order of groups is adopted from the observation after checking it is a permutation."),
 dict(id="C09", title="Calls never change other triangles, and copies are independent",
  statement="No call changes any triangle other than the one it is documented to update in place; results, slices and copies share no mutable state with their sources, so a later assignment to one is never visible through another. An in-place call updates its receiver to exactly the value the same call would have returned.",
  quantifier=Q_H("every history of calls (up to the explored length) over a heap of triangles, mixing conversions, slices, arithmetic, cell and column assignment, renaming and copying on either backend"),
  why_tests_cant="aliasing only shows when one object is observed after a call on another; the tests check return values and rarely re-examine operands",
  anchors={"files": ["chainladder/core/triangle.py", "chainladder/core/slice.py", "chainladder/core/common.py"], "mechanism": [{"name": "Triangle.copy", "where": "core/triangle.py"}, {"name": "_set_slicers, __setitem__, VirtualColumns", "where": "core/slice.py"}, {"name": "set_backend", "where": "core/common.py"}], "observe_at": ["every Triangle method"], "hook_needed": None},
  note="After every event the whole heap is re-projected and TLC rejects any change to an object the specification does not allow to change."),
 dict(id="C11", title="Structural edits keep amounts attached to their labels",
  statement="Concatenating or appending triangles stacks their cells along the chosen axis with columns matched by name, so splitting a triangle and joining the parts restores it; adding or replacing a column, renaming labels, sorting the index and shifting along an axis move or relabel cells without altering any other amount. Operands with overlapping labels or mismatched axes are rejected.",
  quantifier=Q_H("every triangle, split point, axis and column order, pairs with disjoint or overlapping labels, on both backends"),
  why_tests_cant="tests join a few matching samples; differing column order, missing columns and mixed backends are not sampled",
  anchors={"files": ["chainladder/utils/utility_functions.py", "chainladder/core/pandas.py", "chainladder/core/triangle.py", "chainladder/core/slice.py"], "mechanism": [{"name": "concat", "where": "utils/utility_functions.py"}, {"name": "append, rename, sort_index", "where": "core/pandas.py"}, {"name": "shift", "where": "core/triangle.py"}, {"name": "__setitem__", "where": "core/slice.py"}], "observe_at": ["cl.concat", "Triangle.append/rename/sort_index/shift/[]="], "hook_needed": None},
  note="Concat2/SetCol/Rename/Shift of Tri.tla decide each event."),
]
NA = []
