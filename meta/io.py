Q_T = {"over": ["inputs"], "text": "every table of index labels, origins, valuations and amounts within the enumerated families (10 grains, all starting months, 1-4 rows of up to 3 labels, 1-3 columns, repeated, missing and misdated records, ten spellings of dates, row orders)"}
Q_H = {"over": ["inputs", "histories"], "text": "every triangle reachable by the enumerated calls from triangles of ten grains, with and without carried patterns, and every estimator with its parameters and fit"}
PROPS = [
 dict(id="C01", title="A triangle built from a table holds exactly the table's amounts",
  statement="Building a Triangle from records puts the sum of the amounts of all records sharing labels, origin period and valuation period into the cell of that row, origin and age, and nothing anywhere else: missing amounts count zero, records valued before their origin starts are left out, and row order and the spelling of dates do not matter. The grain is the coarsest that tells apart the months that occur, origins run without gaps to the valuation date, ages are those some origin can have at the valuations, the valuation date is the latest one, ultimates make up one last age, and the table passed in is left as it was. Text amounts, repeated columns and undatable development are refused.",
  quantifier=Q_T,
  why_tests_cant="grain inference, gap filling, duplicate aggregation, date spellings and ultimates interact; the tests build a few sample files in one spelling each",
  anchors={"files": ["chainladder/core/triangle.py", "chainladder/core/base.py"], "mechanism": [{"name": "Triangle.__init__, _split_ult", "where": "core/triangle.py"}, {"name": "_to_datetime, _get_grain, _get_date_axes, _aggregate_data, _set_values", "where": "core/base.py"}], "observe_at": ["cl.Triangle(...): all axes, valuation date, grains, values"], "hook_needed": None},
  note="Construct and WithUlt of Io.tla. Origin dates are firsts of the month or year/period spellings (mid-month days only where months are told apart); the order of index rows is left open."),
 dict(id="C10", title="JSON and pickle give back the same triangle and the same estimator",
  statement="Pickling and unpickling a triangle or a fitted estimator gives an equal object, attributes and patterns included. Writing a triangle to JSON and reading it back gives the same labels, axes, valuation date, cumulative and valuation form and amounts, with the patterns it carries; an estimator comes back from JSON with the same class and the same parameters, and nothing fitted. None of this changes the object written.",
  quantifier=Q_H,
  why_tests_cant="the JSON trip rebuilds the triangle from its table, so it depends on grain, form, row count, gaps and digits; the tests write three samples",
  anchors={"files": ["chainladder/core/io.py", "chainladder/utils/utility_functions.py"], "mechanism": [{"name": "TriangleIO.to_json, EstimatorIO.to_json, to_pickle", "where": "core/io.py"}, {"name": "read_json, read_pickle", "where": "utils/utility_functions.py"}], "observe_at": ["the object read back and the object written"], "hook_needed": None},
  note="RoundTrip of Io.tla. The JSON trip of a triangle is judged where its table determines its axes (SaysAll): populated ends, at least one amount, no amounts before origins start."),
 dict(id="C29", title="Tables made from triangles show every amount once under its own labels",
  statement="to_frame with all dimensions kept has one record for every populated cell, with its index labels, origin, age or valuation and the amounts of every column, and no other record; without, a triangle of one row and column is the origin by age grid and any other with at most two long axes is the grid of those axes, labelled by them and holding exactly the amounts. Building a triangle from the full table gives the triangle back.",
  quantifier=Q_H,
  why_tests_cant="which axes are long, valuation form, empty cells, absent columns and grain change the layout; the tests look at a few samples",
  anchors={"files": ["chainladder/core/pandas.py", "chainladder/core/display.py"], "mechanism": [{"name": "TrianglePandas.to_frame", "where": "core/pandas.py"}, {"name": "_repr_format", "where": "core/display.py"}], "observe_at": ["to_frame() under every option"], "hook_needed": None},
  note="FrameExpect of Io.tla; patterns, half-year valuation names and columns named like labels are left open."),
]
