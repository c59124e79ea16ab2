PROPS = [
 dict(id="C25", title="Berquist-Sherman restates inner diagonals at the latest adequacy and speed",
  statement="BerquistSherman leaves the latest diagonal as observed and restates every earlier cell: incurred amounts become paid plus open counts times the latest average case reserve of that age, taken back to the cell's valuation at the trend; closed counts become the origin's projected ultimate count times the latest disposal rate of that age; and paid amounts are read at those closed counts off the exponential through the two neighbouring observations of the same origin. Rows are restated independently, the supplied triangle is not altered, and transforming a triangle replaces exactly the four named columns.",
  quantifier={"over": ["inputs"], "text": "every complete cumulative triangle of positive payments and increasing closed counts, any grain, row and column order, either backend, any trend"},
  why_tests_cant="interpolation intervals are looked up per row, origin and cell, and the look-up must respect what each origin has seen; the tests compare totals of two sample triangles",
  anchors={"files": ["chainladder/adjustments/berqsherm.py"], "mechanism": [{"name": "BerquistSherman.fit, transform", "where": "adjustments/berqsherm.py"}], "observe_at": ["BerquistSherman.fit: adjusted_triangle_, disposal_rate_", "BerquistSherman.transform"], "hook_needed": None},
  note="BsFit of Adj.tla, with the chain-ladder projection of Method.tla for the ultimate counts. A restated count equal to an observed one up to noise is left open, as is another reported_count_estimator."),
 dict(id="C26", title="Trend moves every amount from its own date to the start date",
  statement="Trending multiplies every known amount by (1 + trend) to the power of the years between its date (the end of its origin period, or its valuation) and the start date, where dates outside the range from `end` to `start` count as its nearest bound; without dates the range runs from the first origin to the valuation date. Labels, shape and valuation date stay, the triangle supplied is not altered, other axes are refused. The Trend estimator compounds successive trends, keeps the resulting factor of every known amount as trend_, and transform attaches those factors without changing amounts.",
  quantifier={"over": ["inputs"], "text": "every triangle by age or by valuation, vectors, incremental or cumulative, any grain, either backend; start and end dates before, inside and after the data, in either order; one to three compounded trends"},
  why_tests_cant="clamping of dates, grain, axis and form of the triangle interact; the tests trend one sample forth and back, which any symmetric mistake survives",
  anchors={"files": ["chainladder/core/triangle.py", "chainladder/adjustments/trend.py"], "mechanism": [{"name": "Triangle.trend", "where": "core/triangle.py"}, {"name": "Trend.fit, transform", "where": "adjustments/trend.py"}], "observe_at": ["Triangle.trend", "Trend.fit: trend_", "Trend.transform"], "hook_needed": None},
  note="Trended and TrendFit of Adj.tla; ultimate_lag is left open."),
 dict(id="C27", title="On-level factors bring each period from its average rate level to the last",
  statement="ParallelogramOLF gives every origin period the ratio of the rate level at the end of the last origin period to the average level of that period: changes compound in order of date whatever their order in the table, each reaches the earned level linearly over the year after it takes effect (at once with vertical_line), and the average is taken over the months or days of the period. Rates that name index levels apply group by group, factors hold for any origin grain, and transform attaches them without changing amounts.",
  quantifier={"over": ["inputs"], "text": "every premium triangle or diagonal of yearly, half-yearly, quarterly or monthly origins starting in any month, any list of changes before, within and after the data and on any day, by group or overall, monthly or daily approximation"},
  why_tests_cant="dates inside months, leap years, origin grains, fiscal years and single-change groups each take another path; the tests check one table of yearly premium",
  anchors={"files": ["chainladder/adjustments/parallelogram.py", "chainladder/utils/utility_functions.py"], "mechanism": [{"name": "ParallelogramOLF.fit", "where": "adjustments/parallelogram.py"}, {"name": "parallelogram_olf", "where": "utils/utility_functions.py"}], "observe_at": ["ParallelogramOLF.fit: olf_", "ParallelogramOLF.transform"], "hook_needed": None},
  note="OlfFit of Adj.tla computes exact shares with day numbers of the calendar; the leap-year window of daily factors for fiscal years is left open."),
]
