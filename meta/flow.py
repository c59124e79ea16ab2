PROPS = [
 dict(id="C19", title="A pipeline is its steps by hand, a grid search every combination by hand",
  statement="Fitting a Pipeline gives its last step exactly what fitting, transforming and passing the triangle on by hand gives, with sample_weight reaching the last step, and predict or transform on another triangle gives what the fitted steps give one after the other. A GridSearch reports one row for every combination of the parameter values, each with the scores the estimator fitted by hand with those values has, and leaves the estimator it was given alone.",
  quantifier={"over": ["inputs", "histories"], "text": "every pipeline of development, tail and method steps and every grid over their parameters, on every triangle, with and without exposure, before and after a JSON trip, either backend"},
  why_tests_cant="the equivalence quantifies over step lists, parameter grids and triangles; the tests pin one pipeline and one grid",
  anchors={"files": ["chainladder/workflow/gridsearch.py", "chainladder/core/io.py"], "mechanism": [{"name": "Pipeline", "where": "workflow/gridsearch.py"}, {"name": "GridSearch.fit", "where": "workflow/gridsearch.py"}], "observe_at": ["Pipeline.fit, predict, transform, fit_transform, to_json", "GridSearch.fit: results_"], "hook_needed": None},
  note="Flow.tla: the steps done by hand are operands of the judged call and are themselves judged by Dev.tla, Method.tla and Mack.tla."),
 dict(id="C20", title="A voting ultimate is the weighted average of its members, origin by origin",
  statement="The ultimate of a VotingChainladder is, for each row, column and origin, the sum of weight times member ultimate over the members that are not dropped, divided by the sum of those weights, where the weights come from the array, list, mapping or callable given, and origins without one get default_weighting, or equal weights. Fitting never changes the parameters of the ensemble or of its members.",
  quantifier={"over": ["inputs"], "text": "every ensemble of two to four methods with dropped members and exposure, weights of every admitted form and dimension, triangles of any number of rows, columns, origins and ages, fitted again on other data, either backend"},
  why_tests_cant="weight forms, dropped members and non-square triangles combine; the tests use one square triangle and three forms",
  anchors={"files": ["chainladder/workflow/voting.py"], "mechanism": [{"name": "VotingChainladder.fit", "where": "workflow/voting.py"}, {"name": "_get_ultimate", "where": "workflow/voting.py"}], "observe_at": ["VotingChainladder.fit: ultimate_, ibnr_"], "hook_needed": None},
  note="VoteFit of Flow.tla on top of the member ultimates of Method.tla."),
]
