"""Text of the properties; tools/mk.py writes properties.jsonl and MANIFEST.json."""

GM = "causy/graph.py"
MODEL = "causy/graph_model.py"
RULES = "causy/causal_discovery/constraint/orientation_rules/pc.py"
TESTS = "causy/causal_discovery/constraint/independence_tests/common.py"
ALGOS = "causy/causal_discovery/constraint/algorithms/pc.py"
GEN = "causy/generators.py"

PROPS = []


def prop(id, title, statement, over, quant, why, files, mech, note):
    PROPS.append(
        dict(
            id=id, title=title, statement=statement, over=over, quant=quant, why=why,
            files=files, mech=[dict(name=n, where=w) for n, w in mech], note=note,
        )
    )


prop(
    "P01", "Graph edits change exactly the addressed edge and all queries agree",
    "Adding, removing, soft-removing, updating or purging an edge changes exactly the addressed edge (both directions for "
    "an undirected edit, one for a directed edit) and leaves every other edge, its type and its metadata untouched. "
    "Afterwards every way of asking about the graph (does an edge of this direction or type exist, who are the parents or "
    "siblings, what are type and metadata, list all edges) gives the answer that follows from the edges that are present "
    "and not removed, and an edit that is not possible is refused without any change.",
    ["inputs", "histories"],
    "every mixed graph (absent, live, removed slots; any edge types) and every single edit on it",
    "tests apply a few edits to a few fixed graphs; an edit that leaks into another slot or leaves the reverse index "
    "behind shows only for particular combinations of existing, missing and removed edges",
    [GM, "causy/edge_types.py", "causy/graph_utils.py"],
    [("forward and reverse edge tables kept in step", GM + ":add_edge/remove_edge/remove_directed_edge/update_edge"),
     ("soft delete flag honoured by queries", GM + ":directed_edge_is_soft_deleted")],
    "all slot states of 2-3 nodes (3 edge types, rows, removed-edge store symbolic), every edit, every query",
)
prop(
    "P02", "Restoring a removed edge brings back exactly what was removed",
    "After an edge (or one direction of it) has been removed, softly or for good, and whatever happened to other edges "
    "in between, restoring it brings back the same direction(s) with the same edge type and the same metadata, and "
    "changes nothing else. Removing and restoring can be repeated without the edge degrading.",
    ["inputs", "histories"],
    "every pre-state in which the edge exists, every removal kind, a set of intermediate edits, the matching restore",
    "tests restore once on a fresh graph; type and metadata loss appears only for particular removal kinds and histories",
    [GM],
    [("deleted edges are kept aside", GM + ":remove_edge/restore_edge/restore_directed_edge"),
     ("purge of soft-deleted edges", GM + ":purge_soft_deleted_edges")],
    "2-3 nodes, removal x intermediate edit x restore, solver decides over all pre-states",
)
prop(
    "P03", "Pipeline actions are applied and recorded exactly when they are applicable",
    "Executing proposed actions changes the graph exactly as the applicable ones say, in order: an action whose edge does "
    "not exist (any more) has no effect at all. The reported taken actions, the edge histories and what update hooks see "
    "are exactly the applied actions; all proposals are reported as proposals, and a dry run changes nothing.",
    ["inputs", "histories"],
    "every graph state, every sequence of two actions on shared or different edges, hooks present or not, dry run or not",
    "tests look at single actions on edges that exist; double removal, removal of one direction and recording of skipped "
    "actions need specific action sequences",
    [MODEL, GM],
    [("guard, apply, record", MODEL + ":_take_action"), ("edge history", GM + ":add_edge_history")],
    "2-3 nodes, sequences of two actions out of seven kinds (three if equal) over all slot states, hooks, dry run",
)
prop(
    "P05", "Each orientation rule orients exactly the edges its premise demands",
    "Each of the four Meek orientation rules, run on any partially directed graph without directed cycles, directs an "
    "undirected edge only if the rule's premise holds there, and (for the rules beyond the first) whenever it holds. "
    "The first rule, which propagates an arrowhead along an unshielded triple, may only skip an edge where another "
    "arrowhead would conflict; no rule adds, removes or re-directs an edge that is already directed.",
    ["inputs"],
    "every mixed graph on 4 nodes with acyclic directed part",
    "tests check one or two textbook graphs per rule; the premise involves up to four nodes with adjacency and "
    "non-adjacency in every position, several thousand graphs",
    [RULES],
    [("rules R1..R4", RULES + ":NonColliderTest/FurtherOrientTripleTest/OrientQuadrupleTest/FurtherOrientQuadrupleTest"),
     ("simultaneous application of proposals", MODEL + ":execute_pipeline_step")],
    "all mixed graphs on 4 nodes (5 in the thorough tier), real generator, step and action execution",
)
prop(
    "P06", "The collider step orients exactly the unshielded colliders",
    "Given a skeleton and a separating set for every removed edge, the collider step directs x into z only if x - z - y is "
    "an unshielded triple whose separating set does not contain z. Every such triple becomes x -> z <- y unless another "
    "such triple demands the opposite direction of one of its edges, and no adjacency is lost, whichever conflict "
    "strategy is chosen.",
    ["inputs", "configurations"],
    "every skeleton on 4 nodes, every choice of separating sets, both conflict resolution strategies",
    "tests use a few fixed skeletons; conflicts and leftovers of removed edges need particular combinations",
    [RULES],
    [("separating sets read from the edge history", RULES + ":ColliderTest"), ("conflict resolution", RULES + ":ColliderTest")],
    "all skeletons on 4 nodes with all separating sets, KEEP_FIRST and KEEP_LAST; sets of up to 4 nodes, several records",
)
prop(
    "P09", "d-separation in a DAG is decided exactly",
    "For every directed acyclic graph, every pair of nodes and every conditioning set, the d-separation query answers "
    "exactly as the definition says (every path blocked), regardless of whether nodes are given as nodes or by id.",
    ["inputs"],
    "every DAG on 4 nodes with all pairs and sets; every DAG on 5 nodes for a pair (all pairs in the thorough tier)",
    "tests ask a few dozen queries on fixed graphs; errors in collider or descendant handling need two colliders on a "
    "path or a descendant in the conditioning set",
    [GM],
    [("paths and blocking", GM + ":are_nodes_d_separated_dag"), ("descendants of colliders", GM + ":descendants_of_node")],
    "all DAGs on 5 nodes, 6 nodes with 5 edges, chains of 9 nodes, against the moralised ancestral graph",
)
prop(
    "P10", "d-separation on a CPDAG agrees with every DAG it represents",
    "For every equivalence class of DAGs given as CPDAG, every pair of nodes and every conditioning set, the d-separation "
    "query on the CPDAG answers exactly what d-separation says in each of the DAGs it represents.",
    ["inputs"],
    "the CPDAG of every DAG on 4 nodes, all pairs and sets; 5 nodes for selected pairs and sets",
    "tests ask a few queries on hand-made CPDAGs; wrong answers need shielded triples or undirected paths in particular places",
    [GM],
    [("definite status paths", GM + ":are_nodes_d_separated_cpdag/_is_path_of_definite_status")],
    "all CPDAGs on 4 nodes for all pairs and sets, on 5 nodes for A,E, chains of 8 nodes",
)
prop(
    "P11", "Reachability and path queries are exact and terminate",
    "On every graph, also with cycles and undirected edges, the query for a directed path says yes exactly if one exists, "
    "and listing directed paths or paths on the underlying undirected graph yields every simple path exactly once and "
    "nothing else. The descendants of a node are the node itself and exactly the nodes reachable over strictly directed "
    "edges, each listed once.",
    ["inputs"],
    "every mixed graph on 4 nodes (cycles and removed edges included), every DAG on 5 nodes",
    "tests use chains and diamonds; cycles, undirected edges and diamond joins interact",
    [GM, "causy/edge_types.py"],
    [("search with visited set", GM + ":directed_path_exists/descendants_of_node/all_paths_on_underlying_undirected_graph"),
     ("path listing", "causy/edge_types.py:directed_paths")],
    "all mixed graphs on 4 nodes, all DAGs on 5 nodes, chains of 8 nodes with one changed link and one shortcut",
)
prop(
    "P14", "Generators offer exactly the work items they promise",
    "The all-combinations generator yields every node set of each configured size exactly once; the edge generator yields "
    "every existing edge direction exactly once, however it is chunked; the neighbour generator yields every adjacent "
    "ordered pair with every subset of the first node's other neighbours of the configured sizes exactly once; the sampling "
    "generator offers a selection of the items of the generator it wraps. Removed edges are not offered, also when the removal "
    "happens while the generator is running, and pairs which stay adjacent are still offered.",
    ["inputs", "configurations"],
    "every skeleton on 4 (5) nodes, all size settings, chunked or not, shuffled or not, one removal at any point",
    "tests mostly drain generators without looking; a missed subset just leaves an edge in the result",
    [GEN],
    [("combinatorics over live edges", GEN + ":AllCombinationsGenerator/PairsWithEdgesInBetweenGenerator/PairsWithNeighboursGenerator")],
    "skeletons on 4-5 nodes, size bounds 0..n+2, chunk sizes 1..12; nearly complete graphs on 9-12 nodes; sampling by any random numbers",
)
prop(
    "P04", "Parallel, chunked and one-by-one execution of a step give the same result",
    "For every step whose answer for one work item does not depend on other items, running it one item at a time, in "
    "chunks, with synchronous application or on a pool of worker processes leaves the same graph behind and reports the "
    "same taken and proposed actions (as sets), whatever the chunk size and whatever order workers finish in. Every "
    "proposal of a worker is applied exactly once and none is lost.",
    ["inputs", "schedules", "configurations"],
    "every assignment of actions to the pairs of 3-4 nodes, every chunk size up to the number of pairs, every completion "
    "order of the chunks; the real correlation and partial correlation tests for every DAG on 3-4 nodes",
    "tests run each mode once, on one machine schedule; lost or doubled results need a particular completion order or a "
    "chunk boundary at a particular place",
    [MODEL, "causy/interfaces.py", TESTS],
    [("dispatch to the pool in chunks and collection of results", MODEL + ":execute_pipeline_step"),
     ("unpacking of nested results", "causy/graph_utils.py:unpack_run"),
     ("application of results", MODEL + ":_take_action")],
    "3-4 nodes, six action kinds per pair, chunk sizes 1,2,4,50000, all completion orders (3 chunks), early and late dispatch, applied or only planned",
)
prop(
    "P07", "The orientation phase ends, keeps the skeleton and leaves nothing to orient",
    "Whatever skeleton and separating sets the independence tests leave behind, the orientation part of the PC algorithms "
    "(collider step, then the loop over the four rules) finishes after finitely many rounds and keeps exactly the "
    "adjacencies of the skeleton. When it stops, none of the rules beyond the first demands an orientation of an edge that "
    "is still undirected (unless it demands both directions), and the first leaves an edge only where arrowheads conflict.",
    ["inputs", "histories"],
    "every skeleton on 4 (5) nodes with every choice of separating sets, both conflict strategies",
    "tests run the phase on a few consistent graphs; lost edges and endless loops need contradictory separating sets, "
    "which real finite-sample data produce",
    [RULES, ALGOS, MODEL, "causy/common_pipeline_steps/exit_conditions.py"],
    [("orientation steps", ALGOS + ":PC_ORIENTATION_RULES"), ("loop until nothing changes", "causy/common_pipeline_steps/logic.py:Loop"),
     ("exit condition", "causy/common_pipeline_steps/exit_conditions.py:ExitOnNoActions")],
    "all skeletons on 4 nodes with all separating sets, 5 nodes with up to 4 edges (all as far as time allows in the thorough tier), trees with a path of 7 nodes",
)
prop(
    "P08", "With exact independence answers every PC variant returns the CPDAG",
    "If the independence tests answer exactly as d-separation in some DAG over the variables says, then every shipped PC "
    "variant (PC, classic, stable, parallel) returns exactly the completed partially directed graph of that DAG: the same "
    "adjacencies, an edge is directed only if every equivalent DAG directs it that way, and every such edge is directed.",
    ["inputs", "configurations"],
    "every DAG on 3 and 4 nodes and all four variants; 5 nodes for two variants in the thorough tier",
    "the end-to-end tests use a few random models; an error anywhere in generators, tests, separating sets, colliders or "
    "rules shows only for particular DAGs",
    [ALGOS, TESTS, RULES, GEN, MODEL],
    [("skeleton search", TESTS + ":CorrelationCoefficientTest/PartialCorrelationTest/ExtendedPartialCorrelationTestMatrix"),
     ("work items", GEN + ":PairsWithNeighboursGenerator"), ("orientation", RULES), ("assembled algorithms", ALGOS)],
    "all DAGs on 4 nodes, whole algorithms executed with a symbolic d-separation oracle behind the normal cdf",
)
prop(
    "P22", "Pipelines run their steps in order and loops run until nothing changes",
    "Executing a pipeline runs every configured step exactly once and in the configured order, each on the graph the steps "
    "before it left behind; a loop repeats its steps in order until a whole round takes no action any more (or its exit "
    "condition says so) and at least once; synchronously applied steps see the same graph and have all their proposals "
    "applied afterwards. The action history lists every executed step in order with its taken and proposed actions.",
    ["inputs", "histories", "configurations"],
    "every sequence of up to three steps and loops with solver-chosen actions per round",
    "tests run fixed pipelines; a skipped last round, a wrong exit decision or a history in the wrong place needs rounds "
    "in which particular steps act and others do not",
    [MODEL, "causy/common_pipeline_steps/logic.py", "causy/common_pipeline_steps/exit_conditions.py"],
    [("step execution", MODEL + ":execute_pipeline_steps"), ("loop", "causy/common_pipeline_steps/logic.py:Loop"),
     ("synchronous application", "causy/common_pipeline_steps/logic.py:ApplyActionsTogether")],
    "up to three steps and four loop rounds on 3 nodes, every pattern of acting steps; 13 rounds of one action",
)
prop(
    "P12", "Independence tests remove an edge exactly when the p-value exceeds the level",
    "For every sample size, every correlation (structure) and every significance level, the correlation, partial "
    "correlation, extended partial correlation (matrix) and linear regression tests remove an edge exactly if the "
    "two-sided p-value of the tested (partial) correlation, given exactly the conditioning set in question and the degrees "
    "of freedom that go with it, is above the level; the variables recorded as separating set are exactly those which were "
    "conditioned on. A perfect correlation is treated as dependence and does not abort the run.",
    ["inputs", "configurations"],
    "every sample size above the minimum, every covariance matrix that is diagonally dominant (correlation tests: every "
    "correlation), every level in (0,1), conditioning sets up to size 2 (3 thorough)",
    "tests feed a few samples whose p-values are far from the level; a wrong sign, size or degree of freedom changes the "
    "decision only near the threshold or for small samples",
    [TESTS, "causy/math_utils.py"],
    [("Fisher z p-value", TESTS + ":CorrelationCoefficientTest/PartialCorrelationTest/ExtendedPartialCorrelationTestMatrix"),
     ("partial correlation from the precision matrix", TESTS + ":ExtendedPartialCorrelationTestMatrix"),
     ("regression t test", TESTS + ":ExtendedPartialCorrelationTestLinearRegression, causy/math_utils.py:get_t_and_critical_t")],
    "symbolic sample size, level and covariance; 3-5 variables; transcendental functions by true facts",
)
prop(
    "P13", "Correlations and direct effects stored on edges are those of the data",
    "After the correlation step every edge carries the Pearson correlation of its two variables, the same in both "
    "directions, whatever the means and scales of the data. After the effect estimation step every directed edge u -> v of "
    "a DAG carries the coefficient of u in the least squares regression (with intercept) of v on all parents of v; "
    "undirected edges carry no effect. Other values stored on an edge are kept and no edge appears or disappears.",
    ["inputs"],
    "every sample size, all means and diagonally dominant covariance matrices of 2-4 variables, every DAG on 3 and 4 nodes, "
    "every mixed graph on 3 nodes",
    "tests use a few generated samples with zero means and a tolerance; a dropped or doubled parent or a missing intercept "
    "shows only for particular graphs and means",
    ["causy/common_pipeline_steps/calculation.py", "causy/causal_effect_estimation/multivariate_regression.py"],
    [("Pearson correlation", "causy/common_pipeline_steps/calculation.py:CalculatePearsonCorrelations"),
     ("multivariate regression", "causy/causal_effect_estimation/multivariate_regression.py:ComputeDirectEffectsInDAGsMultivariateRegression")],
    "samples as abstract vectors with symbolic size, means and covariances; all DAGs on 4 nodes",
)
prop(
    "P21", "Generated samples follow the structural equations they were asked for",
    "The i.i.d. generator returns, for every acyclic edge list in any order, data in which every value of a variable is "
    "the sum of coefficient times value of each parent plus noise of its own, and a graph with exactly the given edges "
    "whose nodes carry these data. The time series generator does the same with lagged parents (values before the start "
    "being the initial value), has a node per variable and time step, and draws initial values with the stationary variance.",
    ["inputs", "configurations"],
    "every DAG on 3-4 variables and edge order; every set of edges with lags up to 2 on 2 variables; all coefficients and noise",
    "tests fix the coefficients and noise of a few models; the processing order of the variables matters only for "
    "particular names and shapes",
    ["causy/sample_generator.py"],
    [("topological order", "causy/sample_generator.py:IIDSampleGenerator"), ("lags and initial values", "causy/sample_generator.py:TimeseriesSampleGenerator")],
    "symbolic coefficients and noise, all DAGs on 4 variables, all lag-2 models of 2 variables, 3 time steps",
)
prop(
    "P20", "Data end up unchanged at the variable they belong to",
    "However data are handed to a model (columns, a list of observations, a data loader over JSON, JSON lines, memory or Python code), "
    "the graph has exactly one node per variable, named after it, which carries that variable's values in the order of the "
    "observations and in double precision, whatever the order of the columns and even if observations list them in "
    "different orders; initially all pairs of variables are connected and none with itself. An observation which lacks a "
    "variable is refused.",
    ["inputs", "configurations"],
    "any values of 3 observations of 2-3 variables, every column order, every form of input, every missing entry",
    "tests use one column order and check little more than the number of nodes; values attached to the wrong variable need "
    "a particular order of columns",
    [MODEL, "causy/data_loader.py", "causy/graph.py"],
    [("ingestion", MODEL + ":create_graph_from_data/_create_from_dict"), ("loaders", "causy/data_loader.py"),
     ("node creation", "causy/graph.py:add_node")],
    "symbolic values, 3 observations of 3 variables (4x4 thorough), 8 forms of input, all column orders",
)
prop(
    "P16", "Variables reach exactly the settings that refer to them, per model",
    "In a model made from an algorithm and values for its variables, every setting (of steps, nested generators, comparison "
    "settings, steps in loops) that refers to a variable has the value given for it, or else its default, whatever that "
    "value is (also 0 and false), and every other setting is as configured. Models made from the same algorithm do not "
    "influence each other or the algorithm. Values for unknown variables, of the wrong type or outside the choices are "
    "refused, as are references to unknown variables. In the shipped algorithms the significance level reaches every "
    "independence test. Values set through the CLI are stored as what they stand for.",
    ["inputs", "configurations", "histories"],
    "any mixture of literals and references in seven settings with any numeric values, two models per algorithm",
    "tests resolve one or two references with truthy values and make one model per algorithm",
    ["causy/variables.py", MODEL, "causy/serialization.py", "causy/workspaces/cli.py"],
    [("resolution", "causy/variables.py:resolve_variable_to_object/resolve_variables"), ("model creation", MODEL + ":graph_model_factory"),
     ("validation", "causy/variables.py:validate_value/validate_variable_values"), ("update", "causy/workspaces/cli.py:update_experiment_variable")],
    "symbolic values and presence of references in 3-4 settings at a time (7 thorough), two models; CLI texts from a list",
)
prop(
    "P15", "Settings are honoured and survive writing an algorithm down and loading it",
    "Every setting given to a step, generator, logic step or comparison (any value, also 0, false and references to "
    "variables) is the setting the object has, settings not given have their defaults; writing an algorithm down "
    "(specification, JSON or YAML, file or eject command) and loading it again gives the same algorithm: name, steps in "
    "order with all nested generators and settings, logic steps, exit conditions, edge types, variables and extensions. A "
    "model can be made of the loaded algorithm and has the same steps as one made of the original.",
    ["inputs", "configurations"],
    "every step and generator class, each setting absent, a reference or any value, five written forms",
    "tests round-trip a few default pipelines; a setting which is dropped when it is falsy, nested or a reference shows only "
    "for that setting and value",
    ["causy/interfaces.py", GEN, "causy/serialization.py", "causy/graph_utils.py", "causy/variables.py", "causy/models.py"],
    [("constructors", "causy/interfaces.py:PipelineStepInterface/GeneratorInterface/LogicStepInterface"),
     ("loading", "causy/serialization.py:load_algorithm_from_specification, causy/graph_utils.py:load_pipeline_artefact_by_definition"),
     ("references", "causy/variables.py:deserialize_variable_references")],
    "4 settings at a time (7 thorough) with symbolic values; JSON, YAML and files by placeholder numbers",
)
prop(
    "P19", "An experiment is executed again exactly if something it depends on changed",
    "After an experiment was executed, the workspace considers it up to date exactly as long as its algorithm (every "
    "setting, step, default), the effective values of its variables, its data and the options of its data loader are what "
    "they were in the latest run, however small the change; without a result, or with one that does not say or was not "
    "written completely, it is executed. Executing the workspace "
    "runs exactly the experiments that need it (all if forced), saves their results as the latest ones and leaves other "
    "experiments' results alone.",
    ["inputs", "histories", "configurations"],
    "any old and new values of variables, defaults, settings, data and options, up to three earlier runs",
    "tests change one thing once; a stale result after a particular kind of change, or after changing back, goes unnoticed",
    ["causy/workspaces/cli.py", "causy/graph_utils.py", "causy/data_loader.py", "causy/models.py"],
    [("decision", "causy/workspaces/cli.py:_experiment_needs_reexecution"), ("hashes", "causy/graph_utils.py:hash_dictionary, "
     "causy/data_loader.py:FileDataLoader.hash, causy/models.py:Algorithm.hash"), ("recording", "causy/workspaces/cli.py:_execute_experiment/_save_experiment_result")],
    "symbolic old/new values, one changing aspect at a time, SHA-256 taken as injective; listed small differences, 600 kB of data, truncated results",
)
prop(
    "P17", "Stored results of an experiment are found, newest first; nothing else is",
    "Every result saved for an experiment is listed as a version of exactly this experiment under the second of its creation, newest "
    "first; the latest result is the newest one, a version gives the result saved under it, and a version that was never "
    "saved is refused. Clearing an experiment removes exactly its results. Other files in the workspace (of experiments with "
    "similar names, backups, unrelated files) are neither listed nor loaded nor removed.",
    ["inputs", "histories"],
    "any creation times, up to three results, one further file of 19 kinds, experiment names that contain each other",
    "tests save one or two results in order; mix-ups need particular names or creation times of different length",
    ["causy/workspaces/cli.py"],
    [("version listing", "causy/workspaces/cli.py:_load_experiment_versions"), ("loading", "causy/workspaces/cli.py:_load_experiment_result/"
     "_load_latest_experiment_result"), ("saving and clearing", "causy/workspaces/cli.py:_save_experiment_result/_clear_experiment")],
    "symbolic time stamps in file names (1-10 digits), real directory, real listing, loading, saving and clearing code",
)
prop(
    "P18", "An algorithm file is loaded exactly if it lies inside the working directory",
    "A file reference to an algorithm, however written (absolute, relative, through a link to the file or to a directory), "
    "is followed if the file it leads to lies in the working directory or below, and refused if it lies anywhere else, "
    "for instance in a directory whose name merely begins like the working directory's.",
    ["inputs", "environment"],
    "any path of up to three components, four ways to refer to it, working directories at different depth including the root",
    "tests load one file; an escape needs a particular path, sibling name or link",
    ["causy/serialization.py"],
    [("containment check", "causy/serialization.py:load_algorithm_by_reference")],
    "path components are z3 strings of up to 3 characters; file system access modelled in symbolic runs, real in replays",
)
prop(
    "P23", "A result says what the run found, also after saving, loading and serving it",
    "The result of an experiment has exactly the nodes and the present edges of the graph the run ended with, with their "
    "types and metadata, and the complete history of proposed and applied actions, nested steps included. Saved to a file "
    "and loaded again, or served to the user interface, it still says the same: nothing is lost, added, renamed or turned into "
    "another type.",
    ["inputs", "histories"],
    "any outcome per pair of nodes, any metadata values, flat, nested and collecting pipelines",
    "tests serialise a few fixed results; losses appear for particular edge states, metadata types or nested steps",
    ["causy/workspaces/cli.py", "causy/serialization.py", "causy/models.py", "causy/interfaces.py", "causy/ui/server.py"],
    [("building the result", "causy/workspaces/cli.py:_execute_experiment"), ("writing", "causy/serialization.py:CausyJSONEncoder"),
     ("reading", "causy/serialization.py:deserialize_result"), ("serving", "causy/ui/server.py:get_latest_experiment/get_experiment")],
    "2-3 nodes, 7 outcomes per pair, symbolic metadata numbers and truth values, real execution, saving, loading and serving code",
)
prop(
    "P24", "Workspace commands change exactly what they are about and keep it consistent",
    "Adding or removing a pipeline, a data loader or an experiment, clearing an experiment or updating a variable changes exactly "
    "that entry of the workspace file (and the results of a cleared or removed experiment); everything else, values of "
    "variables and options included, reads back as it was. Pipelines and data loaders that an experiment uses cannot be removed, "
    "commands with unknown names change nothing, and what was added can be loaded and is what was asked for. A new workspace "
    "has what was asked for and nothing else, and replaces an existing one only if the user agrees.",
    ["inputs", "histories"],
    "any workspace with two pipelines, two loaders and up to two experiments, any variable values, sequences of two commands",
    "tests do not run sequences of commands; a dangling reference or a changed value needs a particular combination of entries",
    ["causy/workspaces/cli.py", "causy/workspaces/models.py"],
    [("reading and writing the workspace", "causy/workspaces/cli.py:_current_workspace/write_to_workspace"),
     ("guarded removal", "causy/workspaces/cli.py:remove_pipeline/remove_data_loader/remove_experiment"),
     ("creation", "causy/workspaces/cli.py:_create_pipeline/_create_experiment/_create_data_loader"),
     ("new workspaces", "causy/workspaces/cli.py:init")],
    "symbolic references, variable values and options, one or two commands (three in the thorough tier), real files; init with every combination of answers",
)
prop(
    "P25", "Comparing experiments shows exactly their edges and where they differ",
    "The comparison of stored results lists every pair of variables that is connected in at least one of them, once, with what "
    "each result has there (nothing, undirected, bidirected, or the direction of the arrow); restricted to differences it lists "
    "exactly the pairs on which the results do not agree. The order of edges in the files makes no difference.",
    ["inputs"],
    "any combination of edge states in two or three results, named by experiment or by version",
    "no test runs the comparison; whether opposite or missing edges count as a difference depends on the combination",
    ["causy/workspaces/cli.py", "causy/interfaces.py"],
    [("comparison", "causy/workspaces/cli.py:diff"), ("edge equality", "causy/interfaces.py:EdgeInterface.__eq__")],
    "2-3 nodes, up to 5 states per pair and result, two or three results",
)
