import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe=None,hook=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d['anchors']['observe_at']=observe
    if hook is not None: d['anchors']['hook_needed']=hook
    P.append(d)

p("C01","Instrumenting code never changes what the program does",
"For every function the tool instruments (return-state, panic, entry and finish points, plus the injected client), the rewritten package still compiles and its observable behaviour is unchanged: same outputs, same returned values, same named-result/defer/recover effects, same panic value or goroutine exit, same evaluation order and same number of evaluations of every expression. This holds whether or not the monitoring server is reachable.",
["programs","inputs"],"all Go source functions that the analysis may select for monitoring, all arguments they can be called with, any subset of them instrumented together",
"Existing tests check the printed text of a few dozen hand-written functions; they cannot establish that rewriting preserves semantics for arbitrary combinations of returns, defers, shadowing, generics, closures and control flow.",
["lens/asttweak.go","lens/astclient.go"],[("return/panic/entry/finish injection","lens/asttweak.go"),("injected client","lens/astclient.go")],
["stdout, exit status and result digests of the original versus the instrumented build"])

p("C02","Every executed return and escaping panic is observed once with true values",
"When instrumented code runs, each return of a monitored project function (an explicit return in any position, or reaching the end of the function) produces exactly one state event attributed to that function, carrying the actual returned values, the values of the parameters, named results and local variables in scope at that return, and the true call stack; each panic that escapes a monitored function produces exactly one panic event with its message, and each entry of a monitored module function produces an entry event. Calls that end normally never produce a panic event, and point identifiers are never shared by two functions.",
["programs","inputs","schedules"],"all monitored functions, return forms (explicit, implicit, named, multi-value call, nested blocks, closures inside), panics, recursion and concurrent callers",
"Whether a return statement in an arbitrary position is covered and reports the right values depends on the program instrumented; unit tests compare generated text for sampled shapes and do not run it against ground truth.",
["lens/asttweak.go","lens/astclient.go","lens/astsrv.go","lens/astexec.go"],[("return point injection and snapshot construction","lens/asttweak.go"),("client messages","lens/astclient.go"),("point id to function mapping","lens/astexec.go")],
["events received by the monitoring server compared with the ground-truth log the program prints about itself"])

p("C03","Undoing instrumentation restores every file exactly",
"After the instrumentation is undone, every file of the project and of the module cache has exactly the bytes, mode and type it had before instrumentation started, and no backup or injected file is left behind. This holds when any injection or commit step failed part-way, for any number and order of instrumented files, and for files and packages touched more than once.",
["inputs","crash_points","fault_sequences","histories"],"all source trees, all sequences of injections and commits, any step failing because of a file-system error",
"Unit tests undo one successful injection in a clean temp dir; the guarantee is about every sequence and every failing step.",
["lens/asttweak.go","lens/astexec.go","lens/file.go"],[("backup, commit and cleanup actions","lens/asttweak.go"),("go.mod/go.sum backup and restore","lens/astexec.go"),("file replace","lens/file.go")],
["recursive digest (path, type, mode, bytes) of the trees before and after"])

p("C04","A captured value reaches the monitor unchanged",
"Any Go value captured by the injected client and decoded by the monitoring server denotes the same value: same field names, types, nesting, element order and exact scalar contents, with cut-offs only at the configured length and depth limits and always marked or bounded as configured. Message identifiers, timestamps, panic texts, error texts and call stacks survive the trip exactly.",
["inputs"],"all Go values (scalars at their extremes, strings, bytes, slices, arrays, maps, structs with unexported fields, interfaces, pointers, nested arbitrarily), all stacks up to the frame limit",
"The encoder and decoder are written separately; a mismatch on one kind, boundary length or bit pattern silently corrupts comparisons and only shows for that value.",
["lens/astclient.go","lens/astsrv.go","lens/astapi.go"],[("encoder","lens/astclient.go"),("decoder","lens/astsrv.go")],
["decoded message versus an independent reference rendering of the live value"])

p("C05","Capturing state is total, bounded and free of side effects",
"Capturing any value terminates without panicking and with output bounded by the configured limits and the memory actually reachable, including for cyclic, self-referential, shared, very deep and very wide structures, nil values, NaN keys and types with unexported or hostile members. It never modifies the captured value and never changes how the captured program continues.",
["inputs"],"all object graphs reachable from captured variables, including cycles through interfaces, maps, slices and pointers",
"A hang or blow-up needs a particular graph shape (a cycle through an interface, an alias, a self-pointer) that sampled unit tests do not contain.",
["lens/astclient.go"],[("recursive field streaming and cycle detection","lens/astclient.go")],
["number of bytes and fields written per capture, completion under a step budget, deep copy of the value before and after"])

p("C06","The monitor survives any message and stays within its limits",
"Whatever bytes arrive at the monitoring server or decoder, truncated, corrupted or hostile, the result is either a decoded message or an error: no crash, no unbounded recursion and no allocation out of proportion to the bytes received, and nothing is recorded for a message that was refused. The server goes on serving correct messages afterwards, and rejects messages whose declared lengths exceed the configured limits.",
["inputs","fault_sequences"],"all byte strings on all endpoints, every truncation point of valid messages, every HTTP method, interleaved with valid traffic",
"Needs adversarial byte-level inputs and allocation monitoring, which unit tests on a few hand-built messages do not provide.",
["lens/astsrv.go"],[("message decoder","lens/astsrv.go"),("HTTP handlers","lens/astsrv.go")],
["decoder outcome, bytes allocated per input byte, HTTP status, handler invocations"])

p("C07","No event is lost, duplicated or misfiled under concurrency",
"For every interleaving of messages from concurrent clients, each acknowledged state, panic or entry message is reflected exactly once in the test result, under the function its point belongs to and with its own values, and messages that arrive one after another for the same function keep their order; the field-check count equals the number of accepted state messages. Producing the result always completes, includes every message acknowledged before it was requested, and is free of data races, even when unknown points are reported; messages still arriving afterwards never alter it.",
["schedules","histories"],"all arrival orders and parallelism of messages for overlapping functions, including unknown ids and handler replacement between tests",
"Lost updates, races and blocked waits depend on the schedule; the unit tests send a handful of sequential messages.",
["lens/astexec.go","lens/astsrv.go","lens/util.go"],[("per-test monitor","lens/astexec.go"),("server handler switch","lens/astsrv.go"),("striped locks","lens/util.go")],
["messages acknowledged per client versus frames in the result; race detector reports"])

p("C08","Only values that repeat between identical runs are kept as stable",
"Given two runs of the same test, the retained result contains exactly those calls present in both runs (matched by project call stack and occurrence; extension calls by their whole call stack) with exactly those fields, at any nesting, whose value was identical in both, and exactly the panics seen in both; a failure in either run marks the test failed. When the updated version is executed, only fields that were stable before the update take part in the comparison.",
["inputs","histories","schedules"],"all pairs of recorded runs: differing call counts, interleaved stacks, nested fields, missing functions, duplicate panics",
"The result is a function of two arbitrary recorded histories; a slip in occurrence matching or nesting makes noise look like a regression or hides one, only for particular histories.",
["lens/astexec.go","lens/types.go"],[("stable field intersection","lens/astexec.go"),("stack keys and project frame filter","lens/astexec.go"),("post-update stable filter","lens/astexec.go")],
["result compared with an independent reference implementation"])

p("C09","Result comparison reports every difference and invents none",
"Comparing recorded results before and after the update reports each stable field whose value changed (with the caller and field), each stable field that disappeared (alone or with its call), each panic added or removed and each newly failing test, and counts every remaining field as the same; identical inputs give zero differences. Totals equal the sums over tests, the outcome does not depend on storage or map order, and time changes are reported only beyond the configured factor, with the most significant one kept.",
["inputs","histories"],"all pairs of stored result sets",
"The comparison combines frame matching, flattening, multisets and timing; only a reference model run over many generated histories can tell that nothing is dropped or invented.",
["lens/engine.go","lens/types.go"],[("comparison","lens/engine.go"),("flattening","lens/types.go")],
["counts, per-test reports, compared with a reference model over the same stored data"])

p("C10","Recorded results survive storage encoding unchanged",
"Every recorded test result read back from its stored form equals what was saved: all functions, calls, stacks, times, nested field names and values, panics, flags and counters, also after an intermediate compression round trip. Truncated or inconsistent stored data (dangling or circular references) gives an error, and no corruption of the stored bytes crashes the reader.",
["inputs"],"all test results (shared strings and sub-trees, empty and nil parts, unusual characters, large sizes) and all corruptions of their encoding",
"The encoding deduplicates strings, stacks and subtrees through index tables; index mistakes show only for particular sharing patterns.",
["lens/types.go","lens/compress.go"],[("result codec with dictionaries","lens/types.go"),("compression helpers","lens/compress.go")],
["structural equality of decoded and original results"])

p("C11","Stores behave as one atomic map under any use and concurrency",
"Both storage back ends behave as the same map: a read returns the latest completed write (whole value, whatever its size or content) or reports absence, deletes and clears remove exactly their keys, listings return exactly the live keys, and namespaced views with different names never see or affect each other's keys. Concurrent operations on a key are linearizable and never observe a partly written value.",
["histories","schedules","inputs"],"all operation histories, non-empty keys outside the reserved prefix badger_split:, all value contents (including values larger than one record), namespaces, and interleavings of concurrent clients",
"Atomicity and isolation are properties of histories and schedules; the tests perform single-threaded sequences with friendly keys.",
["lens/storage.go"],[("badger store with value splitting","lens/storage.go"),("memory store","lens/storage.go"),("key prefix view","lens/storage.go")],
["client-side call/return histories checked per key against a map model; differential runs of both back ends"])

p("C12","Module diff reports exactly the functions whose code changed",
"Comparing two versions of a module reports exactly the functions and methods present in both versions whose code differs (a changed receiver included; comments, layout and moves within the package do not count, and files outside the build never do), each once and with the old version's location, return points and definition. Every changed line of that definition is marked, and beside added code the number of neighbouring lines asked for. With transitive expansion, the dependencies the new version of a module requires at another version than the old one did, where this raises the project's version, are compared the same way; the version required closest to the listed modules counts and the newest among equals, regardless of the order or repetition in which modules are listed.",
["inputs","programs"],"all pairs of module source trees: added, removed, moved, renamed and edited functions and methods, generic ones and multi-file packages included, and all dependency graphs",
"Precision and completeness are claims over all pairs of source trees, which example-based tests cannot cover.",
["lens/module.go","lens/static.go"],[("function extraction and comparison","lens/module.go"),("line change bitmap","lens/module.go"),("transitive expansion","lens/module.go")],
["reported functions versus the edit script the generator applied"])

p("C13","Dependency changes are read from go.mod and go.work completely",
"For any pair of project states, the set of reported module updates is exactly the dependencies required in both whose required version differs (in the module file, or for workspaces in any member used by both states), each with the right old and new version and indirect mark. A module required by any workspace member is found with a version and indirect mark some member states, the lists of module files and package patterns cover exactly the project's module and every workspace member present on disk, module versions are found in the module cache under their escaped names, and the output is the same on every run. Malformed files give an error rather than a partial answer.",
["inputs","configurations"],"all go.mod and go.work contents: blocks and single lines, quoting, comments, indirect marks, unrelated directives, workspace use directives (relative, absolute, outside the project, expanded patterns), versions including pre-releases and pseudo-versions; each module required at most once per file",
"A dependency missed for one syntactic form or workspace layout means a silently skipped update; tests cover a few files.",
["lens/module.go","lens/engine.go"],[("go.mod/go.work diff","lens/module.go"),("workspace member enumeration","lens/module.go"),("initial module resolution","lens/engine.go")],
["result versus the table the files were generated from (cross-checked with go mod edit -json)"])

p("C14","Static analysis never misses code that really reaches a change",
"Whenever executing a project's code can really bring a project function, through non-test code, onto the call stack of a changed module function, that project function is among the reported callers with that change, and the module function is among the reachable changes; every test whose run does so is among the selected tests with that caller as a target. Reported callers and tests are functions of the project (callers: declared in files which are neither tests nor generated, other than main and init; tests: functions which go test runs), each listed once with its correct location and its own set of reached changes: where all calls are plain static ones, exactly the reached ones. Code reached only by reflection, linkname, cgo or package initialisation is outside.",
["programs"],"all projects: direct and indirect calls, methods, interfaces, embedded types, closures, function values, generics, goroutines, defers, callbacks through the module, multiple packages, external test packages and subtests",
"Soundness is a universal statement over programs; it is checked by running generated programs and comparing observed call stacks, which no fixed expectation list does.",
["lens/static.go"],[("project call graph and caller search","lens/static.go"),("test selection","lens/static.go")],
["call stacks recorded while running the generated project's tests, versus the static result"])

p("C15","Analysis leaves the user's project and module cache untouched",
"With temporary-copy mode, an analysis run never creates, changes or deletes anything in the original project, GOPATH or pre-existing module sources, and its temporary directories are removed whenever the run ends by itself, with success or with a failure at any step (a run that is killed cannot remove them, but the originals are untouched even then); without it, the project's files and the module sources are back to their original content afterwards. Copies are faithful: every file, permission, nested directory and symbolic link of the source tree is reproduced, except that the copy stays writable for its owner and that links into the original tree lead into the copy.",
["configurations","fault_sequences","crash_points","inputs"],"all directory layouts (nested or separate module cache, workspaces, links, read-only files) and every analysis stage that may fail",
"It must hold for each failing stage and layout; tests exercise providers with mocks and a few copies.",
["lens/engine.go","lens/file.go","lens/astexec.go","lens/asttweak.go"],[("temporary environment","lens/engine.go"),("tree copy","lens/file.go"),("restore paths","lens/astexec.go")],
["recursive digests of the original trees and a listing of the temp root around each run"])

p("C16","The report states exactly what the analysis found",
"The written JSON report and its charts agree with the analysis results: module list, counts of changed, reached and untracked functions, callers, tests, field checks, same and different fields, regressions, per-test field and time changes and mutation outcome all equal the inputs, with sums consistent and nothing dropped or double counted. The same results always give the same report content, and a chart can be produced from any written JSON report.",
["inputs"],"all combinations of analysis results, including none, many, failed and duplicate-named tests and extreme values",
"Aggregation and truncation mistakes depend on the particular data; only one small report is tested.",
["lens/report.go","lens/engine.go"],[("report assembly","lens/report.go"),("chart rendering","lens/report.go")],
["parsed JSON versus recomputation from the inputs"])

p("C17","Mutation scoring targets only changed code and leaves it as found",
"Mutation testing selects the changed functions and no others, and with line or area scope leaves only their changed lines (area: and the neighbours of added ones) mutable; marking never changes what the code does. Each mutant is run, as the source the tests see, against at least the tests that reach the mutated function and none that reach nothing changed in its file (or all tests where configured), and counts as killed only if a test fails on it: surviving, uncompilable and otherwise failing mutants do not. The reported totals are those of the mutation tool. Sources, project files and the temp directory are exactly as before afterwards, whatever the outcome of the tool or the tests.",
["inputs","programs","fault_sequences"],"all source files and change marks, all mutation tool outputs and exit codes, failing tools included",
"There is no unit test for most of this; it depends on the source shape and on external tool outcomes.",
["lens/mutation.go","lens/asttweak.go"],[("mutation run and scripts","lens/mutation.go"),("line marking","lens/asttweak.go")],
["calls made to a recording stand-in tool, program meaning before and after marking, tree digests"])

p("C18","An update is reported as different if and only if tests see it differ",
"Running the whole analysis on a project and a dependency update, every stable observable difference in monitored project functions or test outcomes caused by the update appears in the report (fields, panics, regressions), and an update that changes nothing observable yields zero differences, even when tests contain randomness, concurrency or timing. Every changed function executed by a test is counted as reached.",
["programs","inputs","schedules"],"all projects with tests and all pairs of dependency versions; repeated runs",
"It is the end-to-end promise of the tool and involves every stage; no test runs the real pipeline against a real update.",
["lens/engine.go","lens/astexec.go","lens/module.go","lens/static.go","lens/asttweak.go","lens/report.go"],[("analysis pipeline","lens/engine.go"),("update execution","lens/astexec.go")],
["JSON report of real runs on generated projects versus the generator's known ground truth"])

p("C19","Captured output is complete, in order and bounded",
"Output passed through the tool's fan-out reaches every destination completely and in order; a failing destination never keeps output from the others and is reported, and closing closes every destination that can be closed. The shared output buffer holds each concurrent write once, whole and in its writer's order. A bounded capture never exceeds its limit, holds the whole output while that fits and otherwise a cut mark followed by the most recent output without gaps (at least half the limit), whatever the write sizes. Concurrency limiters never exceed their limit, let every waiter finish and join only when all work is done; keyed locks exclude each other for the same key; line limiting keeps exactly the first or last lines asked for.",
["schedules","histories","inputs"],"all sequences and sizes of writes, all interleavings of writers, limits and keys",
"Interleavings and size boundaries are unbounded; unit tests use a few sequential writes.",
["lens/util_io.go","lens/util.go"],[("tee and bounded buffers","lens/util_io.go"),("limiters and striped locks","lens/util.go")],
["bytes seen by each sink versus bytes written; high-water mark of holders; race detector"])

p("C20","Child commands run with exactly the intended environment",
"Every go command and test the tool starts sees each requested override exactly once with the requested value, keeps every other inherited variable unchanged except loader-injection variables, which are never passed on, and runs in the requested directory with the selected test only. Exit failures are reported as failures and successes as successes, with output delivered to the requested destination.",
["inputs","configurations"],"all inherited environments (duplicates, empty values, unusual names) and overrides, all test names and outcomes",
"The environment of real child processes depends on arbitrary inherited variables; tests look at one merged list.",
["lens/exec.go","lens/astexec.go"],[("environment merge","lens/exec.go"),("test execution","lens/exec.go")],
["environment, directory and arguments recorded by a stand-in go command"])

p("C21","Call-argument capture points see the real arguments and change nothing",
"Instrumenting a call site (extension points) reports, once per executed call and before it, the actual argument and receiver values the call receives, and the program still compiles and behaves as before: every argument is evaluated the same number of times, in the same order and only when it would have been.",
["programs","inputs"],"all call sites: nested calls, methods, variadics, defers, goroutines, conditions and loops, short-circuit expressions, recursive calls",
"Depends on the syntactic position of the call; text comparison in tests cannot establish run-time equivalence.",
["lens/asttweak.go"],[("call-site injection","lens/asttweak.go")],
["original versus instrumented outputs; events versus ground truth log"])

p("C22","The pipeline stops on errors, cleans up and reports every outcome",
"Each analysis stage receives the complete output of the stages before it, an error from any stage makes the run fail with that error and no report claiming success, and every stage that completed is cleaned up exactly once, after the analysis is over. When no dependency is updated the run ends successfully without an analysis; when nothing is changed, reachable or testable it ends successfully with a report saying so. Invalid configurations are rejected before anything is touched, and valid ones are never altered beyond documented defaults.",
["fault_sequences","configurations"],"all combinations of stage outcomes (empty, normal, error at each stage) and all configurations",
"Needs every stage-outcome combination with monitoring of calls; tests check a few paths.",
["lens/engine.go","cmd"],[("engine run loop","lens/engine.go"),("configuration validation","lens/engine.go")],
["sequence of provider calls and their arguments, returned errors, files written"])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(d,ensure_ascii=False)+'\n' for d in P))
