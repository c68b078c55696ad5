import os
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Concurrent evaluations are independent of each other",
 "A compiled path may be evaluated by any number of goroutines at once, over the same document or different ones, alongside evaluations of other compiled paths. Each call returns exactly the results (or the error) that the same call returns when nothing else is running.",
 ["schedules","inputs"],"Every interleaving of any number of concurrent evaluations, for every set of paths and documents.",
 "Existing tests never start two evaluations at once; one goroutine reaches one schedule of each path.",
 ["jsonpath.go","mach/run.go","mach/program.go","mach/fns.go"],
 [("per-evaluation machine state, compiled program only read","mach/run.go Program.Run"),("immutable program text and value table","mach/program.go")],
 ["JSONPath.Eval return values"],
 [("compiled program","shared by all evaluations","mach/program.go Program"),("machine","private to one evaluation","mach/run.go machine")])
p("C02","No data races, and no use of a document after the call returns",
 "However goroutines share compiled paths and documents, the library makes no unsynchronised conflicting memory accesses of its own. Once a call has returned, with results or with an error, the library no longer reads or writes the document, so the caller may change it at once.",
 ["schedules","inputs"],"Every interleaving of concurrent compile and evaluate calls with each other and with a caller that modifies its own document immediately after its call returns.",
 "The tests are single-threaded and are not run under a race detector; they drop the document after use.",
 ["mach/run.go","mach/coder.go","mach/fns.go","paths/ops.go","paths/tokens.go"],
 [("shared tables are read-only after initialisation","mach/fns.go functions; paths/ops.go; paths/tokens.go"),("producer goroutine finishes before the evaluation returns","mach/run.go looptop, stepping, walker")],
 ["happens-before race detector over simulated schedules"])
p("C03","Evaluation modifies nothing; the result list belongs to the caller",
 "Evaluating a path never changes the document or the compiled path. The returned list is private to the caller: overwriting or extending it changes neither the document, nor what any other evaluation, past, concurrent or future, returns.",
 ["histories","schedules","inputs"],"Every sequence and interleaving of evaluations in which callers overwrite and extend the lists they were given, for every path and document.",
 "No test compares a document before and after evaluation or writes to a result list.",
 ["mach/run.go","mach/fns.go"],
 [("each step builds a fresh output list","mach/run.go applySelection, looptop, valsWild, valsByKey"),("functions build fresh arrays","mach/fns.go")],
 ["deep snapshot of documents", "results of later evaluations"])
p("C04","Every evaluation ends, and leaves nothing behind",
 "Every evaluation ends after a bounded amount of work with either a result list or an error: it never deadlocks, spins, or panics. Whether it succeeds or fails, when it is over nothing it started is still running, blocked or waiting, so any number of evaluations, failing ones included, may be made by a long-lived process.",
 ["schedules","inputs","histories"],"Every path, document and schedule of the evaluation's internal producer and consumer, including every point at which an evaluation can fail.",
 "Tests do not count goroutines, and the suites abandon failing evaluations as soon as an error is seen.",
 ["mach/run.go"],
 [("producer closes its stream when exhausted","mach/run.go stepping, walker"),("loop end pops the stream","mach/run.go OpRep"),("failing evaluation drains its streams","mach/run.go Run")],
 ["live goroutines at quiescence", "scheduling steps used"],
 [("value streams","channels between the iteration producer and the evaluation","mach/run.go machine.values")])
p("C05","Filters and descents consider every candidate exactly once, in order",
 "A filter considers each member of each selected array or object exactly once, and a recursive descent visits each selected array or object and every array and object below it exactly once, parents first; array elements are taken in index order, and the results appear in the order of the visits. Nothing is skipped, repeated or invented, whether the containers are empty, large, deep or mixed with other values, and whatever the schedule.",
 ["schedules","inputs"],"Every document and every schedule of the hand-over of candidates to the evaluation.",
 "The walker test checks nothing about what is walked, and the suites use a few tiny documents with order mostly ignored.",
 ["mach/run.go","mach/coder.go"],
 [("producer goroutine and rendezvous channel per iteration","mach/run.go looptop, OpRep"),("element and descendant enumeration","mach/run.go stepping, walker, walkdown"),("loop code layout","mach/coder.go codeLoop")],
 ["JSONPath.Eval return values against a reference interpreter"])
p("C06","A failing evaluation is all-or-nothing and decided by the data alone",
 "Evaluation fails if, and only if, the path asks for an operation that cannot be carried out on some candidate actually considered (such as an invalid dynamic regular expression or an unknown function), however far along it is and in whatever order candidates come. It then returns only an error, never partial results, and leaves concurrent and later evaluations of the same path unaffected.",
 ["schedules","inputs","histories"],"Every point of an iteration at which a candidate can make the evaluation fail, every schedule, and every mix with evaluations that succeed.",
 "No test makes an evaluation fail part-way through an iteration.",
 ["mach/run.go","mach/fns.go"],
 [("error return from the order loop","mach/run.go Program.Run OpMatch, OpIn, OpNin, OpCall"),("nothing values for soft failures","mach/run.go valOK, valsOK")],
 ["JSONPath.Eval return values"])
p("C07","A compiled path carries no memory from one evaluation to the next",
 "What an evaluation returns depends only on the path and the document. It is the same on the first use of a compiled path and after any history of other evaluations, successful or failed, finished or still in progress, and the same as with a freshly compiled path.",
 ["histories","schedules"],"Every finite history of evaluations of shared compiled paths, overlapping or not.",
 "Tests compile a path, evaluate it once and throw it away.",
 ["mach/run.go","mach/program.go","jsonpath.go","mach/fns.go"],
 [("fresh machine per Run","mach/run.go Program.Run"),("no package-level mutable state","mach, paths")],
 ["JSONPath.Eval return values along a history"])
p("C08","What is selected does not depend on member iteration order",
 "JSON objects are unordered: the collection of values selected by a path from a document, and whether evaluation fails, are the same on every evaluation and for every internal ordering of object members. Only the relative order of values that come from different members of one object may vary.",
 ["schedules","inputs","configurations"],"Every iteration order of every object in the document, on every evaluation.",
 "The Go runtime randomises map order per process; a test run samples one order per iteration and the suites compare most results as unordered sets without repeating them.",
 ["mach/run.go","mach/fns.go"],
 [("member enumeration","mach/run.go stepping, walkdown, valsWild"),("key list function","mach/fns.go keys")],
 ["result collections under simulator-chosen iteration orders"])
p("C09","Compilation is independent of everything else going on",
 "Any number of goroutines may compile paths, valid and invalid, at the same time as each other and as evaluations. Each compilation accepts or rejects exactly as it would alone, with the same diagnostic, and an accepted path remembers its own source text and evaluates as that text demands.",
 ["schedules","histories"],"Every interleaving and history of compilations and evaluations.",
 "Tests compile one path at a time, each in a mostly fresh process.",
 ["jsonpath.go","mach/coder.go","paths/lex.go","paths/parsepath.go","paths/parseexpr.go","paths/parser.go"],
 [("parser, lexer and builder state are per call","paths/parser.go newParser; mach/coder.go builder")],
 ["Compile results, JSONPath.String, JSONPath.Eval"])
p("C10","jpath gives one result per input value however the input arrives",
 "For a well-formed stream of JSON values, jpath writes exactly one JSON array of results per value, in input order, and exits with status 0. This does not depend on how the bytes arrive (short reads, reads interrupted by signals, values split anywhere) or leave (short and interrupted writes), and it finishes once the input has ended.",
 ["fault_sequences","inputs","schedules"],"Every division of every input stream into reads and of the output into writes, with transient interruptions anywhere.",
 "The command has no tests at all.",
 ["cmd/jpath/jpath.go"],
 [("decode-evaluate-encode loop","cmd/jpath/jpath.go readValues"),("buffered output flushed at exit","cmd/jpath/jpath.go main")],
 ["bytes accepted by the simulated standard output, exit status"])
p("C11","jpath never passes off damaged input as good",
 "If reading fails, the input ends or goes wrong in the middle of a value, or a value cannot be evaluated, jpath still delivers the results for exactly the values that were completely read and evaluated before that point, delivers nothing for what follows, reports the problem on standard error and exits with a non-zero status. It never produces a result from a partly read value.",
 ["fault_sequences","crash_points","inputs"],"Every position of every read error, truncation or corruption in the input, in both input modes.",
 "The command has no tests, and read errors do not happen in ordinary runs.",
 ["cmd/jpath/jpath.go"],
 [("error returns name input and position","cmd/jpath/jpath.go readValues, readLines"),("results flushed before the diagnostic","cmd/jpath/jpath.go errorf")],
 ["simulated standard output and error, exit status"])
p("C12","jpath exits with success only if all results were delivered",
 "jpath exits with status 0 only if every byte of its results was accepted by its standard output; if any write fails, early, late or at the very end, it exits with a non-zero status. What reached standard output is at every instant, also if the process is killed, a prefix of the correct output.",
 ["fault_sequences","crash_points"],"Every output position at which writing can fail (full disk, I/O error, closed pipe) or the process can be killed, and every division into short writes.",
 "The command has no tests, and writes do not fail in ordinary runs.",
 ["cmd/jpath/jpath.go"],
 [("buffered writer and its flush","cmd/jpath/jpath.go main, errorf"),("encoder errors returned","cmd/jpath/jpath.go readValues, readLines")],
 ["bytes accepted by the simulated standard output, exit status"])
p("C13","jpath -l maps each input line to one output line",
 "With -l, each line of input (the last need not end in a newline) is taken as one JSON value and yields exactly one line of output holding its results as a JSON array, in the same order, whatever the lengths of the lines and however they are split into reads. A line that is not one valid JSON value stops the run with a diagnostic giving its line number within its file and a non-zero status, after the results of all preceding lines.",
 ["inputs","fault_sequences"],"Every sequence of lines of every length and every division into reads.",
 "The command has no tests; long lines and lines split across reads are never exercised.",
 ["cmd/jpath/jpath.go"],
 [("line scanner","cmd/jpath/jpath.go readLines")],
 ["simulated standard output and error, exit status"])
p("C14","jpath treats several files as the sequence of each alone",
 "Given several files, jpath produces the concatenation, in order, of what each would produce alone. A file that cannot be opened or read stops the run with a diagnostic naming that file and a non-zero status, after the results of all earlier files are delivered; input files are only read, in order, and each is released once done with, so the number of files does not matter.",
 ["fault_sequences","inputs","histories"],"Every list of files and every file and position at which opening or reading fails.",
 "The command has no tests.",
 ["cmd/jpath/jpath.go"],
 [("file loop with open, read, close","cmd/jpath/jpath.go main")],
 ["simulated open/read/close history, standard output and error, exit status"])

p("C15","jpath's diagnostics say where the input went wrong",
 "When jpath stops because an input cannot be read, goes wrong, or holds a value that cannot be evaluated, the diagnostic names the file (if files were named). For a value that is not JSON or cannot be evaluated it also gives the place: with -l the number of the line within that file, otherwise the offset in bytes within that file where the value before the offending one ended or the offending one begins. The place is that of the first offending value in input order, and depends neither on how the bytes arrive nor on what other inputs hold.",
 ["fault_sequences","inputs","schedules"],"Every position of every failure in every input, and every division of the input into reads.",
 "The command has no tests.",
 ["cmd/jpath/jpath.go"],
 [("offset taken before each value is decoded","cmd/jpath/jpath.go readValues"),("line counter per file","cmd/jpath/jpath.go readLines"),("file name added","cmd/jpath/jpath.go main")],
 ["simulated standard error"])
p("C16","jpath touches nothing when its arguments are unacceptable",
 "If the path does not compile, or there is no path or an unknown option, jpath neither opens nor reads any input and writes nothing on its standard output, whatever state they are in: it reports the problem on standard error and exits with a non-zero status.",
 ["fault_sequences","inputs"],"Every unacceptable argument list, with inputs and output in any state.",
 "The command has no tests.",
 ["cmd/jpath/jpath.go"],
 [("path compiled before any file is opened","cmd/jpath/jpath.go main")],
 ["simulated open/read/write history, standard error, exit status"])

p("C17","A finished evaluation keeps nothing of the document alive",
 "When every call is over and the caller has dropped a document and the result lists, the library holds no array or object of the document, and no result list, alive: however many compiled paths remain, whether the evaluations succeeded or failed, and however they overlapped. A long-lived process with compiled paths thus needs memory only for the documents it still uses itself.",
 ["histories","schedules","inputs"],"Every history and interleaving of evaluations, successful and failed, of compiled paths that outlive the documents.",
 "Tests drop compiled path and document together, and never look at what stays reachable.",
 ["mach/run.go","mach/program.go","jsonpath.go","mach/fns.go"],
 [("machine private to one evaluation, dropped with it","mach/run.go Program.Run"),("producer goroutines hold the container until they end","mach/run.go looptop, stepping, walker")],
 ["weak pointers to every array, object and result list, after forced garbage collection"])
p("C18","jpath keeps up with an endless stream",
 "However long the stream (it may never end), jpath delivers results as it goes: what it holds back of its results, and the memory it holds, stay bounded (a few megabytes beyond what the largest value needs) and do not grow with the number of values read. The results for late values are as right as those for the first.",
 ["histories","fault_sequences","inputs"],"Every stream of values of any length, in both input modes, from any number of files.",
 "The command has no tests, and no test runs anything for long.",
 ["cmd/jpath/jpath.go","mach/run.go"],
 [("decode-evaluate-encode loop keeps one value at a time","cmd/jpath/jpath.go readValues, readLines"),("fixed-size output buffer","cmd/jpath/jpath.go main")],
 ["bytes read and accepted by the simulated files over the run; live heap after forced collection"])

# not applicable: pure functions of their input
p("N01","Compile accepts exactly the documented grammar",
 "A path text compiles if and only if it is generated by the published path and script-expression grammar; anything else is rejected with an error and nothing else.",
 ["inputs"],"Every string.",
 "Table tests cover a few hundred strings out of an infinite language.",
 ["paths/parsepath.go","paths/parseexpr.go","paths/lex.go","paths/lexpath.go","paths/lexexpr.go"],
 [("recursive descent parser over two lexers","paths")],["Compile"])
p("N02","Compile is total",
 "Compiling any string whatsoever terminates with a compiled path or an error, and never panics.",
 ["inputs"],"Every string.","Tests use well-behaved strings.",
 ["paths/lex.go","paths/rd.go","paths/parsepath.go","mach/coder.go"],
 [("lookahead discipline and error lexemes","paths/lex.go, paths/parser.go")],["Compile"])
p("N03","Expressions follow JavaScript's operator and equality rules",
 "For every pair of values, ==, !=, relational, arithmetic and logical operators in expressions give what the documented JavaScript rules give, with failures propagating as documented.",
 ["inputs"],"Every pair of operand values.","Table tests cover about 60 pairs.",
 ["mach/json.go","mach/run.go"],[("abstract equality and conversions","mach/json.go eqVal, cvs, cvi, cvf, cvb")],["Eval"])
p("N04","Indices, slices and unions select what the specification says",
 "For every array length and every start, end and stride, including negative, out-of-range and extreme ones, index, slice and union subscripts select exactly the elements given by the documented rules.",
 ["inputs"],"All array lengths and subscript values.","Suites sample a few dozen combinations.",
 ["mach/run.go"],[("slice normalisation","mach/run.go sliceEval, valsByKey, valByKey")],["Eval"])
p("N05","Built-in functions compute their documented values",
 "Each built-in function returns its documented result for every argument list, and null or failure for arguments of the wrong type.",
 ["inputs"],"All argument values.","One or two calls of each function are tested.",
 ["mach/fns.go"],[("function table","mach/fns.go functions")],["Eval"])
p("N06","Literals in paths denote the text they spell",
 "String, number, name and regular-expression literals denote exactly the value their escapes and digits spell, including surrogate pairs, large integers and escaped delimiters.",
 ["inputs"],"Every literal.","A handful of literals are tested.",
 ["paths/lex.go","paths/lexexpr.go","mach/program.go"],[("literal scanning and small-integer encoding","paths/lex.go, mach/program.go")],["Compile, Eval"])
with open(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+"/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
