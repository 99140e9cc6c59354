package main

// A part is one kind of simulated run, with its own worker binary.
type part struct {
	Worker    string // libsim, querysim or toolsim
	Mode      string
	Race      bool
	Workers   int
	Quick     int // runs
	QuickS    float64
	Thorough  int
	ThoroughS float64

	bin    string
	params map[string]string
}

func (p *part) workers() int {
	if p.Workers > 0 {
		return p.Workers
	}
	return 8
}

type check struct {
	Prop  string
	Parts []*part
	// BuildViolates: a tool that refuses the query types of the simulation, or
	// generated code that does not compile, violates this property.
	BuildViolates bool
	Rule          string
	Distinct      string
	Time          string
	Real          []string
	Stubs         []string
	Assume        []string
	Probes        []string
}

var checks = map[string]*check{}

func register(c *check) { checks[c.Prop] = c }

const noClock = "not applicable: the code under test reads no clock and sets no timer; progress is counted in steps"

func init() {
	libReal := []string{"pgsql (scanners and valuers)", "filter", "gosql", "lib/pq's decoding and PostgreSQL 16 (once per check, to obtain the column values)"}
	libStub := []string{"the driver's receive buffer (one reused, clobbered buffer)", "map iteration order (seeded)"}
	register(&check{
		Prop:  "C09",
		Parts: []*part{{Worker: "libsim", Mode: "C09", Quick: 12000000, QuickS: 30, Thorough: 20000000, ThoroughS: 420}},
		Rule: "A run draws 1-3 destinations among all scanners of pgsql (found by signature) and 1-8 scans of stored values, NULL, damaged and re-typed values into them from one reused buffer; " +
			"an evaluation is one scan compared with the same scan into a fresh destination, followed by a check of everything scanned before. Non-trivial: every run.",
		Distinct: "hash of the sequence (scanner, kind of value)",
		Time:     noClock,
		Real:     libReal, Stubs: libStub,
		Assume: []string{"the content of a destination after a failed scan is not specified", "json and xml values are decoded into the destination variable itself; only that variable is compared"},
		Probes: []string{"scan.null", "scan.value", "scan.damaged", "scan.string", "scan.into.used", "scan.error", "value.kept", "driver.buffer.reused", "driver.buffer.clobbered"},
	})
	register(&check{
		Prop:  "C10",
		Parts: []*part{{Worker: "libsim", Mode: "C10", Quick: 12000000, QuickS: 30, Thorough: 20000000, ThoroughS: 420}},
		Rule: "A run draws 2-9 steps: encode a new value with one of all valuers of pgsql, encode the same argument again (retry, same or new valuer), scan something, or encode another caller's value; " +
			"after every step every input and every encoded value so far must be what it was. Values are stored values decoded by the library, or generated. Non-trivial: every run.",
		Distinct: "hash of the sequence of valuers encoded and retried",
		Time:     noClock,
		Real:     libReal, Stubs: append([]string{"sync.Pool (last in, first out)"}, libStub...),
		Assume: []string{"encodings of maps have no canonical order: they are compared by decoding them"},
		Probes: []string{"encode.first", "encode.retry", "encode.scan.between", "encode.other.between", "map.range"},
	})
	register(&check{
		Prop:  "C11",
		Parts: []*part{{Worker: "libsim", Mode: "C11", Quick: 12000000, QuickS: 30, Thorough: 20000000, ThoroughS: 420}},
		Rule: "A run draws 1-3 filters and interleaves 2-14 operations on them: every method of the constructor, renderings of the record and count filter at drawn positions, and callers that overwrite the lists they got; " +
			"an evaluation is one rendering compared with that of a twin built alone. Non-trivial: every run.",
		Distinct: "hash of the sequence of operations and argument counts",
		Time:     noClock,
		Real:     []string{"filter", "gosql", "frk/fql"}, Stubs: []string{"map iteration order (seeded)"},
		Probes: []string{"filter.op", "filter.render", "filter.scribble"},
	})
	queryReal := []string{"cmd/gosql (analysis, type checks, generator) on this check's query types", "the generated code", "gosql", "pgsql", "filter", "lib/pq", "PostgreSQL 16"}
	queryStub := []string{"database/sql driver in front of one lib/pq session: it injects the faults, lends and clobbers its row buffers, and lets every run be rolled back"}
	queryAssume := []string{
		"seeded query types: about 600 per check from one grammar, not every combination the tool accepts",
		"the reference statement is derived from the same description of the query type; where PostgreSQL leaves an outcome open (batch updates hitting a row twice, order of unordered rows) every outcome is accepted",
		"a caller that ignores the returned error is outside the property",
	}
	queryDistinct := "hash of the sequence (query type, faults planned, outcome) of the run"
	query := func(prop, rule string, probes ...string) {
		register(&check{
			Prop:          prop,
			Parts:         []*part{{Worker: "querysim", Mode: prop, Quick: 300000, QuickS: 40, Thorough: 2000000, ThoroughS: 500}},
			BuildViolates: prop == "C04",
			Rule:          "A run fills the tables, draws 1-6 calls of generated Exec methods (40 % on a query value used before) with drawn field values, and executes them on one simulated connection or transaction; " + rule + " Non-trivial: every run.",
			Distinct:      queryDistinct, Time: noClock, Real: queryReal, Stubs: queryStub, Assume: queryAssume,
			Probes: append([]string{"exec.insert", "exec.update", "exec.select", "exec.delete", "exec.again", "exec.in.tx"}, probes...),
		})
	}
	query("C01", "faults are injected before and after the statement, on connecting, in every row, in the values of a row, in the number of affected rows and on closing. An evaluation is one call: it returns nil only if nothing failed, and then the outputs and the tables are the reference's.",
		"fault.before", "fault.after", "fault.badconn", "fault.connect", "fault.row", "fault.row.later", "fault.corrupt", "fault.affected", "fault.cancelled", "error.returned", "exec.sqlerror")
	query("C02", "the same faults plus callbacks that return errors or panic, and AfterScan hooks that panic. An evaluation is one call: after it no row set and no statement it opened is open, whatever happened.",
		"fault.row", "fault.row.later", "fault.corrupt", "fault.iter", "fault.iterpanic", "fault.afterpanic", "fault.cancel.row", "exec.panicked", "deliver.many")
	query("C03", "rows without order are delivered in seeded orders. An evaluation is one call: what it delivered (records, slices, callbacks) is exactly the rows the database returned, in their order, each in its own record, with AfterScan called once; records are compared again at the end of the run.",
		"rows.shuffled", "deliver.one", "deliver.list", "deliver.many", "deliver.appended", "deliver.prefix", "deliver.afterscan", "exec.norows")
	query("C04", "an evaluation is one call: exactly one statement reaches the driver, and the tables and the rows it yields are those of the reference statement, executed on the same state, whose values are bound by name from the query value.",
		"exec.filter", "exec.affected", "exec.emptylist", "deliver.batch")
	query("C05", "all faults of C01 and C02. An evaluation is one call of a type with an error handler: the handler is called as often and with what its contract says, and its result is returned.",
		"error.handled", "error.handled.nil", "error.info", "fault.before", "fault.after", "fault.row", "fault.corrupt", "exec.norows")
	query("C06", "the context is cancelled before the call, before a row or inside a callback. An evaluation is one call: every driver call it made carried the caller's context, and a cancelled call fails.",
		"fault.cancel.before", "fault.cancel.row", "fault.cancel.iter", "fault.cancelled")
	query("C07", "calls of batch inserts and updates, with rows returned in seeded orders and the faults of C01. An evaluation is one call: all its records are stored or none, and returned values are in the records they belong to.",
		"deliver.batch", "rows.shuffled", "fault.after", "fault.row", "error.returned", "batch.rows.missing")
	register(&check{
		Prop: "C08",
		Parts: []*part{
			{Worker: "querysim", Mode: "C08q", Race: true, Quick: 1000000, QuickS: 25, Thorough: 2000000, ThoroughS: 250},
			{Worker: "libsim", Mode: "C08lib", Race: true, Quick: 1000000, QuickS: 20, Thorough: 2000000, ThoroughS: 250},
		},
		Rule: "A run draws 2-5 tasks, each with 1-4 calls of generated methods on its own query values, or operations of pgsql and filter on its own values; every call is executed alone on PostgreSQL first and its database traffic recorded, " +
			"then the tasks run under the seeded scheduler with preemptions inside gosql, pgsql, filter and the generated code, and the race detector on. An evaluation is one call: its results equal those of the call made alone, its traffic is the same, and no race is reported. Non-trivial: runs with a task switch.",
		Distinct: "hash of the sequence of tasks at the scheduler's switches and their calls",
		Time:     noClock,
		Real:     append([]string{"the scheduler's tasks are real goroutines under the Go race detector"}, queryReal...),
		Stubs:    []string{"goroutine scheduling (seeded; one task runs at a time)", "sync.Pool, Mutex, Once (cooperative)", "driver that plays the recorded traffic, one per task"},
		Assume:   []string{"interleavings change at yield points (every statement of the instrumented packages), not inside one statement", "the race detector sees the last few accesses of each location"},
		Probes:   []string{"tasks.run", "fault.before", "fault.row"},
	})
	registerTool()
}

// checks of the tool itself
func registerTool() {
	real := []string{"cmd/gosql's main function and everything below it: flags, configuration, search, analysis, type checks, generator, writing",
		"go/parser and go/types on the files the simulated process sees", "lib/pq's decoding and PostgreSQL 16 (every catalog query and type check; replies are remembered per worker)"}
	stubs := []string{"os and io/ioutil (a file system that records every operation, injects faults and keeps durable and visible contents apart)",
		"os.Args, os.Exit and the standard streams", "golang.org/x/tools/go/packages (an equivalent loader that reads sources through the simulated file system; dependencies come from export data)",
		"database/sql's driver (counts connections and row sets, injects faults, shuffles unordered rows)", "map iteration and directory order (seeded)", "package variables (reinitialised for a new process)"}
	assume := []string{
		"worlds: 1-3 packages of 1-4 source files from about 600 fixtures and 96 generated query types, extra files, every flag and configuration key in several spellings",
		"flags the flag package itself rejects are not drawn",
		"the loader is simulated: files ignored by its build system (tests, tags, testdata) are ignored as the real one does; cgo and generated export data are not modelled",
	}
	tool := func(prop, rule, nontrivial string, probes ...string) {
		register(&check{
			Prop:     prop,
			Parts:    []*part{{Worker: "toolsim", Mode: prop, Quick: 1000000, QuickS: 40, Thorough: 20000000, ThoroughS: 500}},
			Rule:     "A run draws a project, a way of calling the tool on it and what goes wrong, and runs the tool's main function as simulated processes; " + rule + " Non-trivial: " + nontrivial + ".",
			Distinct: "hash of the project, the call and the sequence of delivered faults and outcomes of the run's processes",
			Time:     noClock, Real: real, Stubs: stubs, Assume: assume,
			Probes: append([]string{"proc"}, probes...),
		})
	}
	dbf := []string{"fault.db.connect", "fault.db.error", "fault.db.io", "fault.db.row", "fault.db.row.later", "fault.db.corrupt", "fault.db.badconn", "fault.db.down", "fault.db.eof"}
	left := []string{"left.current", "left.stale", "left.truncated", "left.empty", "left.zeros", "left.longer", "left.orphan"}
	tool("C12", "something fails before the first write (a read of the file system, the loader, the database, a setting, a rejected target). An evaluation is one process: it fails with a message and the tree is byte for byte what it was.", "every run",
		append(append([]string{"exit.failed", "exit.ok", "exit.rejected", "fault.fs.open", "fault.fs.read", "fault.fs.readdir", "fault.fs.stat", "fault.fs.chdir", "fault.loader", "fault.settings"}, dbf...), left...)...)
	tool("C13", "creating, writing, flushing, renaming or removing fails at a drawn operation (with short writes, for one operation or all that follow). An evaluation is one process: every output path holds nothing, the old or the new content, nothing else changed, a success means complete and durable outputs.", "runs whose project the tool accepts",
		append([]string{"exit.failed", "exit.ok", "fault.fs.create", "fault.fs.write", "fault.fs.sync", "fault.fs.rename", "fault.fs.remove", "left.directory"}, left...)...)
	tool("C14", "1-3 processes are killed before a drawn operation, lose power (unflushed data kept, lost or cut per file) or fail, in front of leftovers of earlier runs; then one runs undisturbed. An evaluation is that process: it leaves the files an uninterrupted run leaves.", "runs whose project the tool accepts",
		append([]string{"interrupted", "fault.crash", "fault.powerloss", "fault.fs.write", "fault.loader", "fault.db.row"}, left...)...)
	tool("C15", "the same project is processed 1-3 times more with seeded orders of unordered catalog rows, map traversals and directory entries, with and without outputs of earlier runs. An evaluation is one process compared with the first: bytes, status and message.", "every run",
		append([]string{"exit.ok", "exit.failed", "rows.shuffled", "map.range", "two.config.files", "bad.settings"}, left...)...)
	tool("C16", "every file is processed alone in a process of its own, then together, in directories with other names, with fewer files around, or in a process that did other work before (other projects, the same project against another schema or with other settings, failed work). An evaluation is one file's output compared with that of the file alone.", "every run",
		"exit.ok", "exit.failed", "form.together", "form.after", "form.in", "form.with", "other.work", "other.work.failed", "same.process", "fault.db.row", "fault.db.error")
	tool("C17", "1-3 runs in one process, each with a fault at a drawn interaction with the database, then one without. An evaluation is one of them: it fails with a message, or it succeeds with the right outputs where the fault did not matter; no connection stays open; the last one does what a new process does.", "runs that reach the database",
		append([]string{"exit.failed", "exit.ok"}, dbf...)...)
	tool("C18", "projects include literals and functions that would write, with and without a database fault. An evaluation is one process: every statement it sent ran against PostgreSQL, and the contents, sequences, schema and settings of the database are what they were.", "every run",
		append([]string{"exit.failed", "exit.ok"}, dbf...)...)
	register(&check{
		Prop:  "C19",
		Parts: []*part{{Worker: "toolsim", Mode: "C19", Race: true, Quick: 1000000, QuickS: 40, Thorough: 20000000, ThoroughS: 480}},
		Rule: "A run draws a project and 2-4 tasks with 1-3 jobs each - opening a database, analysing and checking targets of a file, generating their code - on the same or other targets, settings and databases; every job is done alone first; " +
			"then, in a new process with cold or partly warm caches, the tasks run under the seeded scheduler with preemptions inside the tool's packages, the race detector on, and database faults in some; afterwards jobs are done alone again. " +
			"An evaluation is one job: its result (code or error) equals that of the job done alone, unless its own task met a fault. Non-trivial: runs with an evaluation.",
		Distinct: "hash of the project, the tasks and the sequence of tasks at the scheduler's switches",
		Time:     noClock,
		Real:     append([]string{"the scheduler's tasks are real goroutines under the Go race detector"}, real...),
		Stubs:    append([]string{"goroutine scheduling (seeded; one task runs at a time)", "sync's locks (cooperative)"}, stubs...),
		Assume:   append([]string{"interleavings change at yield points (every statement of the instrumented packages), not inside one statement", "the race detector sees the last few accesses of each location"}, assume...),
		Probes:   []string{"tasks.run", "job.same", "job.accepted", "job.rejected", "job.failed", "job.afterwards", "caches.warm", "db.shared", "sched.block", "fault.db.row", "fault.db.error", "fault.db.connect"},
	})
	tool("C20", "one thing that is read - directory, configuration file, source - cannot be read, once or always, an input file is missing, a source does not parse, or the loader fails. An evaluation is one process: it fails with a message, or its outputs are complete and the same.", "runs whose project the tool accepts",
		"exit.failed", "exit.ok", "read.once", "read.sticky", "missing.file", "source.broken", "fault.loader", "fault.fs.open", "fault.fs.read", "fault.fs.readdir", "fault.fs.stat", "fault.fs.chdir")
}
