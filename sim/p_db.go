package main

var dbReal = []string{"gopf/pf (FieldDB, Model, Solver) from /repo", "gopf/cmd (cobra command tree) from /repo", "database/sql", "mattn/go-sqlite3 with SQLite 3.31.1 (C)", "FFTW (C)", "cobra/viper"}
var dbStub = []string{"SQLite VFS (in-memory disk with locks, unsynced writes, power loss)", "wall clock, time.Sleep and SQLite's clock", "process scheduling, death and exit", "math/rand global source, crypto/rand, SQLite's PRNG", "map iteration order", "os file calls (real files in a scratch directory behind a fault-injecting hook)"}
var dbAssume = []string{
	"disk model: a write is visible at once and durable after xSync; file creation and deletion are durable at once; unsynced writes may be lost, kept or torn at 512-byte sectors on power loss",
	"SQLite runs in rollback-journal mode as opened by sql.Open(\"sqlite3\", file)",
	"a panic, log.Fatal or non-zero exit of the process counts as loud",
	"no NaN is stored; each simulation stores a timestep once",
}

func init() {
	add := func(id, title string, quick, thorough, fr int) {
		regProp(&PropDef{id: id, title: title, scenarios: []string{"db"}, quick: quick, thorough: thorough, faultRuns: fr, assume: dbAssume, real: dbReal, stub: dbStub})
	}
	add("C01", "atomic snapshots", 1000, 40000, 8)
	add("C02", "durable acknowledged", 1000, 40000, 8)
	add("C03", "identity", 1000, 40000, 4)
	add("C04", "grid", 1000, 40000, 6)
	add("C05", "load", 1000, 40000, 6)
	add("C06", "export", 1000, 40000, 8)
	add("C07", "queries", 1000, 40000, 8)
	add("C18", "availability", 1000, 40000, 5)
}

var fileReal = []string{"gopf/pf (Uint8IO, Float64IO, CsvIO, SaveCsv, LoadCSV, LoadFloat64, XDMF, SDD monitor, Solver) from /repo", "gopf/pfutil Grid and gopf/elasticity from /repo", "gopf/cmd elast commands from /repo", "encoding/csv, encoding/json, encoding/xml, encoding/binary", "FFTW (C)", "file system (scratch directory)"}
var fileStub = []string{"every os file operation passes a hook that can fail, shorten or tear it", "process scheduling, death and exit", "clock, randomness, map iteration order"}
var fileAssume = []string{"a kill keeps what earlier write calls wrote (no power loss: gopf never syncs plain files and promises nothing about it)", "a failing close loses a tail of the file, as delayed allocation does", "a panic, log.Fatal or non-zero exit of the process counts as loud"}

func init() {
	add := func(id, title string, quick, thorough, fr int) {
		regProp(&PropDef{id: id, title: title, scenarios: []string{"files"}, quick: quick, thorough: thorough, faultRuns: fr, assume: fileAssume, real: fileReal, stub: fileStub})
	}
	add("C08", "savers", 4000, 60000, 8)
	add("C09", "loaders", 4000, 60000, 8)
	add("C10", "checkpoints", 4000, 60000, 8)
	add("C17", "log", 4000, 60000, 8)
}

var plotReal = []string{"gopf/cmd contour and lineplot from /repo", "gopf/pf CsvIO and SaveCsv from /repo", "gonum/plot (pictures), encoding/csv", "file system (scratch directory)"}
var plotAssume = []string{"pictures are read back: line plots as SVG by the scales of their own axes, contour plots as PNG by their own colour bar (to 6 % of the range)", "a kill keeps what earlier write calls wrote", "a panic, log.Fatal or non-zero exit of the process counts as loud", "contour plots of 2D tables, line plots of 2D and 3D tables in the order in which gopf stores them"}

func init() {
	regProp(&PropDef{id: "C21", title: "plots", scenarios: []string{"plots"}, quick: 1600, thorough: 40000, faultRuns: 5, assume: plotAssume, real: plotReal, stub: fileStub})
}
