// Package scen holds the scenario (test case) and result types shared by the
// generator (parent) and the simulation (child).
package scen

// Case is one simulated execution: a pure function of the code and this value.
type Case struct {
	Kind   string  // which simulation
	Seed   uint64  // runtime randomness: scheduling order, selects, math/rand, uuids
	YieldP uint32  // of 65536: chance of a yield at channel operations and mutex locks
	StallP uint32  `json:",omitempty"` // of 65536: chance that the code under test is stalled there for up to 20 ms
	StmtN  uint32  `json:",omitempty"` // one in so many statements of the code under test is followed by a yield (or stall)
	E2E    *E2E    `json:",omitempty"`
	Sched  *Sched  `json:",omitempty"`
	Batch  *Batch  `json:",omitempty"`
	GCL    *GCL    `json:",omitempty"`
	Topics *Topics `json:",omitempty"`
	Prod   *Prod   `json:",omitempty"`
	Rebal  *Rebal  `json:",omitempty"`
	Config *Config `json:",omitempty"`
}

// Config: event sources created with these configurations.
type Config struct {
	Broker Broker
	Cfgs   []EosCfg
}
type EosCfg struct {
	Pool, Pending, Target, Max int
	DelayUs                    int
}

type Broker struct {
	Nodes       int
	Seed        int64
	LatMinUs    int
	LatMaxUs    int
	SpikeP      float64
	SpikeMaxMs  int
	MarkerMaxMs int
	RebalDelMs  int
	FetchMax    int
	AutoCompact bool
}

type Event struct {
	ID    int
	Part  int32
	Key   string
	Mode  string // sync | async | async2 | mix | sched | batch | bp | type:<t> ...
	Delay int    `json:",omitempty"` // ms, in the handler (sync) or the background
	Outs  int
	Dest  int32 // destination partition, -1: by key
	Chg   int
	Del   bool   `json:",omitempty"`
	Type  string `json:",omitempty"` // record type header
	Bad   bool   `json:",omitempty"` // undecodable
	Size  int    `json:",omitempty"` // padding
	Aux   int    `json:",omitempty"` // another, auxiliary change: 1 without header, 2 with one
	BP    int    `json:",omitempty"` // batch producer: 1 no callback, 2 no records, 3 neither
}

type Step struct {
	At     int // ms
	Op     string
	Inst   int     `json:",omitempty"`
	Part   int32   `json:",omitempty"`
	Events []Event `json:",omitempty"`
	Commit bool    `json:",omitempty"`
	OpenMs int     `json:",omitempty"`
	N      int     `json:",omitempty"`
	Outs   int     `json:",omitempty"`
	Delay  int     `json:",omitempty"`
	Async  bool    `json:",omitempty"`
}

type Fault struct {
	Inst    int
	Key     int16
	Nth     int
	Count   int
	Kind    string
	Code    int16
	DelayMs int
	Txn     bool   `json:",omitempty"`
	Topic   string `json:",omitempty"`
}

type Inst struct {
	Strategies []int
	Pool       int
	Pending    int
	Target     int
	Max        int
	DelayMs    int
	CommitOffs bool   `json:",omitempty"`
	Metrics    string `json:",omitempty"` // "" | fast | slow
	MetricMs   int    `json:",omitempty"`
	CfgMs      int    `json:",omitempty"` // its clusters take so long to tell their configuration
	InitMs     int    `json:",omitempty"` // time between the creation of the event source and its start
	ZeroEos    bool   `json:",omitempty"` // no EosConfig: the default
	LateDef    bool   `json:",omitempty"` // the default handler is registered later
	DeserErr   string `json:",omitempty"` // "" (default) | continue | fail | exit
	TxnErr     string `json:",omitempty"` // "" a handler that asks to fail | nil | exit
	SchedConc  int
	SchedDepth int
	SchedKeys  int
	BatchMax   int
	BatchConc  int
	BatchDelay int
	RevokeMs   int `json:",omitempty"` // OnPartitionWillRevoke sleeps
	AssignIj   int `json:",omitempty"` // a one-off interjection so many ms (less one) after a partition is assigned
	ActMs      int `json:",omitempty"` // OnPartitionActivated sleeps
	Wait       int `json:",omitempty"` // main waits in: 0 Done, 1 WaitForChannel, 2 WaitForSignals, 3 WaitForSignals(SIGUSR1), 4 and 5 those without a hook, 6 WaitForChannel without a callback
}

type Interj struct {
	EveryMs, JitterMs int
	Outs              int
	Chg               int
	Delay             int
	Async             bool
}

type E2E struct {
	Broker     Broker
	Parts      int
	OutParts   int
	ClPart     int
	StateSplit bool   // state cluster separate from the source cluster
	Preset     bool   // topics exist already
	StartOff   string // how the start is configured: "" at the start | at | time | group (offsets of a former plain consumer) | trim (retention) | end
	Types      int    `json:",omitempty"` // number of record types with handlers of their own
	Hist       []int  `json:",omitempty"` // records of each partition which are there already
	From       []int  `json:",omitempty"` // the offset at which each partition starts
	Insts      []Inst
	Interj     []Interj
	Steps      []Step
	Faults     []Fault
	SettleS    int
	IdleS      int  `json:",omitempty"` // nothing happens for so long before everybody stops
	Probe      int  `json:",omitempty"` // at the end: 1 stop everybody, 2 crash everybody, then start another; 3 only start another; and produce one more event per partition
	NoFresh    bool // do not start a fresh instance for the settle phase
	Strict     string
}

type Viol struct {
	Props []string
	Kind  string
	Msg   string
}

type Result struct {
	Viols    []Viol
	Stats    map[string]int
	Trace    []string
	Notes    []string
	Virtual  float64
	Complete bool
	Fatal    bool // a handler asked to exit
}

// ---- other simulations (see the child's files of the same names) ----

type SchedOp struct {
	Op    string // schedule | sleep | maxkeys | depth
	Part  int    // the goroutine that does it (-1: the controller)
	Key   int
	Dur   int  // us the job takes
	Err   bool // the job fails
	N     int  // us to sleep, or the new limit
	Chain int  `json:",omitempty"` // key+1 of another job that the finalizer schedules
	Fin   int  `json:",omitempty"` // us the finalizer takes
}
type Sched struct {
	Conc, Depth, Keys int
	NilFinal          bool
	Parts             int
	Ops               []SchedOp
	CloseUs           int // halt after so long (0: never)
}

type BatchOp struct {
	Op    string // add | sleep
	Part  int
	Key   int
	Items []int // key of each item (-1: the batch's own key)
	N     int   // sleep us
	NilCB bool
	Fin   int `json:",omitempty"` // us the callback takes
	Again int `json:",omitempty"` // the callback adds one more batch, of so many items - 1
}
type Batch struct {
	Max, Conc, DelayUs int
	Durs               []int // executor durations, us
	Parts              int
	Ops                []BatchOp
}

type GCLOp struct {
	At   int    // ms
	Op   string // produce | txn | pause | pauseall | resume | compact
	Part int
	N    int // number of records, or offset in percent of the log, or tail kept
	Key  int
	// transactions
	Abort  bool `json:",omitempty"`
	OpenMs int  `json:",omitempty"`
	Spread bool `json:",omitempty"` // over all partitions
}
type GCL struct {
	Broker  Broker
	Parts   int
	Pre     []GCLOp // produce, txn, compact; before the log is started
	Ops     []GCLOp
	Paused  bool // all partitions paused before the start, resumed one by one
	Fork    bool // stopped through the run status it was created with
	SlowMs  int  // time the receiver takes
	Errs    int  // every n-th record is refused by the receiver
	StopMs  int  // stop after this time, if set, else at the end
	Faults  []Fault
	Compact bool // topic is compacted in the background
}

type TopicOp struct {
	Op    string // source | dest | delete
	Topic string
	Group string
	State string
	Parts int
	RF    int
	Min   int
	ClP   int
	Conc  int
}
type PreTopic struct {
	Name  string
	Parts int
	RF    int
	State bool
}
type Topics struct {
	StateNodes int
	Broker     Broker
	Split      bool
	Pre        []PreTopic
	Ops        []TopicOp
	Faults     []Fault
}

type Item struct {
	A string  `json:"a"`
	N int64   `json:"n,omitempty"`
	F []int32 `json:"f"`
}
type ProdRec struct {
	Key, Val []byte      // nil: not set
	Headers  [][2]string `json:",omitempty"`
	Type     string      `json:",omitempty"`
	Topic    int         // -1: the default topic
	Part     int32       // -1: not set
	Conv     bool        `json:",omitempty"` // convert (ToKafkaRecord, AsIncomingRecord) before sending
	Chunks   bool        `json:",omitempty"` // write key and value in two pieces
	KeyHow   int         `json:",omitempty"` // which of the functions that write keys
	ValHow   int         `json:",omitempty"` // ... values
	Item     *Item       `json:",omitempty"` // Val is the JSON of this, written by a helper (which of them: ValHow)
}
type ProdOp struct {
	Op      string // produce | async | batch | forward | change | sleep | close | waste
	Recs    []ProdRec
	Prod    int  // which producer
	Part    int  // partition of the input event
	Ms      int  `json:",omitempty"`
	Release bool `json:",omitempty"` // release records when their outcome is known
	Cancel  int  `json:",omitempty"` // cancel the context after so many ms (-1: before)
	NoCB    bool `json:",omitempty"`
	Async   bool `json:",omitempty"` // forward in a later completion
}
type Prod struct {
	Broker Broker
	Parts  []int // of the topics t0, t1, ..
	Ops    []ProdOp
	Faults []Fault
}

// A consumer group of incremental rebalancers.
type RebalOp struct {
	At int    // ms
	Op string // join | crash | leave | close
	M  int
}
type Rebal struct {
	Broker   Broker
	Parts    int
	Ops      []RebalOp
	PrepMs   []int // how long the preparations take, in turn
	FailAt   []int // the preparations which fail (their number over all members)
	RevokeMs int
	LingerMs int // a member stays that long after it was told that it may leave
	Faults   []Fault
}

// CPULimitS is the CPU time after which a simulation is taken to be spinning.
func CPULimitS(kind string) int {
	switch kind {
	case "sched", "batch":
		return 6
	}
	return 25
}
