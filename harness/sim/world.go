package sim

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Ext is the index of the external replication source.
const Ext = 9

// NoSrc means that replication is not configured.
const NoSrc = -1

// Inst is a simulated mysqld.
// spec/MySQL.tla specifies the same state and the same transitions; every
// transition made here is re-executed by TLC when the trace is validated.
type Inst struct {
	Idx      int
	ServerID int
	UUID     string
	UUIDGen  int
	Up       bool
	Hidden   bool // MOCO cannot reach it
	Cut      bool // replication to and from it is cut
	Slow     bool // the SQL thread does not apply
	RO, SRO  bool
	Exec     TxnSet
	Pend     TxnSet // written to the binlog, waiting for semi-sync acks
	Ret      TxnSet // in the relay log (Retrieved_Gtid_Set)
	Purged   TxnSet
	Src      int
	SrcHost  string
	IO, SQL  bool
	IOSemi   bool // the IO thread was started with semi-sync
	IOErr    int
	SemiM    bool
	SemiS    bool
	Wait     int
	Clone    string // "", "In Progress", "Completed", "Failed"
	Behind   int    // Seconds_Behind_Source, -1: NULL
	acks     map[Txn]map[int]bool
	owner    map[Txn]uint64
	sess     map[uint64]*Sess
	nextSeq  int
	order    []Txn
	Dirty    bool // lost received transactions and did not catch up yet
}

// Sess is a client connection to an instance.
type Sess struct {
	ID     uint64
	User   string
	Host   string
	Inst   int
	System bool // must not be killed
	Writer bool
	Busy   bool
	Client int
}

// Event is a line of the trace.
type Event = map[string]any

// Op describes one operation of MOCO, as seen by a hook.
type Op struct {
	Index int
	Kind  string // sql, k8s, agent
	Inst  int
	What  string
	Mut   bool
}

// Action is what a hook wants to happen to an operation.
type Action int

const (
	Proceed    Action = iota
	FailBefore        // the operation fails and has no effect
	FailAfter         // the operation takes effect, but reports an error
)

// World is the simulated environment of one cluster.
type World struct {
	mu      sync.Mutex
	ID      int
	N       int
	Insts   map[int]*Inst
	Rng     *rand.Rand
	Gen     int
	Hook    func(Op) Action
	Between func(Op) // background activity right before an operation of MOCO; locked
	opIndex int
	out     io.Writer
	enc     *json.Encoder
	nev     int
	closed  bool
	txnID   map[Txn]int
	nextID  uint64
	acked   TxnSet
	Resolve func(host string) int // hostname to instance index or NoSrc
	Cred    func(src int, user, pw, port string) bool
	Unknown []string      // SQL the simulator does not understand
	Foreign map[int][]int // server ids of replicas outside the cluster, by their source
	Muted   bool
	Mute    map[string]bool // kinds of events not written
	Counts  map[string]int
	Ops     []Op // recorded when RecordOps
	RecOps  bool
}

// NewWorld creates a world whose events go to out.
func NewWorld(id int, seed int64, out io.Writer) *World {
	w := &World{
		ID:     id,
		Insts:  map[int]*Inst{},
		Rng:    rand.New(rand.NewSource(seed)),
		out:    out,
		txnID:  map[Txn]int{},
		nextID: 100,
		acked:  TxnSet{},
		Mute:   map[string]bool{},
		Counts: map[string]int{},
	}
	w.enc = json.NewEncoder(out)
	return w
}

func uuidOf(idx, gen int) string {
	return fmt.Sprintf("%08x-0000-4000-8000-%012x", gen+1, idx+1)
}

// AddInst adds an instance.
func (w *World) AddInst(idx, serverID int) *Inst {
	i := &Inst{
		Idx: idx, ServerID: serverID, UUID: uuidOf(idx, 0),
		Up: true, RO: true, SRO: true,
		Exec: TxnSet{}, Pend: TxnSet{}, Ret: TxnSet{}, Purged: TxnSet{},
		Src: NoSrc, Wait: 1, Behind: -1,
		acks: map[Txn]map[int]bool{}, owner: map[Txn]uint64{}, sess: map[uint64]*Sess{},
	}
	w.Insts[idx] = i
	w.addSystem(i)
	return i
}

func (w *World) addSystem(i *Inst) {
	for _, s := range []Sess{
		{User: "moco-agent", Host: "10.0.0.1:4000", System: true},
		{User: "moco-repl", Host: "10.0.0.2:4000", System: true},
		{User: "system user", Host: "", System: true},
		{User: "event_scheduler", Host: "localhost", System: true},
		{User: "operator-root", Host: "localhost", System: true},
	} {
		w.nextID++
		s := s
		s.ID = w.nextID
		s.Inst = i.Idx
		i.sess[s.ID] = &s
	}
}

// Lock and Unlock give drivers atomic access.
func (w *World) Lock()   { w.mu.Lock() }
func (w *World) Unlock() { w.mu.Unlock() }

func (w *World) id(t Txn) int {
	if w.txnID[t] == 0 {
		w.txnID[t] = len(w.txnID) + 1
	}
	return w.txnID[t]
}

// IDs projects a set of transactions to sorted integers.
func (w *World) IDs(s TxnSet) []int {
	r := make([]int, 0, len(s))
	for t := range s {
		r = append(r, w.id(t))
	}
	sort.Ints(r)
	return r
}

func (w *World) proj(i *Inst) map[string]any {
	return map[string]any{
		"up": i.Up, "ro": i.RO, "sro": i.SRO, "exec": w.IDs(i.Exec), "pend": w.IDs(i.Pend),
		"ret": w.IDs(i.Ret), "purged": w.IDs(i.Purged), "src": i.Src, "io": i.IO, "sql": i.SQL,
		"iosemi": i.IOSemi, "semim": i.SemiM, "semis": i.SemiS, "wait": i.Wait, "clone": i.Clone,
	}
}

// Emit writes an event; the world must be locked.
func (w *World) Emit(ev string, kv ...any) {
	w.Counts[ev]++
	if w.Mute[ev] || w.Muted {
		return
	}
	e := Event{"e": ev}
	for k := 0; k+1 < len(kv); k += 2 {
		e[kv[k].(string)] = kv[k+1]
	}
	w.nev++
	_ = w.enc.Encode(e)
}

// EmitPost is Emit with the projected state of the instance.
func (w *World) EmitPost(ev string, i *Inst, kv ...any) {
	w.Emit(ev, append(kv, "i", i.Idx, "post", w.proj(i))...)
}

// EmitReset starts a trace.
func (w *World) EmitReset(kv ...any) {
	idxs := make([]int, 0, len(w.Insts))
	for k := range w.Insts {
		idxs = append(idxs, k)
	}
	sort.Ints(idxs)
	var is []map[string]any
	for _, k := range idxs {
		p := w.proj(w.Insts[k])
		p["idx"] = k
		p["gen"] = w.Insts[k].UUIDGen
		p["hidden"], p["cut"], p["behind"] = w.Insts[k].Hidden, w.Insts[k].Cut, w.Insts[k].Behind
		is = append(is, p)
	}
	orgs := [][]int{}
	for t, id := range w.txnID {
		for _, k := range idxs {
			for g := 0; g <= w.Insts[k].UUIDGen; g++ {
				if uuidOf(k, g) == t.UUID {
					orgs = append(orgs, []int{id, k, g})
				}
			}
		}
	}
	sort.Slice(orgs, func(a, b int) bool { return orgs[a][0] < orgs[b][0] })
	w.Emit("reset", append(kv, "insts", is, "world", w.ID, "orgs", orgs, "acked", w.IDs(w.acked))...)
}

// Close ends the world.
func (w *World) Close() {
	w.mu.Lock()
	w.closed = true
	w.mu.Unlock()
}

func (w *World) Closed() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.closed
}

// Enter is called by every operation of MOCO before it takes effect.
// Callers must not hold the lock.
func (w *World) Enter(gen int, kind string, inst int, what string, mut bool) (Action, bool) {
	w.mu.Lock()
	if gen != w.Gen || w.closed {
		w.mu.Unlock()
		return FailBefore, false
	}
	w.opIndex++
	op := Op{Index: w.opIndex, Kind: kind, Inst: inst, What: what, Mut: mut}
	if w.RecOps {
		w.Ops = append(w.Ops, op)
	}
	h := w.Hook
	if w.Between != nil {
		w.Between(op)
	}
	w.mu.Unlock()
	if h == nil {
		return Proceed, true
	}
	a := h(op)
	w.mu.Lock()
	if a != Proceed && gen == w.Gen && !w.closed {
		w.Emit("opfail", "i", inst, "what", what, "after", a == FailAfter)
	}
	alive := gen == w.Gen && !w.closed
	w.mu.Unlock()
	if !alive && a != FailAfter {
		return FailBefore, false
	}
	return a, true
}

// OpCount returns the number of operations seen.
func (w *World) OpCount() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.opIndex
}

// ---- transitions of the environment (locked by the caller) ----

func (w *World) resolve(host string) int {
	if w.Resolve == nil {
		return NoSrc
	}
	return w.Resolve(host)
}

// Write performs one client transaction on a session.
func (w *World) Write(s *Sess) bool {
	i := w.Insts[s.Inst]
	if i == nil || !i.Up || i.RO || i.sess[s.ID] == nil || s.Busy {
		return false
	}
	t := w.newTxn(i)
	if i.SemiM && i.Wait > 0 {
		i.Pend[t] = true
		i.acks[t] = map[int]bool{}
		i.owner[t] = s.ID
		s.Busy = true
		w.EmitPost("write", i, "t", w.id(t), "s", int(s.ID), "acked", []int{})
	} else {
		i.Exec[t] = true
		w.acked[t] = true
		w.EmitPost("write", i, "t", w.id(t), "s", int(s.ID), "acked", []int{w.id(t)})
	}
	return true
}

func (w *World) newTxn(i *Inst) Txn {
	i.nextSeq++
	t := Txn{i.UUID, i.nextSeq}
	i.order = append(i.order, t)
	return t
}

// Hang makes a transaction of a client wait for acknowledgements while a world is set up.
func (w *World) Hang(i *Inst) {
	t := w.newTxn(i)
	w.id(t)
	i.Pend[t] = true
}

// Inject commits a transaction locally, as a privileged user could, without
// semi-sync (e.g. an errant transaction on a replica).
func (w *World) Inject(i *Inst) {
	if !i.Up {
		return
	}
	t := w.newTxn(i)
	i.Exec[t] = true
	w.EmitPost("inject", i, "t", w.id(t))
}

func (w *World) commit(i *Inst, t Txn, ack bool) {
	delete(i.Pend, t)
	i.Exec[t] = true
	if s := i.sess[i.owner[t]]; s != nil {
		s.Busy = false
	}
	delete(i.owner, t)
	delete(i.acks, t)
	if ack {
		w.acked[t] = true
	}
}

// settle commits the transactions that have enough acks.
func (w *World) settle(i *Inst) []int {
	var out TxnSet = TxnSet{}
	for t := range i.Pend {
		if !i.SemiM || len(i.acks[t]) >= i.Wait {
			out[t] = true
		}
	}
	for t := range out {
		w.commit(i, t, true)
	}
	return w.IDs(out)
}

// source returns the instance that r replicates from, if it is connected.
func (w *World) source(r *Inst) *Inst {
	if !r.Up || !r.IO || r.Cut || r.Src == NoSrc {
		return nil
	}
	s := w.Insts[r.Src]
	if s == nil || !s.Up || s.Cut || s == r {
		return nil
	}
	return s
}

// missing returns the next transaction r would retrieve from s.
func (w *World) missing(r, s *Inst) (Txn, bool) {
	have := r.Exec.Union(r.Ret)
	cand := s.Exec.Union(s.Pend).Minus(have)
	if len(cand) == 0 {
		return Txn{}, false
	}
	best := Txn{}
	bid := 1 << 30
	for t := range cand {
		if w.id(t) < bid {
			bid = w.id(t)
			best = t
		}
	}
	return best, true
}

// Retrieve makes the IO thread of r read one transaction.
func (w *World) Retrieve(r *Inst) bool {
	s := w.source(r)
	if s == nil {
		return false
	}
	have := r.Exec.Union(r.Ret)
	if len(s.Purged.Minus(have)) > 0 {
		r.IO = false
		r.IOErr = 13114
		w.EmitPost("ioerr", r)
		return true
	}
	t, ok := w.missing(r, s)
	if !ok {
		return false
	}
	r.Ret[t] = true
	acked := []int{}
	if s.Pend[t] && r.IOSemi {
		s.acks[t][r.Idx] = true
		acked = w.settle(s)
	}
	w.EmitPost("retrieve", r, "s", s.Idx, "t", w.id(t), "acked", acked, "spost", w.proj(s))
	return true
}

// Apply makes the SQL thread of r apply one transaction.
func (w *World) Apply(r *Inst) bool {
	if !r.Up || !r.SQL || r.Slow {
		return false
	}
	todo := r.Ret.Minus(r.Exec)
	if len(todo) == 0 {
		return false
	}
	best := Txn{}
	bid := 1 << 30
	for t := range todo {
		if w.id(t) < bid {
			bid = w.id(t)
			best = t
		}
	}
	r.Exec[best] = true
	w.EmitPost("apply", r, "t", w.id(best))
	return true
}

// Crash stops mysqld.
func (w *World) Crash(i *Inst) {
	if !i.Up {
		return
	}
	i.Up = false
	i.acks = map[Txn]map[int]bool{}
	i.owner = map[Txn]uint64{}
	i.sess = map[uint64]*Sess{}
	w.EmitPost("crash", i)
}

// Restart starts mysqld.
func (w *World) Restart(i *Inst) {
	if i.Up {
		return
	}
	i.Up = true
	i.RO, i.SRO = true, true
	i.IO, i.SQL, i.IOSemi = false, false, false
	i.IOErr = 0
	i.SemiM, i.SemiS = false, false
	i.Wait = 1
	for t := range i.Pend {
		i.Exec[t] = true
	}
	i.Pend = TxnSet{}
	i.sess = map[uint64]*Sess{}
	w.addSystem(i)
	w.EmitPost("restart", i)
}

// Wipe loses the data of a stopped instance.
func (w *World) Wipe(i *Inst) {
	if i.Up {
		w.Crash(i)
	}
	i.UUIDGen++
	i.UUID = uuidOf(i.Idx, i.UUIDGen)
	i.nextSeq = 0
	i.Exec, i.Pend, i.Ret, i.Purged = TxnSet{}, TxnSet{}, TxnSet{}, TxnSet{}
	i.Src, i.SrcHost, i.IO, i.SQL, i.IOSemi = NoSrc, "", false, false, false
	i.Clone = ""
	i.Dirty = true
	w.EmitPost("wipe", i)
}

// Net emits the reachability of an instance after the driver changed it.
func (w *World) Net(i *Inst) {
	w.Emit("net", "i", i.Idx, "hidden", i.Hidden, "cut", i.Cut, "slow", i.Slow, "behind", i.Behind)
}

// Purge drops binary logs containing everything executed so far.
func (w *World) Purge(i *Inst) {
	i.Purged = i.Exec.Clone()
	w.EmitPost("purge", i)
}

// DoClone makes i a copy of s.
func (w *World) DoClone(i, s *Inst) {
	w.Emit("clonebegin", "i", i.Idx, "s", s.Idx)
	i.Exec = s.Exec.Clone()
	i.Purged = s.Exec.Clone()
	i.Ret, i.Pend = TxnSet{}, TxnSet{}
	i.acks = map[Txn]map[int]bool{}
	i.RO, i.SRO = true, true
	i.IO, i.SQL, i.IOSemi = false, false, false
	i.SemiM, i.SemiS = false, false
	i.Wait = 1
	i.Src, i.SrcHost = NoSrc, ""
	i.Clone = "Completed"
	i.owner = map[Txn]uint64{}
	i.sess = map[uint64]*Sess{}
	w.addSystem(i)
	w.EmitPost("clone", i, "s", s.Idx)
}

// Open opens a client session.
func (w *World) Open(client int, inst int, writer bool, user string) *Sess {
	i := w.Insts[inst]
	if i == nil || !i.Up {
		return nil
	}
	w.nextID++
	s := &Sess{ID: w.nextID, User: user, Host: "10.1.0.1:" + strconv.Itoa(int(w.nextID)), Inst: inst, Writer: writer, Client: client}
	i.sess[s.ID] = s
	w.Emit("open", "i", inst, "s", int(s.ID), "w", writer)
	return s
}

// CloseSess ends an idle client session.
func (w *World) CloseSess(s *Sess) {
	if s == nil || !w.Alive(s) || s.Busy {
		return
	}
	delete(w.Insts[s.Inst].sess, s.ID)
	w.Emit("close", "i", s.Inst, "s", int(s.ID))
}

// Alive reports whether the session still exists.
func (w *World) Alive(s *Sess) bool {
	i := w.Insts[s.Inst]
	return i != nil && i.Up && i.sess[s.ID] == s
}

func (w *World) kill(i *Inst, id uint64) *SQLError {
	s := i.sess[id]
	if s == nil {
		return &SQLError{1094, "HY000", fmt.Sprintf("Unknown thread id: %d", id)}
	}
	delete(i.sess, id)
	if s.System {
		w.EmitPost("killsys", i, "user", s.User)
		return nil
	}
	for t, o := range i.owner {
		if o == id {
			w.commit(i, t, false)
		}
	}
	w.EmitPost("kill", i, "s", int(id))
	return nil
}

// Acked returns the acknowledged transactions.
func (w *World) Acked() TxnSet { return w.acked }

// PumpOnce lets replication progress.  It returns whether something happened.
func (w *World) PumpOnce() bool {
	any := false
	for k := 0; k < 10; k++ {
		if i := w.Insts[k]; i != nil && k != Ext {
			if w.Retrieve(i) {
				any = true
			}
			if w.Apply(i) {
				any = true
			}
		}
	}
	return any
}

// ---- the SQL front end ----

type inst2 struct {
	w   *World
	idx int
	gen int
}

// Endpoint returns the MySQL server endpoint of instance idx, as seen by the
// MOCO process of generation gen.
func (w *World) Endpoint(idx, gen int) func() (Handler, error) {
	return func() (Handler, error) { return &inst2{w, idx, gen}, nil }
}

func (h *inst2) Connect() (uint64, error) {
	w := h.w
	w.mu.Lock()
	defer w.mu.Unlock()
	i := w.Insts[h.idx]
	if h.gen != w.Gen || w.closed || i == nil || !i.Up || i.Hidden {
		if h.gen == w.Gen && !w.closed {
			w.Emit("unreach", "i", h.idx)
		}
		return 0, fmt.Errorf("sim: connection refused")
	}
	w.nextID++
	return w.nextID, nil
}

func (h *inst2) Disconnect(uint64) {}

func b2s(b bool) string {
	if b {
		return "1"
	}
	return "0"
}

func one(col string, v any) *Result { return &Result{Cols: []string{col}, Rows: [][]any{{v}}} }

func (h *inst2) Query(_ uint64, raw string) (*Result, error) {
	w := h.w
	q := normSQL(raw)
	uq := strings.ToUpper(q)
	act, _ := w.Enter(h.gen, "sql", h.idx, uq, !isRead(uq))
	if act == FailBefore {
		return nil, ErrDropConn
	}
	res, err := h.exec(q, uq)
	if act == FailAfter {
		return nil, ErrDropConn
	}
	return res, err
}

func isRead(uq string) bool {
	return strings.HasPrefix(uq, "SELECT") || strings.HasPrefix(uq, "SHOW") || strings.HasPrefix(uq, "/*")
}

// check returns the instance if the connection is still good; locked.
func (h *inst2) check() (*Inst, error) {
	i := h.w.Insts[h.idx]
	if h.w.closed || h.gen != h.w.Gen || i == nil || !i.Up || i.Hidden {
		return nil, ErrDropConn
	}
	return i, nil
}

func (h *inst2) exec(q, uq string) (*Result, error) {
	w := h.w
	w.mu.Lock()
	defer w.mu.Unlock()
	i, err := h.check()
	if err != nil {
		return nil, err
	}

	switch {
	case strings.HasPrefix(uq, "/*PING"):
		return nil, nil

	case strings.HasPrefix(uq, "SELECT @@"):
		return w.selectVars(i, q)

	case strings.HasPrefix(uq, "SELECT") && strings.Contains(uq, "PERFORMANCE_SCHEMA.GLOBAL_STATUS"):
		if strings.Contains(uq, "RPL_SEMI_SYNC_MASTER_WAIT_SESSIONS") || strings.Contains(uq, "RPL_SEMI_SYNC_SOURCE_WAIT_SESSIONS") {
			n := 0
			if i.SemiM {
				n = len(i.Pend)
			}
			return one("VARIABLE_VALUE", strconv.Itoa(n)), nil
		}

	case uq == "SHOW REPLICAS" || uq == "SHOW SLAVE HOSTS":
		r := &Result{Cols: []string{"Server_Id", "Host", "Port", "Source_Id", "Replica_UUID"}}
		for k := 0; k < 10; k++ {
			if rp := w.Insts[k]; rp != nil && w.source(rp) == i {
				r.Rows = append(r.Rows, []any{strconv.Itoa(rp.ServerID), "", "3306", strconv.Itoa(i.ServerID), rp.UUID})
			}
		}
		for _, id := range w.Foreign[i.Idx] {
			r.Rows = append(r.Rows, []any{strconv.Itoa(id), "", "3306", strconv.Itoa(i.ServerID), uuidOf(900+id%50, 0)})
		}
		return r, nil

	case uq == "SHOW REPLICA STATUS" || uq == "SHOW SLAVE STATUS":
		return w.replicaStatus(i), nil

	case strings.HasPrefix(uq, "SELECT STATE FROM PERFORMANCE_SCHEMA.CLONE_STATUS"):
		r := &Result{Cols: []string{"state"}}
		if i.Clone != "" {
			r.Rows = append(r.Rows, []any{i.Clone})
		}
		return r, nil

	case strings.HasPrefix(uq, "SELECT SUBSTRING_INDEX(VERSION()"):
		return one("v", "8.4"), nil
	case strings.HasPrefix(uq, "SELECT VERSION()"):
		return one("v", "8.4.0"), nil

	case strings.HasPrefix(uq, "SELECT GTID_SUBSET("), strings.HasPrefix(uq, "SELECT GTID_SUBTRACT("):
		args := sqlArgs(q)
		if len(args) == 2 {
			a, e1 := ParseGTID(args[0])
			b, e2 := ParseGTID(args[1])
			if e1 != nil || e2 != nil {
				return nil, &SQLError{1772, "HY000", "Malformed GTID set specification"}
			}
			if strings.HasPrefix(uq, "SELECT GTID_SUBSET(") {
				return one("r", b2s(a.SubsetOf(b))), nil
			}
			return one("r", a.Minus(b).String()), nil
		}

	case strings.HasPrefix(uq, "SELECT WAIT_FOR_EXECUTED_GTID_SET("):
		args := sqlArgs(q)
		if len(args) >= 1 {
			set, e := ParseGTID(args[0])
			if e != nil {
				return nil, &SQLError{1772, "HY000", "Malformed GTID set specification"}
			}
			timeout := 0.0
			if len(args) > 1 {
				timeout, _ = strconv.ParseFloat(args[1], 64)
			}
			start := time.Now()
			for {
				if set.SubsetOf(i.Exec) {
					w.Emit("waited", "i", i.Idx, "set", w.IDs(set), "ok", true)
					return one("r", "0"), nil
				}
				if timeout > 0 && time.Since(start).Seconds() >= timeout {
					w.Emit("waited", "i", i.Idx, "set", w.IDs(set), "ok", false)
					return one("r", "1"), nil
				}
				if w.closed || time.Since(start) > 2*time.Minute { // the client has a read timeout of a minute
					return nil, ErrDropConn
				}
				w.mu.Unlock()
				time.Sleep(10 * time.Millisecond)
				w.mu.Lock()
				if i, err = h.check(); err != nil {
					return nil, err
				}
			}
		}

	case strings.HasPrefix(uq, "SELECT") && strings.Contains(uq, "INFORMATION_SCHEMA.PROCESSLIST"),
		uq == "SHOW PROCESSLIST", strings.HasPrefix(uq, "SELECT") && strings.Contains(uq, "PERFORMANCE_SCHEMA.PROCESSLIST"):
		r := &Result{Cols: []string{"ID", "USER", "HOST"}}
		ids := make([]int, 0, len(i.sess))
		for id := range i.sess {
			ids = append(ids, int(id))
		}
		sort.Ints(ids)
		for _, id := range ids {
			s := i.sess[uint64(id)]
			r.Rows = append(r.Rows, []any{strconv.Itoa(id), s.User, s.Host})
		}
		return r, nil

	case strings.HasPrefix(uq, "KILL "):
		f := strings.Fields(uq)
		id, e := strconv.ParseUint(f[len(f)-1], 10, 64)
		if e == nil {
			if len(f) > 2 && f[1] == "QUERY" { // the connection remains
				return nil, nil
			}
			if se := w.kill(i, id); se != nil {
				return nil, se
			}
			return nil, nil
		}

	case uq == "STOP REPLICA" || uq == "STOP SLAVE":
		i.IO, i.SQL, i.IOSemi = false, false, false
		w.EmitPost("stopreplica", i)
		return nil, nil
	case uq == "STOP REPLICA IO_THREAD" || uq == "STOP SLAVE IO_THREAD":
		i.IO, i.IOSemi = false, false
		w.EmitPost("stopio", i)
		return nil, nil
	case uq == "STOP REPLICA SQL_THREAD" || uq == "STOP SLAVE SQL_THREAD":
		i.SQL = false
		w.EmitPost("stopsql", i)
		return nil, nil
	case uq == "START REPLICA" || uq == "START SLAVE":
		if i.SrcHost == "" {
			return nil, &SQLError{1200, "HY000", "The server is not configured as replica"}
		}
		i.IO, i.SQL, i.IOSemi, i.IOErr = true, true, i.SemiS, 0
		w.EmitPost("startreplica", i)
		return nil, nil
	case uq == "RESET REPLICA" || uq == "RESET SLAVE" || uq == "RESET REPLICA ALL" || uq == "RESET SLAVE ALL":
		if i.IO || i.SQL {
			return nil, &SQLError{3081, "HY000", "This operation cannot be performed with running replication threads"}
		}
		i.Dirty = i.Dirty || !i.Ret.SubsetOf(i.Exec)
		i.Ret = TxnSet{}
		if strings.HasSuffix(uq, "ALL") {
			i.Src, i.SrcHost = NoSrc, ""
		}
		w.EmitPost("resetreplica", i, "all", strings.HasSuffix(uq, "ALL"))
		return nil, nil

	case strings.HasPrefix(uq, "CHANGE REPLICATION SOURCE TO ") || strings.HasPrefix(uq, "CHANGE MASTER TO "):
		if i.IO {
			return nil, &SQLError{3021, "HY000", "This operation cannot be performed with a running replica io thread"}
		}
		kv := parseAssign(q[strings.Index(uq, " TO ")+4:])
		host := kv["SOURCE_HOST"]
		if host == "" {
			host = kv["MASTER_HOST"]
		}
		if host == "" {
			break
		}
		user, port := kv["SOURCE_USER"]+kv["MASTER_USER"], kv["SOURCE_PORT"]+kv["MASTER_PORT"]
		auto := kv["SOURCE_AUTO_POSITION"] + kv["MASTER_AUTO_POSITION"]
		i.SrcHost = host
		i.Src = w.resolve(host)
		i.Dirty = i.Dirty || !i.Ret.SubsetOf(i.Exec)
		i.Ret = TxnSet{}
		pw := kv["SOURCE_PASSWORD"] + kv["MASTER_PASSWORD"]
		w.EmitPost("changesource", i, "s", i.Src, "auto", auto == "1", "cred", w.Cred == nil || w.Cred(i.Src, user, pw, port))
		return nil, nil

	case strings.HasPrefix(uq, "SET GLOBAL "):
		kv := parseAssign(q[len("SET GLOBAL "):])
		handled := len(kv) == 1
		for k, v := range kv {
			v = strings.ToUpper(v)
			on := v == "1" || v == "ON" || v == "TRUE"
			switch k {
			case "SUPER_READ_ONLY":
				if on {
					start := time.Now()
					for len(i.Pend) > 0 && i.SemiM {
						if w.closed || time.Since(start) > 2*time.Minute {
							return nil, ErrDropConn
						}
						w.mu.Unlock()
						time.Sleep(10 * time.Millisecond)
						w.mu.Lock()
						if i, err = h.check(); err != nil {
							return nil, err
						}
					}
					i.RO, i.SRO = true, true
				} else {
					i.SRO = false
				}
				w.EmitPost("setsro", i, "on", on)
			case "READ_ONLY":
				i.RO = on
				if !on {
					i.SRO = false
				}
				w.EmitPost("setro", i, "on", on)
			case "RPL_SEMI_SYNC_MASTER_ENABLED", "RPL_SEMI_SYNC_SOURCE_ENABLED":
				i.SemiM = on
				acked := []int{}
				if !on {
					acked = w.settle(i)
				}
				w.EmitPost("setsemim", i, "on", on, "acked", acked)
			case "RPL_SEMI_SYNC_SLAVE_ENABLED", "RPL_SEMI_SYNC_REPLICA_ENABLED":
				i.SemiS = on
				w.EmitPost("setsemis", i, "on", on)
			case "RPL_SEMI_SYNC_MASTER_WAIT_FOR_SLAVE_COUNT", "RPL_SEMI_SYNC_SOURCE_WAIT_FOR_REPLICA_COUNT":
				n, e := strconv.Atoi(v)
				if e != nil || n < 1 {
					return nil, &SQLError{1231, "42000", "Variable can't be set to the value of " + v}
				}
				i.Wait = n
				acked := w.settle(i)
				w.EmitPost("setwait", i, "n", n, "acked", acked)
			case "RPL_SEMI_SYNC_MASTER_TIMEOUT", "RPL_SEMI_SYNC_SOURCE_TIMEOUT":
				n, _ := strconv.Atoi(v)
				w.Emit("settimeout", "i", i.Idx, "long", n >= 3600*1000)
			case "LOCAL_INFILE":
			default:
				handled = false
			}
		}
		if handled {
			return nil, nil
		}
	}

	w.Unknown = append(w.Unknown, q)
	return nil, &SQLError{1064, "42000", "sim: unsupported statement: " + q}
}

func (w *World) selectVars(i *Inst, q string) (*Result, error) {
	names := strings.Split(q[len("SELECT "):], ",")
	r := &Result{}
	var row []any
	for _, n := range names {
		n = strings.TrimSpace(n)
		name := n
		if k := strings.Index(strings.ToUpper(n), " AS "); k >= 0 {
			name, n = strings.TrimSpace(n[k+4:]), strings.TrimSpace(n[:k])
		}
		var v string
		key := strings.TrimPrefix(strings.ToLower(strings.TrimPrefix(n, "@@")), "global.")
		switch key {
		case "server_uuid":
			v = i.UUID
		case "gtid_executed":
			v = i.Exec.String()
		case "gtid_purged":
			v = i.Purged.String()
		case "read_only":
			v = b2s(i.RO)
		case "super_read_only":
			v = b2s(i.SRO)
		case "rpl_semi_sync_master_wait_for_slave_count":
			v = strconv.Itoa(i.Wait)
		case "rpl_semi_sync_master_enabled":
			v = b2s(i.SemiM)
		case "rpl_semi_sync_slave_enabled":
			v = b2s(i.SemiS)
		case "server_id":
			v = strconv.Itoa(i.ServerID)
		case "version":
			v = "8.4.0"
		default:
			w.Unknown = append(w.Unknown, q)
			return nil, &SQLError{1193, "HY000", "sim: unknown system variable " + key}
		}
		r.Cols = append(r.Cols, name)
		row = append(row, v)
	}
	r.Rows = [][]any{row}
	w.Emit("observe", "i", i.Idx)
	return r, nil
}

func yn(b bool) string {
	if b {
		return "Yes"
	}
	return "No"
}

func (w *World) replicaStatus(i *Inst) *Result {
	r := &Result{}
	cols := []string{}
	var row []any
	add := func(c string, v any) { cols = append(cols, c); row = append(row, v) }
	io := yn(i.IO)
	if i.IO && w.source(i) == nil {
		io = "Connecting"
	}
	add("Replica_IO_State", "")
	add("Source_Host", i.SrcHost)
	add("Source_User", "moco-repl")
	add("Source_Port", "3306")
	add("Replica_IO_Running", io)
	add("Replica_SQL_Running", yn(i.SQL))
	add("Last_IO_Errno", strconv.Itoa(i.IOErr))
	add("Last_IO_Error", "")
	add("Last_SQL_Errno", "0")
	add("Last_SQL_Error", "")
	add("Retrieved_Gtid_Set", i.Ret.String())
	add("Executed_Gtid_Set", i.Exec.String())
	var behind any
	if i.Behind >= 0 && i.SQL {
		behind = strconv.Itoa(i.Behind)
	}
	add("Seconds_Behind_Source", behind)
	add("Auto_Position", "1")
	add("Channel_Name", "")
	r.Cols = cols
	if i.SrcHost != "" {
		r.Rows = [][]any{row}
	}
	return r
}

// sqlArgs extracts the arguments of the first function call in q.
func sqlArgs(q string) []string {
	k := strings.Index(q, "(")
	if k < 0 {
		return nil
	}
	var args []string
	cur := ""
	in := false
	depth := 1
	for p := k + 1; p < len(q) && depth > 0; p++ {
		c := q[p]
		switch {
		case in && c == '\\' && p+1 < len(q):
			p++
			if q[p] == 'n' {
				cur += "\n"
			} else {
				cur += string(q[p])
			}
		case c == '\'':
			in = !in
		case in:
			cur += string(c)
		case c == '(':
			depth++
		case c == ')':
			depth--
			if depth == 0 {
				args = append(args, strings.TrimSpace(cur))
			}
		case c == ',':
			args = append(args, strings.TrimSpace(cur))
			cur = ""
		default:
			cur += string(c)
		}
	}
	return args
}

// parseAssign parses "A = 'x', B=2" with upper-cased keys.
func parseAssign(s string) map[string]string {
	r := map[string]string{}
	var parts []string
	cur := ""
	in := false
	for p := 0; p < len(s); p++ {
		c := s[p]
		switch {
		case in && c == '\\' && p+1 < len(s):
			p++
			cur += string(s[p])
		case c == '\'':
			in = !in
		case c == ',' && !in:
			parts = append(parts, cur)
			cur = ""
		default:
			cur += string(c)
		}
	}
	parts = append(parts, cur)
	for _, p := range parts {
		k, v, ok := strings.Cut(p, "=")
		if !ok {
			continue
		}
		k = strings.ToUpper(strings.TrimSpace(k))
		k = strings.TrimPrefix(k, "GLOBAL ")
		k = strings.TrimPrefix(k, "@@GLOBAL.")
		r[k] = strings.TrimSpace(strings.TrimPrefix(v, ":"))
	}
	return r
}
