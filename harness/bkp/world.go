package bkp

import (
	"archive/tar"
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
	"github.com/cybozu-go/moco/pkg/constants"
	corev1 "k8s.io/api/core/v1"
	"k8s.io/apimachinery/pkg/api/equality"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/labels"
	"verif/harness/sim"
)

const (
	gtidUUID = "11111111-2222-3333-4444-555555555555"
	epoch    = 1600000000
	password = "verif-password"
)

type txn struct {
	ID int `json:"id"`
	TS int `json:"ts"` // seconds after epoch
	DB string
}

type file struct {
	num  int
	txns []txn
}

// inst is a mysqld instance with its Pod.
type inst struct {
	ns, cluster string
	idx         int
	ip          string
	uuid        int
	up, ready   bool
	lag         bool
	version     string
	exec        map[int]bool
	files       []file
	ro, sro     bool
	infile      bool
	denied      int // connections to which status statements are denied
	unpinged    int // connections refused before it comes up
	pod         bool
	noip        int // GETs of the pod before it has an address
	conns       int
}

type object struct {
	key  string
	body []byte
}

type fault struct {
	at   int
	mode string // fail, lost, kill
}

type world struct {
	mu       sync.Mutex
	r        *rand.Rand
	out      *bytes.Buffer
	dir      string
	http     *httptest.Server
	sql      net.Listener
	clusters map[string]*mocov1beta2.MySQLCluster
	insts    []*inst
	txns     []txn
	now      int
	lastUUID int
	objects  map[string][]byte
	rv       int
	ops      int
	f        fault
	hit      bool
	hooks    map[int]func()
	proc     *exec.Cmd
	log      []string
	gone     bool
	closing  bool
	page     int
	dumps    int
}

func newWorld(seed int64, dir string) *world {
	w := &world{r: rand.New(rand.NewSource(seed)), out: &bytes.Buffer{}, dir: dir, clusters: map[string]*mocov1beta2.MySQLCluster{},
		objects: map[string][]byte{}, now: 1000, page: 3}
	w.http = httptest.NewServer(w)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	w.sql = l
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go w.connect(c)
		}
	}()
	must(os.MkdirAll(filepath.Join(dir, "bin"), 0o755))
	self, err := os.Executable()
	must(err)
	for _, n := range []string{"moco-backup", "mysqlsh", "mysqlbinlog", "mysql", "tar", "zstd"} {
		must(os.Symlink(self, filepath.Join(dir, "bin", n)))
	}
	kc := fmt.Sprintf(`{"apiVersion":"v1","kind":"Config","clusters":[{"name":"c","cluster":{"server":%q}}],"contexts":[{"name":"c","context":{"cluster":"c","user":"u"}}],"current-context":"c","users":[{"name":"u","user":{}}]}`, w.http.URL)
	must(os.WriteFile(filepath.Join(dir, "kubeconfig"), []byte(kc), 0o644))
	return w
}

func (w *world) close() {
	w.mu.Lock()
	w.closing = true
	w.mu.Unlock()
	_ = w.sql.Close()
	w.http.CloseClientConnections()
	w.http.Close()
	_ = os.RemoveAll(w.dir)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func (w *world) emit(m map[string]any) {
	b, err := json.Marshal(m)
	must(err)
	w.out.Write(append(b, '\n'))
}

// op counts an operation and tells what happens to it.
func (w *world) op(what string) string {
	w.ops++
	if w.log != nil || true {
		w.log = append(w.log, what)
	}
	if h := w.hooks[w.ops]; h != nil {
		delete(w.hooks, w.ops)
		h()
	}
	if w.gone {
		return "fail"
	}
	if w.f.at == w.ops {
		w.hit = true
		if w.f.mode == "kill" {
			w.kill()
			return "fail"
		}
		return w.f.mode
	}
	return ""
}

// done is called after the effect of an operation.
func (w *world) lost(mode string) bool {
	if mode == "killed" {
		w.kill()
	}
	return mode == "lost" || mode == "killed"
}

func (w *world) kill() {
	w.gone = true
	if w.proc != nil && w.proc.Process != nil {
		_ = syscall.Kill(-w.proc.Process.Pid, syscall.SIGKILL)
	}
}

// run executes moco-backup.
func (w *world) run(args ...string) int {
	work := filepath.Join(w.dir, "work")
	must(os.MkdirAll(work, 0o755))
	defer os.RemoveAll(work)
	ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, filepath.Join(w.dir, "bin", "moco-backup"),
		append([]string{"--work-dir", work, "--threads", "2", "--region", "verif", "--endpoint", w.http.URL, "--use-path-style"}, args...)...)
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	c.Env = []string{"PATH=" + filepath.Join(w.dir, "bin"), "KUBECONFIG=" + filepath.Join(w.dir, "kubeconfig"), "MYSQL_PASSWORD=" + password,
		"AWS_ACCESS_KEY_ID=a", "AWS_SECRET_ACCESS_KEY=b", "AWS_EC2_METADATA_DISABLED=true", "AWS_MAX_ATTEMPTS=1", "HOME=" + w.dir,
		"VERIF_SQL=" + w.sql.Addr().String(), "VERIF_WORLD=" + w.http.URL, "TZ=Asia/Tokyo", "GOMAXPROCS=2"}
	var se bytes.Buffer
	c.Stderr, c.Stdout = &se, &se
	w.mu.Lock()
	w.proc, w.gone, w.hit, w.ops = c, false, false, 0
	w.log = nil
	err := c.Start()
	w.mu.Unlock()
	must(err)
	err = c.Wait()
	if ctx.Err() != nil {
		panic("moco-backup did not finish: " + se.String())
	}
	_ = syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
	w.mu.Lock()
	defer w.mu.Unlock()
	w.proc = nil
	if os.Getenv("VERIF_DEBUG") != "" {
		os.Stderr.WriteString(se.String())
		for i, l := range w.log {
			fmt.Fprintln(os.Stderr, i+1, l)
		}
	}
	if err != nil {
		return 1
	}
	return 0
}

/* MySQL */

func gtids(s map[int]bool) string {
	ids := ints(s)
	if len(ids) == 0 {
		return ""
	}
	var parts []string
	for i := 0; i < len(ids); {
		j := i
		for j+1 < len(ids) && ids[j+1] == ids[j]+1 {
			j++
		}
		if i == j {
			parts = append(parts, strconv.Itoa(ids[i]))
		} else {
			parts = append(parts, fmt.Sprintf("%d-%d", ids[i], ids[j]))
		}
		i = j + 1
	}
	return gtidUUID + ":" + strings.Join(parts, ":")
}

func parseGTIDs(s string) map[int]bool {
	m := map[int]bool{}
	s = strings.Join(strings.Fields(s), "")
	if s == "" {
		return m
	}
	p := strings.Split(s, ":")
	if p[0] != gtidUUID {
		m[-1] = true
		return m
	}
	for _, x := range p[1:] {
		a, b, ok := strings.Cut(x, "-")
		lo, _ := strconv.Atoi(a)
		hi := lo
		if ok {
			hi, _ = strconv.Atoi(b)
		}
		for i := lo; i <= hi; i++ {
			m[i] = true
		}
	}
	return m
}

func ints(s map[int]bool) []int {
	r := []int{}
	for k, v := range s {
		if v {
			r = append(r, k)
		}
	}
	sort.Ints(r)
	return r
}

func subset(a, b map[int]bool) bool {
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

func (i *inst) purged() map[int]bool {
	p := map[int]bool{}
	for k := range i.exec {
		p[k] = true
	}
	for _, f := range i.files {
		for _, t := range f.txns {
			delete(p, t.ID)
		}
	}
	return p
}

func uuidStr(u int) string { return fmt.Sprintf("00000000-0000-0000-0000-%012d", u) }
func uuidInt(s string) int {
	p := strings.Split(s, "-")
	n, err := strconv.Atoi(p[len(p)-1])
	if err != nil || uuidStr(n) != s {
		return -1
	}
	return n
}
func logName(n int) string { return fmt.Sprintf("binlog.%06d", n) }
func logNum(s string) int {
	n, err := strconv.Atoi(strings.TrimPrefix(s, "binlog."))
	if err != nil || !strings.HasPrefix(s, "binlog.") {
		return -1
	}
	return n
}

// find resolves a host.
func (w *world) find(host string) *inst {
	for _, i := range w.insts {
		name := fmt.Sprintf("moco-%s-%d", i.cluster, i.idx)
		if i.pod && (host == i.ip || host == name+".moco-"+i.cluster+"."+i.ns+".svc" || strings.HasPrefix(host, name+".moco-"+i.cluster+"."+i.ns+".svc.")) {
			return i
		}
	}
	return nil
}

type session struct {
	w      *world
	i      *inst
	uuid   int
	denied bool
}

func (w *world) connect(c net.Conn) {
	br := bufio.NewReaderSize(c, 1)
	addr, err := br.ReadString('\n')
	if err != nil {
		_ = c.Close()
		return
	}
	host, port, _ := net.SplitHostPort(strings.TrimSpace(addr))
	w.mu.Lock()
	i := w.find(host)
	ok := i != nil && i.up && port == "3306" && !w.closing
	if ok && i.unpinged > 0 {
		i.unpinged--
		ok = false
	}
	if w.op("connect "+addr) != "" {
		ok = false
	}
	s := &session{w: w, i: i}
	if ok {
		i.conns++
		s.uuid = i.uuid
		s.denied = i.denied > 0
		if i.denied > 0 {
			i.denied--
		}
	}
	w.mu.Unlock()
	if !ok {
		_, _ = c.Write([]byte("-"))
		_ = c.Close()
		return
	}
	_, _ = c.Write([]byte("+"))
	sim.Serve(c, s)
}

func (s *session) Connect() (uint64, error) { return 1, nil }
func (s *session) Disconnect(uint64)        {}

var setRE = regexp.MustCompile(`(?i)^SET (?:GLOBAL |@@GLOBAL\.|PERSIST )(\w+) ?= ?(\S+)$`)
var subsetRE = regexp.MustCompile(`(?i)^SELECT GTID_SUBSET\(@@(?:GLOBAL\.)?GTID_PURGED, ?'([^']*)'\)`)

func (s *session) Query(_ uint64, q string) (*sim.Result, error) {
	w := s.w
	w.mu.Lock()
	defer w.mu.Unlock()
	q = strings.Join(strings.Fields(q), " ")
	if strings.Contains(q, "/*ping*/") {
		if w.op("ping") != "" || !s.i.up {
			return nil, sim.ErrDropConn
		}
		return nil, nil
	}
	mode := w.op("sql " + q)
	if mode == "fail" || !s.i.up || s.i.uuid != s.uuid {
		if w.r.Intn(2) == 0 {
			return nil, sim.ErrDropConn
		}
		return nil, &sim.SQLError{Code: 1105, State: "HY000", Msg: "injected"}
	}
	res, err := w.query(s, q)
	if w.lost(mode) {
		return nil, sim.ErrDropConn
	}
	if err == nil && strings.Contains(strings.ToLower(q), "server_uuid") {
		w.emit(map[string]any{"e": "seen", "at": w.ref(s.i), "uuid": s.i.uuid})
	}
	return res, err
}

func bit(b bool) string {
	if b {
		return "1"
	}
	return "0"
}

func (w *world) query(s *session, q string) (*sim.Result, error) {
	i := s.i
	uq := strings.ToUpper(q)
	row := func(cols []string, vals ...any) *sim.Result { return &sim.Result{Cols: cols, Rows: [][]any{vals}} }
	if m := setRE.FindStringSubmatch(q); m != nil {
		on := m[2] == "1" || strings.EqualFold(m[2], "on")
		switch strings.ToLower(m[1]) {
		case "local_infile":
			i.infile = on
		case "read_only":
			i.ro = on
			if !on {
				i.sro = false
			}
		case "super_read_only":
			i.sro = on
			if on {
				i.ro = true
			}
		default:
			return nil, &sim.SQLError{Code: 1193, State: "HY000", Msg: "Unknown system variable"}
		}
		w.emit(map[string]any{"e": "set", "at": w.ref(i), "ro": i.ro, "sro": i.sro, "infile": i.infile})
		return nil, nil
	}
	if m := subsetRE.FindStringSubmatch(q); m != nil {
		return row([]string{"x"}, bit(subset(i.purged(), parseGTIDs(m[1])))), nil
	}
	switch {
	case strings.HasPrefix(uq, "SELECT SUBSTRING_INDEX(VERSION()"):
		return row([]string{"v"}, i.version), nil
	case uq == "SHOW BINARY LOG STATUS" && i.version == "8.4", uq == "SHOW MASTER STATUS" && i.version == "8.0":
		if s.denied {
			return nil, &sim.SQLError{Code: 1227, State: "42000", Msg: "Access denied"}
		}
		return row([]string{"File", "Position", "Binlog_Do_DB", "Binlog_Ignore_DB", "Executed_Gtid_Set"},
			logName(i.files[len(i.files)-1].num), "157", "", "", gtids(i.exec)), nil
	case uq == "SHOW BINARY LOGS":
		res := &sim.Result{Cols: []string{"Log_name", "File_size", "Encrypted"}}
		for _, f := range i.files {
			res.Rows = append(res.Rows, []any{logName(f.num), "157", "No"})
		}
		return res, nil
	case strings.HasPrefix(uq, "SELECT @@"):
		var cols []string
		var vals []any
		for _, v := range strings.Split(q[len("SELECT "):], ",") {
			v = strings.TrimSpace(v)
			cols = append(cols, v)
			switch strings.TrimPrefix(strings.ToLower(strings.TrimPrefix(v, "@@")), "global.") {
			case "super_read_only":
				vals = append(vals, bit(i.sro))
			case "read_only":
				vals = append(vals, bit(i.ro))
			case "server_uuid":
				vals = append(vals, uuidStr(i.uuid))
			case "gtid_executed":
				vals = append(vals, gtids(i.exec))
			case "gtid_purged":
				vals = append(vals, gtids(i.purged()))
			default:
				return nil, &sim.SQLError{Code: 1193, State: "HY000", Msg: "Unknown system variable " + v}
			}
		}
		return row(cols, vals...), nil
	}
	return nil, &sim.SQLError{Code: 1064, State: "42000", Msg: "emulation: unknown statement " + q}
}

func (w *world) ref(i *inst) map[string]any {
	return map[string]any{"ns": i.ns, "c": i.cluster, "i": i.idx}
}

/* commands */

func (w *world) command(c call) (r reply) {
	fail := reply{Code: 1}
	w.mu.Lock()
	defer w.mu.Unlock()
	what := c.Name
	if c.Name == "mysqlsh" || c.Name == "mysqlbinlog" {
		what += " " + strings.Join(c.Args, " ")
	}
	mode := w.op(what)
	if mode == "fail" && c.Name != "tar" && c.Name != "zstd" {
		return fail
	}
	bad := func(s string) reply {
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "command", c.Name, s)
		}
		return fail
	}
	defer func() {
		if w.lost(mode) {
			r.Code = 1
		}
	}()
	switch c.Name {
	case "tar", "zstd":
		if w.gone {
			return fail
		}
		switch mode {
		case "":
			return reply{Exec: true}
		case "fail":
			return fail
		default:
			return reply{Exec: true, Cut: true}
		}
	case "mysqlsh":
		u := strings.TrimPrefix(c.Args[0], "mysql://")
		user, addr, _ := strings.Cut(u, "@")
		host, port, _ := net.SplitHostPort(addr)
		i := w.find(host)
		if i == nil || !i.up || port != "3306" || !has(c.Args, "-p"+password) || !has(c.Args, "util") {
			return bad("cannot connect")
		}
		switch {
		case has(c.Args, "dump-instance") && user == constants.BackupUser:
			dir := after(c.Args, "dump-instance")
			w.dumps++
			d := map[string]any{"txns": w.list(i.exec), "n": w.dumps, "end": true}
			b, _ := json.Marshal(d)
			m, _ := json.Marshal(map[string]any{"dumper": "mysqlsh", "gtidExecuted": gtids(i.exec)})
			fs := map[string]string{filepath.Join(dir, "data.json"): string(b), filepath.Join(dir, "@.json"): string(m),
				filepath.Join(dir, "@.done.json"): strings.Repeat("x", 20000)}
			if mode != "" && w.r.Intn(2) == 0 {
				delete(fs, filepath.Join(dir, "@.done.json"))
			}
			w.emit(map[string]any{"e": "dump", "at": w.ref(i), "n": w.dumps, "txns": ints(i.exec), "uuid": i.uuid, "ok": mode == ""})
			return reply{Files: fs}
		case has(c.Args, "load-dump") && user == constants.AdminUser:
			d, ok := readDump(c.Files)
			schema, _ := opt(c.Args, "--includeSchemas")
			users, _ := opt(c.Args, "--includeUsers")
			if i.sro || i.ro || !i.infile {
				return bad("read only")
			}
			if !ok {
				return bad("incomplete dump")
			}
			i.exec = map[int]bool{}
			for _, t := range d.Txns {
				i.exec[t.ID] = true
			}
			w.emit(map[string]any{"e": "load", "at": w.ref(i), "n": d.N, "schema": schema, "users": users, "ok": mode == ""})
			return reply{}
		}
		return bad("unknown command")
	case "mysqlbinlog":
		if has(c.Args, "--raw") {
			i := w.find(after(c.Args, "-h"))
			if i == nil || !i.up || after(c.Args, "--port") != "3306" || !has(c.Args, "-p"+password) || after(c.Args, "-u") != constants.BackupUser {
				return bad("cannot connect")
			}
			ex, _ := opt(c.Args, "--exclude-gtids")
			excl := parseGTIDs(ex)
			prefix, ok := opt(c.Args, "--result-file")
			start := logNum(c.Args[len(c.Args)-1])
			if !ok || start < 0 {
				return bad("bad arguments")
			}
			fs := map[string]string{}
			on := false
			for _, f := range i.files {
				if f.num == start {
					on = true
				} else if on && !has(c.Args, "-t") && !has(c.Args, "--to-last-log") {
					break
				}
				if on {
					var ts []txn
					for _, t := range f.txns {
						if !excl[t.ID] {
							ts = append(ts, t)
						}
					}
					b, _ := json.Marshal(map[string]any{"f": f.num, "txns": ts, "end": true})
					fs[prefix+logName(f.num)] = string(b)
				}
			}
			if !on {
				return bad("Could not find first log file name in binary log index file")
			}
			return reply{Files: fs}
		}
		stop, _ := opt(c.Args, "--stop-datetime")
		db, _ := opt(c.Args, "--database")
		loc := time.UTC
		if c.TZ != "Etc/UTC" && c.TZ != "UTC" {
			loc = time.FixedZone("x", 9*3600)
		}
		limit := 1 << 30
		if stop != "" {
			t, err := time.ParseInLocation("2006-01-02 15:04:05", stop, loc)
			if err != nil {
				return bad("bad time")
			}
			limit = int(t.Unix() - epoch)
		}
		var out []txn
		for _, a := range c.Args {
			if strings.HasPrefix(a, "-") {
				continue
			}
			s, ok := c.Files[a]
			var f struct {
				Txns []txn
				End  bool
			}
			if !ok || json.Unmarshal([]byte(s), &f) != nil || !f.End {
				return bad("broken file")
			}
			stopped := false
			for _, t := range f.Txns {
				if t.TS >= limit {
					stopped = true
					break
				}
				if db == "" || db == t.DB {
					out = append(out, t)
				}
			}
			if stopped {
				break
			}
		}
		if mode != "" {
			out = out[:len(out)/2]
		}
		b, _ := json.Marshal(out)
		return reply{Stdout: string(b) + "\n"}
	case "mysql":
		i := w.find(after(c.Args, "-h"))
		if i == nil || !i.up || after(c.Args, "--port") != "3306" || !has(c.Args, "-p"+password) || after(c.Args, "-u") != constants.AdminUser {
			return bad("cannot connect")
		}
		if strings.TrimSpace(c.Stdin) == "" {
			return reply{}
		}
		var ts []txn
		if err := json.Unmarshal([]byte(c.Stdin), &ts); err != nil {
			return bad("bad statements")
		}
		if i.sro || i.ro {
			return bad("read only")
		}
		ids := []int{}
		for _, t := range ts {
			i.exec[t.ID] = true
			ids = append(ids, t.ID)
		}
		w.emit(map[string]any{"e": "apply", "at": w.ref(i), "txns": ids, "ok": mode == ""})
		return reply{}
	}
	return bad("unknown command")
}

func (w *world) list(s map[int]bool) []txn {
	r := []txn{}
	for _, t := range w.txns {
		if s[t.ID] {
			r = append(r, t)
		}
	}
	return r
}

type dumpData struct {
	Txns []txn
	N    int
	End  bool
}

func readDump(files map[string]string) (d dumpData, ok bool) {
	if json.Unmarshal([]byte(files["data.json"]), &d) != nil || !d.End {
		return d, false
	}
	return d, files["@.done.json"] == strings.Repeat("x", 20000) && files["@.json"] != ""
}

/* HTTP */

func (w *world) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	switch {
	case r.URL.Path == "/verif/cmd":
		var c call
		must(json.NewDecoder(r.Body).Decode(&c))
		rep := w.command(c)
		_ = json.NewEncoder(rw).Encode(rep)
	case r.URL.Path == "/api" || r.URL.Path == "/apis" || strings.HasPrefix(r.URL.Path, "/api/") || strings.HasPrefix(r.URL.Path, "/apis/"):
		w.kube(rw, r)
	default:
		w.s3(rw, r)
	}
}

func writeJSON(rw http.ResponseWriter, code int, v any) {
	rw.Header().Set("Content-Type", "application/json")
	rw.WriteHeader(code)
	_ = json.NewEncoder(rw).Encode(v)
}

func kubeErr(rw http.ResponseWriter, code int, reason metav1.StatusReason) {
	writeJSON(rw, code, metav1.Status{TypeMeta: metav1.TypeMeta{Kind: "Status", APIVersion: "v1"}, Status: "Failure", Reason: reason, Code: int32(code), Message: string(reason)})
}

func (w *world) kube(rw http.ResponseWriter, r *http.Request) {
	res := func(name, kind string, ns bool) metav1.APIResource {
		return metav1.APIResource{Name: name, Kind: kind, Namespaced: ns, Verbs: metav1.Verbs{"get", "list", "create", "update", "patch", "delete", "watch"}}
	}
	switch r.URL.Path {
	case "/api":
		writeJSON(rw, 200, metav1.APIVersions{TypeMeta: metav1.TypeMeta{Kind: "APIVersions"}, Versions: []string{"v1"}})
		return
	case "/apis":
		gv := metav1.GroupVersionForDiscovery{GroupVersion: "moco.cybozu.com/v1beta2", Version: "v1beta2"}
		writeJSON(rw, 200, metav1.APIGroupList{TypeMeta: metav1.TypeMeta{Kind: "APIGroupList", APIVersion: "v1"}, Groups: []metav1.APIGroup{{Name: "moco.cybozu.com", Versions: []metav1.GroupVersionForDiscovery{gv}, PreferredVersion: gv}}})
		return
	case "/apis/moco.cybozu.com":
		gv := metav1.GroupVersionForDiscovery{GroupVersion: "moco.cybozu.com/v1beta2", Version: "v1beta2"}
		writeJSON(rw, 200, metav1.APIGroup{TypeMeta: metav1.TypeMeta{Kind: "APIGroup", APIVersion: "v1"}, Name: "moco.cybozu.com", Versions: []metav1.GroupVersionForDiscovery{gv}, PreferredVersion: gv})
		return
	case "/api/v1":
		writeJSON(rw, 200, metav1.APIResourceList{TypeMeta: metav1.TypeMeta{Kind: "APIResourceList", APIVersion: "v1"}, GroupVersion: "v1",
			APIResources: []metav1.APIResource{res("pods", "Pod", true), res("events", "Event", true)}})
		return
	case "/apis/moco.cybozu.com/v1beta2":
		writeJSON(rw, 200, metav1.APIResourceList{TypeMeta: metav1.TypeMeta{Kind: "APIResourceList", APIVersion: "v1"}, GroupVersion: "moco.cybozu.com/v1beta2",
			APIResources: []metav1.APIResource{res("mysqlclusters", "MySQLCluster", true), res("mysqlclusters/status", "MySQLCluster", true)}})
		return
	}
	body, _ := io.ReadAll(r.Body)
	w.mu.Lock()
	defer w.mu.Unlock()
	mode := w.op("api " + r.Method + " " + r.URL.Path)
	if mode == "fail" {
		if w.r.Intn(3) == 0 {
			kubeErr(rw, 503, metav1.StatusReasonServiceUnavailable)
		} else {
			kubeErr(rw, 500, metav1.StatusReasonInternalError)
		}
		return
	}
	rec := httptest.NewRecorder()
	w.kubeDo(rec, r, body)
	if w.lost(mode) {
		kubeErr(rw, 500, metav1.StatusReasonInternalError)
		return
	}
	for k, v := range rec.Header() {
		rw.Header()[k] = v
	}
	rw.WriteHeader(rec.Code)
	_, _ = rw.Write(rec.Body.Bytes())
}

func (w *world) kubeDo(rw http.ResponseWriter, r *http.Request, body []byte) {
	p := strings.Split(strings.Trim(r.URL.Path, "/"), "/")
	if p[0] == "apis" {
		p = p[3:] // namespaces/NS/mysqlclusters/NAME
	} else {
		p = p[2:]
	}
	if len(p) < 3 || p[0] != "namespaces" {
		kubeErr(rw, 404, metav1.StatusReasonNotFound)
		return
	}
	ns := p[1]
	switch p[2] {
	case "events":
		reason := "-"
		for _, x := range []string{"BackupCreated", "BackupNoBinlog", "Restored"} {
			if bytes.Contains(body, []byte(x)) {
				reason = x
			}
		}
		w.emit(map[string]any{"e": "event", "reason": reason})
		rw.Header().Set("Content-Type", r.Header.Get("Content-Type"))
		rw.WriteHeader(201)
		_, _ = rw.Write(body)
	case "pods":
		if len(p) == 3 {
			sel, err := labels.Parse(r.URL.Query().Get("labelSelector"))
			must(err)
			l := corev1.PodList{TypeMeta: metav1.TypeMeta{Kind: "PodList", APIVersion: "v1"}}
			for _, i := range w.insts {
				if pod := w.podOf(i); i.pod && i.ns == ns && sel.Matches(labels.Set(pod.Labels)) {
					l.Items = append(l.Items, *pod)
				}
			}
			w.r.Shuffle(len(l.Items), func(a, b int) { l.Items[a], l.Items[b] = l.Items[b], l.Items[a] })
			writeJSON(rw, 200, l)
			return
		}
		for _, i := range w.insts {
			if i.pod && i.ns == ns && p[3] == fmt.Sprintf("moco-%s-%d", i.cluster, i.idx) {
				pod := w.podOf(i)
				if i.noip > 0 {
					i.noip--
					pod.Status.PodIP = ""
				}
				pod.TypeMeta = metav1.TypeMeta{Kind: "Pod", APIVersion: "v1"}
				writeJSON(rw, 200, pod)
				return
			}
		}
		kubeErr(rw, 404, metav1.StatusReasonNotFound)
	case "mysqlclusters":
		c := w.clusters[ns+"/"+p[3]]
		if c == nil {
			kubeErr(rw, 404, metav1.StatusReasonNotFound)
			return
		}
		if r.Method == "GET" {
			writeJSON(rw, 200, c)
			return
		}
		if r.Method != "PUT" || len(p) != 5 || p[4] != "status" {
			kubeErr(rw, 405, metav1.StatusReasonMethodNotAllowed)
			return
		}
		n := &mocov1beta2.MySQLCluster{}
		must(json.Unmarshal(body, n))
		if n.ResourceVersion != c.ResourceVersion {
			kubeErr(rw, 409, metav1.StatusReasonConflict)
			return
		}
		w.storeStatus(c, n)
		writeJSON(rw, 200, c)
	default:
		kubeErr(rw, 404, metav1.StatusReasonNotFound)
	}
}

func (w *world) touch(c *mocov1beta2.MySQLCluster) {
	w.rv++
	c.ResourceVersion = strconv.Itoa(w.rv)
}

func (w *world) storeStatus(c, n *mocov1beta2.MySQLCluster) {
	old := c.Status.DeepCopy()
	nw := n.Status.DeepCopy()
	ev := map[string]any{"e": "status", "ns": c.Namespace, "c": c.Name, "backup": !equality.Semantic.DeepEqual(old.Backup, nw.Backup),
		"restored": !equality.Semantic.DeepEqual(old.RestoredTime, nw.RestoredTime) && nw.RestoredTime != nil, "rec": record(nw)}
	a, b := old.DeepCopy(), nw.DeepCopy()
	a.Backup, b.Backup = mocov1beta2.BackupStatus{}, mocov1beta2.BackupStatus{}
	a.RestoredTime, b.RestoredTime = nil, nil
	ev["rest"] = equality.Semantic.DeepEqual(a, b)
	c.Status = *nw
	w.touch(c)
	w.emit(ev)
}

// record projects the recorded backup.
func record(s *mocov1beta2.MySQLClusterStatus) map[string]any {
	b := s.Backup
	t := 0
	if !b.Time.IsZero() {
		t = int(b.Time.Unix() - epoch)
	}
	us := []map[string]int{}
	for k, v := range b.UUIDSet {
		n, err := strconv.Atoi(k)
		if err != nil {
			n = -1
		}
		us = append(us, map[string]int{"i": n, "uuid": uuidInt(v)})
	}
	if len(us) == 0 && t != 0 {
		us = append(us, map[string]int{"i": b.SourceIndex, "uuid": uuidInt(b.SourceUUID)})
	}
	sort.Slice(us, func(i, j int) bool { return us[i]["i"] < us[j]["i"] })
	f := 0
	if b.BinlogFilename != "" {
		f = logNum(b.BinlogFilename)
	}
	u := 0
	if b.SourceUUID != "" {
		u = uuidInt(b.SourceUUID)
	}
	return map[string]any{"t": t, "src": b.SourceIndex, "uuid": u, "uuids": us, "file": f, "gtid": ints(parseGTIDs(b.GTIDSet)), "warn": len(b.Warnings),
		"dsize": b.DumpSize, "bsize": b.BinlogSize}
}

func (w *world) podOf(i *inst) *corev1.Pod {
	p := &corev1.Pod{}
	p.Namespace, p.Name = i.ns, fmt.Sprintf("moco-%s-%d", i.cluster, i.idx)
	p.Labels = map[string]string{constants.LabelAppName: constants.AppNameMySQL, constants.LabelAppInstance: i.cluster, constants.LabelAppCreatedBy: constants.AppCreator}
	p.Status.PodIP = i.ip
	st := corev1.ConditionFalse
	if i.ready {
		st = corev1.ConditionTrue
	}
	p.Status.Conditions = []corev1.PodCondition{{Type: corev1.PodScheduled, Status: corev1.ConditionTrue}, {Type: corev1.PodReady, Status: st}}
	return p
}

/* object storage */

type listResult struct {
	XMLName               xml.Name `xml:"ListBucketResult"`
	Name                  string
	Prefix                string
	KeyCount              int
	MaxKeys               int
	IsTruncated           bool
	NextContinuationToken string `xml:",omitempty"`
	Contents              []struct{ Key string }
}

func s3Err(rw http.ResponseWriter, code int, name string) {
	rw.Header().Set("Content-Type", "application/xml")
	rw.WriteHeader(code)
	fmt.Fprintf(rw, `<?xml version="1.0" encoding="UTF-8"?><Error><Code>%s</Code><Message>verif</Message></Error>`, name)
}

func (w *world) s3(rw http.ResponseWriter, r *http.Request) {
	p := strings.TrimPrefix(r.URL.Path, "/")
	bkt, key, _ := strings.Cut(p, "/")
	body, err := io.ReadAll(r.Body)
	if err != nil {
		return // the client is gone
	}
	if strings.Contains(r.Header.Get("Content-Encoding"), "aws-chunked") || strings.HasPrefix(r.Header.Get("X-Amz-Content-Sha256"), "STREAMING") {
		body = unchunk(body)
	}
	if bkt != "bkt" {
		s3Err(rw, 404, "NoSuchBucket")
		return
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.closing {
		return
	}
	mode := w.op("s3 " + r.Method + " " + key)
	if mode == "fail" {
		s3Err(rw, 403, "AccessDenied")
		return
	}
	switch {
	case r.Method == "PUT" && key != "":
		w.objects[key] = body
		ev := w.describe(key, body)
		ev["e"] = "put"
		w.emit(ev)
		if w.lost(mode) {
			s3Err(rw, 403, "AccessDenied")
			return
		}
		rw.Header().Set("ETag", `"x"`)
		rw.WriteHeader(200)
	case r.Method == "GET" && key == "":
		q := r.URL.Query()
		var keys []string
		for k := range w.objects {
			if strings.HasPrefix(k, q.Get("prefix")) && k > q.Get("continuation-token") {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		res := listResult{Name: bkt, Prefix: q.Get("prefix"), MaxKeys: w.page}
		if len(keys) > w.page {
			keys = keys[:w.page]
			res.IsTruncated = true
			res.NextContinuationToken = keys[len(keys)-1]
		}
		res.KeyCount = len(keys)
		for _, k := range keys {
			res.Contents = append(res.Contents, struct{ Key string }{k})
		}
		rw.Header().Set("Content-Type", "application/xml")
		b, _ := xml.Marshal(res)
		_, _ = rw.Write(append([]byte(xml.Header), b...))
	case r.Method == "GET":
		b, ok := w.objects[key]
		if !ok {
			s3Err(rw, 404, "NoSuchKey")
			return
		}
		if mode != "" {
			// the connection breaks in the middle
			w.lost(mode)
			rw.Header().Set("Content-Length", strconv.Itoa(len(b)))
			rw.WriteHeader(200)
			_, _ = rw.Write(b[:len(b)/2])
			return
		}
		rw.Header().Set("Content-Length", strconv.Itoa(len(b)))
		_, _ = rw.Write(b)
	default:
		s3Err(rw, 405, "MethodNotAllowed")
	}
}

func unchunk(b []byte) []byte {
	var out []byte
	br := bufio.NewReader(bytes.NewReader(b))
	for {
		l, err := br.ReadString('\n')
		if err != nil {
			return out
		}
		h, _, _ := strings.Cut(strings.TrimSpace(l), ";")
		n, err := strconv.ParseInt(h, 16, 64)
		if err != nil || n == 0 {
			return out
		}
		buf := make([]byte, n)
		if _, err := io.ReadFull(br, buf); err != nil {
			return out
		}
		out = append(out, buf...)
		_, _ = br.ReadString('\n')
	}
}

var timeRE = regexp.MustCompile(`^\d{8}-\d{6}$`)

// describe tells what an object is.
func (w *world) describe(key string, body []byte) map[string]any {
	ev := map[string]any{"key": key, "ns": "", "c": "", "t": 0, "kind": "other", "complete": false, "txns": []int{}, "bt": []any{}, "n": 0, "size": len(body)}
	p := strings.Split(key, "/")
	if len(p) == 5 && p[0] == "moco" && timeRE.MatchString(p[3]) {
		if t, err := time.Parse("20060102-150405", p[3]); err == nil {
			ev["ns"], ev["c"], ev["t"] = p[1], p[2], int(t.Unix()-epoch)
			switch p[4] {
			case "dump.tar":
				ev["kind"] = "dump"
				fs, ok := untar(body)
				d, ok2 := readDump(strip(fs, "dump/"))
				ids := []int{}
				for _, t := range d.Txns {
					ids = append(ids, t.ID)
				}
				ev["complete"], ev["txns"], ev["n"] = ok && ok2, ids, d.N
			case "binlog.tar.zst":
				ev["kind"] = "binlog"
				raw, ok := unzstd(body)
				fs, ok2 := untar(raw)
				ids := map[int]bool{}
				whole := ok && ok2 && len(fs) > 0
				bt := []any{}
				for n, s := range strip(fs, "binlog/") {
					var f struct {
						F    int
						Txns []txn
						End  bool
					}
					if json.Unmarshal([]byte(s), &f) != nil || !f.End || logName(f.F) != n {
						whole = false
					}
					for _, t := range f.Txns {
						ids[t.ID] = true
						bt = append(bt, map[string]any{"id": t.ID, "ts": t.TS, "db": t.DB})
					}
				}
				ev["complete"], ev["txns"], ev["bt"] = whole, ints(ids), bt
			}
		}
	}
	return ev
}

func strip(m map[string]string, prefix string) map[string]string {
	r := map[string]string{}
	for k, v := range m {
		r[strings.TrimPrefix(path.Clean(k), prefix)] = v
	}
	return r
}

func untar(b []byte) (map[string]string, bool) {
	m := map[string]string{}
	tr := tar.NewReader(bytes.NewReader(b))
	for {
		h, err := tr.Next()
		if err == io.EOF {
			return m, len(b) >= 1024
		}
		if err != nil {
			return m, false
		}
		s, err := io.ReadAll(tr)
		if err != nil {
			return m, false
		}
		if h.Typeflag == tar.TypeReg {
			m[h.Name] = string(s)
		}
	}
}

func unzstd(b []byte) ([]byte, bool) {
	c := exec.Command("/usr/bin/zstd", "-d", "-c", "-q")
	c.Stdin = bytes.NewReader(b)
	out, err := c.Output()
	return out, err == nil
}

func zstd(b []byte) []byte {
	c := exec.Command("/usr/bin/zstd", "-c", "-q", "-1")
	c.Stdin = bytes.NewReader(b)
	out, err := c.Output()
	must(err)
	return out
}

func mktar(files map[string]string) []byte {
	var b bytes.Buffer
	tw := tar.NewWriter(&b)
	var ks []string
	for k := range files {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		must(tw.WriteHeader(&tar.Header{Name: k, Mode: 0o644, Size: int64(len(files[k])), Typeflag: tar.TypeReg}))
		_, err := tw.Write([]byte(files[k]))
		must(err)
	}
	must(tw.Close())
	return b.Bytes()
}
