// Package cnf generates my.cnf files with the real code and records them.
package cnf

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/cybozu-go/moco/pkg/mycnf"
)

type line struct {
	B     string `json:"b"`
	Loose bool   `json:"loose"`
	V     string `json:"v"`
}

func parseKey(k string) (string, bool) {
	k = strings.ReplaceAll(strings.TrimSpace(k), "-", "_")
	if b, ok := strings.CutPrefix(k, "loose_"); ok {
		return b, true
	}
	return k, false
}

// parse reads the file like mysqld does.
func parse(text string) (secs []string, m map[string][]line, last string) {
	m = map[string][]line{"mysqld": {}, "client": {}, "mysql": {}}
	cur := ""
	for _, l := range strings.Split(text, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case t == "" || t[0] == '#' || t[0] == ';':
			continue
		case t[0] == '[':
			cur = strings.Trim(t, "[]")
			secs = append(secs, cur)
		case t[0] == '!':
		default:
			k, v, _ := strings.Cut(t, "=")
			b, lo := parseKey(k)
			m[cur] = append(m[cur], line{b, lo, strings.TrimSpace(v)})
		}
		last = t
	}
	return
}

func spell(r *rand.Rand, b string, loose bool) string {
	s := []byte(b)
	if loose {
		s = []byte("loose_" + b)
	}
	mode := r.Intn(4)
	for i := range s {
		if s[i] == '_' && (mode == 0 || mode == 1 && r.Intn(2) == 0) {
			s[i] = '-'
		}
	}
	return string(s)
}

// names of options that could be confused with those MOCO relies on
var near = []string{"log_bin_index", "log_error_suppression_list", "log_error_services", "gtid_executed_compression_period", "socket_timeout",
	"port_open_timeout", "skip_slave_start_2", "binlog_format_2", "mysqlx_socket", "admin_address", "read_only_2", "super_read_only_2",
	"loose", "innodb_buffer_pool_instances", "relay_log", "relay_log_index", "log_bin_trust_function_creators", "sql_mode",
	"require_secure_transport", "innodb_flush_log_at_trx_commit", "sync_binlog", "plugin_load_add", "binlog_expire_logs_seconds",
	"a", "zz", "x.y", "loose.z", "default_character_set", "auto_rehash", "init_command"}
var banned = []string{"log_bin", "skip_log_bin", "disable_log_bin", "log_error"}
var values = []string{"ON", "OFF", "1", "0", "abc", "", "/var/x y/z", "a=b", "\"q\"", "NULL", "[mysqld]x", "1G", "%s%d", "=", "x # y"}
var opaques = []string{"", "", "", "foo = bar", "performance-schema-instrument='memory/%=ON'\nperformance-schema-instrument='wait/%=OFF'\n", "# only a comment", "%d %s\n\n"}

func TestDrive(t *testing.T) {
	num := func(k string, d int) int {
		if n, err := strconv.Atoi(os.Getenv(k)); err == nil {
			return n
		}
		return d
	}
	f, err := os.Create(os.Getenv("VERIF_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	w := bufio.NewWriter(f)
	defer w.Flush()
	emit := func(m map[string]any) {
		b, _ := json.Marshal(m)
		w.Write(append(b, '\n'))
	}
	shard := num("VERIF_SHARD", 0)
	r := rand.New(rand.NewSource(int64(num("VERIF_SEED", 1))*1000 + int64(shard)))
	nilText := mycnf.Generate(nil, 1<<30)
	_, m0, _ := parse(nilText)
	var known []string
	seen := map[string]bool{}
	for _, l := range m0["mysqld"] {
		if !seen[l.B] {
			seen[l.B] = true
			known = append(known, l.B)
		}
	}
	sort.Strings(known)

	one := func(user map[string]string, lines []line, opaque string, mem int64) {
		emit(map[string]any{"e": "reset", "mysqld": m0["mysqld"]})
		ev := map[string]any{"e": "gen"}
		keys := make([]string, 0, len(user))
		for k, v := range user {
			keys = append(keys, fmt.Sprintf("%s=%s", k, v))
		}
		sort.Strings(keys)
		ev["d"] = fmt.Sprintf("%q mem=%d", keys, mem)
		defer func() {
			if p := recover(); p != nil {
				emit(map[string]any{"e": "panic", "d": fmt.Sprint(p, " for ", ev["d"])})
			}
		}()
		gen := func() string {
			c := map[string]string{}
			for _, i := range r.Perm(len(keys)) {
				k, v, _ := strings.Cut(keys[i], "=")
				c[k] = v
			}
			if len(c) == 0 && r.Intn(2) == 0 {
				c = nil
			}
			return mycnf.Generate(c, mem)
		}
		text := gen()
		same := true
		for i := 0; i < 16; i++ {
			same = same && gen() == text
		}
		ev["same"] = same
		body := text
		ev["opaque"] = true
		if opaque != "" {
			head := "[mysqld]\n" + opaque + "\n"
			ev["opaque"] = strings.Contains(text, head)
			body = strings.Replace(text, head, "[mysqld]\n", 1)
		}
		secs, m, last := parse(body)
		ev["sections"] = secs
		ev["last"] = last == "!includedir /etc/mysql-conf.d"
		ev["user"] = lines
		ev["mysqld"], ev["client"], ev["mysql"] = m["mysqld"], m["client"], m["mysql"]
		pool, pm := "-1", int64(-1)
		for _, l := range m["mysqld"] {
			if l.B == "innodb_buffer_pool_size" {
				pool = l.V
			}
		}
		if n, err := strconv.ParseInt(pool, 10, 64); err == nil && n%(1<<20) == 0 {
			pm = n >> 20
		}
		ev["pool"], ev["poolmib"], ev["mem"] = pool, pm, mem>>20
		emit(ev)
	}

	mems := []int64{0, 1, 100 << 20, 182 << 20, 183 << 20, 184 << 20, 1 << 30, 1000 << 20, 3<<30 + 12345, 1e9, 4 << 30, 700 << 30, 999999999999}
	all := append(append(append([]string{}, known...), near...), banned...)
	shards := num("VERIF_SHARDS", 8)
	// every option alone, in every spelling
	for i, b := range all {
		if i%shards != shard {
			continue
		}
		for _, loose := range []bool{false, true} {
			for mode := 0; mode < 2; mode++ {
				k := b
				if loose {
					k = "loose_" + b
				}
				if mode == 1 {
					k = strings.ReplaceAll(k, "_", "-")
				}
				bb, lo := parseKey(k)
				one(map[string]string{k: "verif"}, []line{{bb, lo, "verif"}}, "", 1<<30)
			}
		}
	}
	for i := range mems {
		if i%shards == shard {
			one(nil, []line{}, "", mems[i])
			one(map[string]string{"innodb-buffer-pool-size": "5M"}, []line{{"innodb_buffer_pool_size", false, "5M"}}, "", mems[i])
		}
	}
	for n := num("VERIF_CONFS", 400); n > 0; n-- {
		user := map[string]string{}
		var lines = []line{}
		k := 1 + r.Intn(8)
		var pool []string
		switch r.Intn(4) {
		case 0:
			pool = known
		case 1:
			pool = append(append([]string{}, banned...), "foo", "bar", "gtid_mode")
		default:
			pool = all
		}
		var bs []string
		for ; k > 0; k-- {
			b := pool[r.Intn(len(pool))]
			if len(bs) > 0 && r.Intn(3) == 0 {
				b = bs[r.Intn(len(bs))] // another spelling
			}
			bs = append(bs, b)
			key := spell(r, b, r.Intn(3) == 0)
			if _, ok := user[key]; ok {
				continue
			}
			v := values[r.Intn(len(values))]
			user[key] = v
			bb, lo := parseKey(key)
			lines = append(lines, line{bb, lo, v})
		}
		op := opaques[r.Intn(len(opaques))]
		if op != "" {
			user["_include"] = op
		}
		mem := mems[r.Intn(len(mems))]
		if r.Intn(2) == 0 {
			mem = r.Int63n(64 << 30)
		}
		one(user, lines, op, mem)
	}
}
