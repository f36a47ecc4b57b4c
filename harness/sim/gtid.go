package sim

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Txn identifies a transaction: the UUID of the server it originated on and
// its sequence number there.
type Txn struct {
	UUID string
	Seq  int
}

// TxnSet is a GTID set.
type TxnSet map[Txn]bool

func (s TxnSet) Clone() TxnSet {
	r := make(TxnSet, len(s))
	for k := range s {
		r[k] = true
	}
	return r
}

func (s TxnSet) Minus(o TxnSet) TxnSet {
	r := TxnSet{}
	for k := range s {
		if !o[k] {
			r[k] = true
		}
	}
	return r
}

func (s TxnSet) Union(o TxnSet) TxnSet {
	r := s.Clone()
	for k := range o {
		r[k] = true
	}
	return r
}

func (s TxnSet) SubsetOf(o TxnSet) bool {
	for k := range s {
		if !o[k] {
			return false
		}
	}
	return true
}

// String renders the set as MySQL does.
func (s TxnSet) String() string {
	by := map[string][]int{}
	for t := range s {
		by[t.UUID] = append(by[t.UUID], t.Seq)
	}
	uuids := make([]string, 0, len(by))
	for u := range by {
		uuids = append(uuids, u)
	}
	sort.Strings(uuids)
	var parts []string
	for _, u := range uuids {
		seqs := by[u]
		sort.Ints(seqs)
		str := u
		for i := 0; i < len(seqs); {
			j := i
			for j+1 < len(seqs) && seqs[j+1] == seqs[j]+1 {
				j++
			}
			if i == j {
				str += fmt.Sprintf(":%d", seqs[i])
			} else {
				str += fmt.Sprintf(":%d-%d", seqs[i], seqs[j])
			}
			i = j + 1
		}
		parts = append(parts, str)
	}
	return strings.Join(parts, ",\n")
}

// ParseGTID parses a GTID set.
func ParseGTID(s string) (TxnSet, error) {
	r := TxnSet{}
	for _, us := range strings.Split(s, ",") {
		us = strings.TrimSpace(us)
		if us == "" {
			continue
		}
		f := strings.Split(us, ":")
		if len(f) < 2 {
			return nil, fmt.Errorf("malformed GTID set %q", s)
		}
		for _, iv := range f[1:] {
			lo, hi, found := strings.Cut(strings.TrimSpace(iv), "-")
			a, err := strconv.Atoi(lo)
			if err != nil {
				return nil, fmt.Errorf("malformed GTID set %q", s)
			}
			b := a
			if found {
				if b, err = strconv.Atoi(hi); err != nil {
					return nil, fmt.Errorf("malformed GTID set %q", s)
				}
			}
			for k := a; k <= b; k++ {
				r[Txn{strings.TrimSpace(f[0]), k}] = true
			}
		}
	}
	return r, nil
}
