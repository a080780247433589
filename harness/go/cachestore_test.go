package zzverif

// Driver for spec/CacheStore.tla: the store under the Ethereum index.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"testing"

	"cosmossdk.io/store/dbadapter"
	storetypes "cosmossdk.io/store/types"
	dbm "github.com/cosmos/cosmos-db"

	"github.com/initia-labs/minievm/indexer"
)

type csStep struct {
	A   string   `json:"a"`
	K   int      `json:"k"`
	V   int      `json:"v"`
	All [][2]int `json:"all"`
}

func csRun(t *testing.T, _ any, line []byte, r *rep) {
	var steps []csStep
	if err := json.Unmarshal(line, &steps); err != nil {
		panic(err)
	}
	key := func(k int) []byte { return []byte{'k', byte(k)} }
	vals := [][]byte{nil, bytes.Repeat([]byte("a"), 8), bytes.Repeat([]byte("b"), 700), bytes.Repeat([]byte("c"), 2000), bytes.Repeat([]byte("d"), 70000)}
	which := func(v []byte) int {
		for i, x := range vals {
			if bytes.Equal(v, x) {
				return i
			}
		}
		return -1
	}
	db := dbm.NewMemDB()
	open := func() *indexer.CacheStore { return indexer.NewCacheStore(dbadapter.Store{DB: db}, 1) } // MiB
	s := open()
	defer func() { closeCaches(s) }()
	for i := range steps {
		st := &steps[i]
		r.step = i
		r.res.Steps++
		switch st.A {
		case "set":
			if err := s.Set(key(st.K), vals[st.V]); err != nil {
				r.differ("key %d is not set to value %d: %v", st.K, st.V, err)
			}
		case "delete":
			if err := s.Delete(key(st.K)); err != nil {
				r.differ("key %d is not deleted: %v", st.K, err)
			}
		case "get":
			r.eq(fmt.Sprintf("value of key %d", st.K), st.V, which(must(s.Get(key(st.K)))))
		case "has":
			r.eq(fmt.Sprintf("key %d is there", st.K), st.V != 0, must(s.Has(key(st.K))))
		case "list", "back":
			it := storetypes.Iterator(nil)
			if st.A == "list" {
				it = must(s.Iterator(key(st.K), key(st.V)))
			} else {
				it = must(s.ReverseIterator(key(st.K), key(st.V)))
			}
			got := [][2]int{}
			for ; it.Valid(); it.Next() {
				got = append(got, [2]int{int(it.Key()[1]), which(it.Value())})
			}
			it.Close()
			want := append([][2]int{}, st.All...)
			if st.A == "back" {
				for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
					want[i], want[j] = want[j], want[i]
				}
			}
			r.eq(fmt.Sprintf("keys from %d to %d", st.K, st.V), want, got)
		case "write":
			s.Write()
		case "restart":
			closeCaches(s)
			s = open()
		}
		r.count(fmt.Sprintf("%s.%v", st.A, st.V != 0))
	}
}

func init() {
	families["cachestore"] = family{func(t *testing.T) any { return nil }, csRun}
}
