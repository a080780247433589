package zzverif

// Driver for spec/FilterLife.tla: how long filters last.

import (
	"encoding/json"
	"fmt"
	"testing"
	"time"

	"cosmossdk.io/log"
	"github.com/ethereum/go-ethereum/common"
	ethfilters "github.com/ethereum/go-ethereum/eth/filters"
	"github.com/ethereum/go-ethereum/rpc"

	"github.com/initia-labs/minievm/jsonrpc/namespaces/eth/filters"
)

type flStep struct {
	A    string `json:"a"`
	Kind string `json:"kind"`
	I    int    `json:"i"`
	OK   bool   `json:"ok"`
	New  int    `json:"new"`
}

const (
	flTick    = 50 * time.Millisecond
	flTimeout = 6 * flTick // T
)

func flRun(t *testing.T, x any, line []byte, r *rep) {
	c := x.(*chain)
	var steps []flStep
	if err := json.Unmarshal(line, &steps); err != nil {
		panic(err)
	}
	nd := &node{height: func() int64 { return c.height }}
	api := filters.NewFilterAPI(c.app, newBackendTimeout(c, nd, flTimeout), log.NewNopLogger())
	type live struct {
		id   rpc.ID
		kind string
		used time.Time // no later than it was used last
	}
	var fs []*live
	yes := true
	for i, st := range steps {
		r.step = i
		r.res.Steps++
		switch st.A {
		case "create":
			f := &live{kind: st.Kind, used: time.Now()}
			switch st.Kind {
			case "blocks":
				f.id = must(api.NewBlockFilter())
			case "pending":
				f.id = must(api.NewPendingTransactionFilter(nil))
			case "full":
				f.id = must(api.NewPendingTransactionFilter(&yes))
			case "logs":
				f.id = must(api.NewFilter(ethfilters.FilterCriteria{}))
			}
			fs = append(fs, f)
		case "tick":
			time.Sleep(flTick)
		case "block":
			// blocks are announced in the background: one more filter tells when
			used := time.Now()
			id := must(api.NewBlockFilter())
			c.block(nil)
			for until := time.Now().Add(10 * time.Second); ; time.Sleep(time.Millisecond) {
				now := time.Now()
				got, err := api.GetFilterChanges(id)
				if err != nil && time.Since(used) >= flTimeout {
					r.count("late")
					return
				}
				used = now
				if len(must(got, err).([]common.Hash)) > 0 {
					break
				}
				if now.After(until) {
					r.differ("a block is not announced")
				}
			}
			api.UninstallFilter(id)
		case "poll":
			f := fs[st.I-1]
			n := 0
			for until := time.Now().Add(10 * time.Second); ; time.Sleep(time.Millisecond) {
				now := time.Now()
				got, err := api.GetFilterChanges(f.id)
				late := time.Since(f.used) >= flTimeout
				if st.OK && err != nil && late {
					r.count("late")
					return
				}
				r.eq(fmt.Sprintf("the %s filter %d is there", f.kind, st.I), st.OK, err == nil)
				f.used = now
				if h, ok := got.([]common.Hash); ok && err == nil {
					n += len(h)
				}
				if n >= st.New || time.Now().After(until) {
					break
				}
			}
			if st.OK {
				r.eq(fmt.Sprintf("new blocks for the %s filter %d", f.kind, st.I), st.New, n)
			}
			r.count(fmt.Sprintf("%s.poll.%v", f.kind, st.OK))
		case "remove":
			f := fs[st.I-1]
			ok := api.UninstallFilter(f.id)
			if st.OK && !ok && time.Since(f.used) >= flTimeout {
				r.count("late")
				return
			}
			r.eq(fmt.Sprintf("the %s filter %d is removed", f.kind, st.I), st.OK, ok)
			r.count(fmt.Sprintf("%s.remove.%v", f.kind, st.OK))
		case "long":
			time.Sleep(2*flTimeout + time.Second)
			for j, f := range fs {
				_, err := api.GetFilterChanges(f.id)
				r.eq(fmt.Sprintf("the %s filter %d, unused for long, is there", f.kind, j+1), false, err == nil)
			}
			r.count("long")
		}
	}
}

func init() {
	families["filterlife"] = family{func(t *testing.T) any { return newChain(t, chainOpt{appOpts: idxOptions()}) }, flRun}
}
