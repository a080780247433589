package zzverif

// Driver for spec/TxPool.tla: transactions on their way to the node.

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"os"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"cosmossdk.io/log"
	abci "github.com/cometbft/cometbft/abci/types"
	cmtcore "github.com/cometbft/cometbft/rpc/core/types"
	cmttypes "github.com/cometbft/cometbft/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/rpc"

	"github.com/initia-labs/minievm/jsonrpc/backend"
	"github.com/initia-labs/minievm/jsonrpc/namespaces/eth/filters"
	rpctypes "github.com/initia-labs/minievm/jsonrpc/types"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
)

type pTx struct {
	S  string `json:"s"`
	N  uint64 `json:"n"`
	K  string `json:"k"`
	ID int    `json:"id"`
}

type pEnd struct {
	ID int    `json:"id"`
	R  string `json:"r"`
}

type pStep struct {
	A     string     `json:"a"`
	Tx    pTx        `json:"tx"`
	S     string     `json:"s"`
	O     string     `json:"o"`
	Take  fn[int]    `json:"take"`
	Lose  fn[int]    `json:"lose"`
	Txs   []pTx      `json:"txs"`
	Ss    []string   `json:"ss"`
	News  fn[[]int]  `json:"news"`
	Ends  []pEnd     `json:"ends"`
	Chk   fn[uint64] `json:"chk"`
	Queue []int      `json:"queue"`
	At    fn[int]    `json:"at"`
	Pool  fn[[]int]  `json:"pool"`
}

type poolEnv struct {
	c    *chain
	nd   *node
	api  *filters.FilterAPI
	rpc  *rpc.Client
	n    int
	used int
}

func poolSetup(t *testing.T) any {
	e := &poolEnv{}
	e.c = newChain(t, chainOpt{appOpts: idxOptions()})
	e.nd = &node{height: func() int64 { return e.c.height }}
	e.api = filters.NewFilterAPI(e.c.app, newBackend(e.c, e.nd, 0), log.NewNopLogger())
	server := rpc.NewServer()
	if err := server.RegisterName("eth", e.api); err != nil {
		panic(err)
	}
	e.rpc = rpc.DialInProc(server)
	return e
}

// pSent is a transaction as it is at the node.
type pSent struct {
	id    int
	s     string
	bytes []byte
}

type poolRun struct {
	*poolEnv
	be     *backend.JSONRPCBackend
	r      *rep
	keys   map[string]key
	acc    map[string]uint64
	txs    map[int]*coretypes.Transaction
	s      map[int]string
	ids    map[common.Hash]int
	filter rpc.ID
	hashes chan common.Hash
	fulls  chan *rpctypes.RPCTransaction

	mu    sync.Mutex
	at    map[string]*atNode // what the node has not answered yet
	auto  bool
	bad   string
	ends  []pEnd
	open  int
	order []*pSent // the mempool of the node

	app sync.Mutex // the node talks to the application one by one
}

type atNode struct {
	p     *pSent
	reply chan string
}

var poolCap, _ = strconv.Atoi(os.Getenv("ZZ_POOLCAP"))

func (e *poolRun) broadcast(b []byte) (*cmtcore.ResultBroadcastTx, error) {
	tx := must(e.c.app.TxDecode(b))
	eth, _, err := evmkeeper.NewTxUtils(e.c.app.EVMKeeper).ConvertCosmosTxToEthereumTx(e.c.ctx(), tx)
	if err != nil || eth == nil {
		panic(fmt.Sprint("not an Ethereum transaction at the node: ", err))
	}
	e.mu.Lock()
	id, ok := e.ids[eth.Hash()]
	if !ok {
		e.bad = fmt.Sprintf("transaction %s at the node, which nobody sent", eth.Hash())
	}
	p := &pSent{id: id, s: e.s[id], bytes: b}
	if !e.auto {
		a := &atNode{p, make(chan string, 1)}
		if o := e.at[p.s]; o != nil {
			e.bad = fmt.Sprintf("transactions %d and %d of %s are at the node at once", o.p.id, id, p.s)
		}
		e.at[p.s] = a
		e.mu.Unlock()
		o := <-a.reply
		if o == "lost" {
			return nil, errors.New("connection lost")
		}
	} else {
		e.mu.Unlock()
	}
	res := e.offer(p)
	return &cmtcore.ResultBroadcastTx{Code: res.Code, Log: res.Log, Codespace: res.Codespace}, nil
}

// offer checks a transaction and takes it into the mempool.
func (e *poolRun) offer(p *pSent) *abci.ResponseCheckTx {
	e.app.Lock()
	defer e.app.Unlock()
	res := must(e.c.app.CheckTx(&abci.RequestCheckTx{Tx: p.bytes, Type: abci.CheckTxType_New}))
	if res.Code == 0 {
		e.mu.Lock()
		e.order = append(e.order, p)
		e.mu.Unlock()
	}
	return res
}

func (e *poolRun) send(id int) {
	e.open++
	go func() {
		r := "ok"
		defer func() {
			if x := recover(); x != nil {
				r = fmt.Sprint("panic: ", x)
			}
			e.mu.Lock()
			e.ends = append(e.ends, pEnd{id, r})
			e.open--
			e.mu.Unlock()
		}()
		raw := must(e.txs[id].MarshalBinary())
		h, err := e.be.SendRawTransaction(raw)
		switch {
		case err == nil && h != e.txs[id].Hash():
			r = "hash " + h.Hex()
		case err == nil:
		case errors.Is(err, core.ErrNonceTooLow):
			r = "low"
		case strings.Contains(err.Error(), "connection lost"):
			r = "lost"
		default:
			r = "rejected"
		}
	}()
}

func (e *poolRun) make(x *pTx) {
	cap := new(big.Int)
	if x.K == "poor" {
		cap.Exp(big.NewInt(10), big.NewInt(30), nil)
	}
	to := keyOf("pool sink").evm()
	var td coretypes.TxData
	gas := uint64(300_000 + x.ID) // makes each one its own
	switch x.ID % 3 {
	case 0:
		td = &coretypes.LegacyTx{Nonce: x.N, GasPrice: cap, Gas: gas, To: &to, Value: new(big.Int)}
	case 1:
		td = &coretypes.AccessListTx{ChainID: ethChainID(), Nonce: x.N, GasPrice: cap, Gas: gas, To: &to, Value: new(big.Int)}
	default:
		td = &coretypes.DynamicFeeTx{ChainID: ethChainID(), Nonce: x.N, GasFeeCap: cap, GasTipCap: new(big.Int), Gas: gas, To: &to, Value: new(big.Int)}
	}
	tx := e.c.signEth(e.keys[x.S], ethChainID(), td)
	e.mu.Lock()
	e.txs[x.ID], e.s[x.ID], e.ids[tx.Hash()] = tx, x.S, x.ID
	e.mu.Unlock()
	e.r.count(x.K)
}

func sortEnds(l []pEnd) []pEnd {
	l = slices.Clone(l)
	slices.SortFunc(l, func(a, b pEnd) int { return a.ID - b.ID })
	return l
}

// settle waits until the real pool is as the specification says.
func (e *poolRun) settle(st *pStep) {
	want := fmt.Sprint(sortEnds(st.Ends), map[string]int(st.At))
	until := time.Now().Add(20 * time.Second)
	var got string
	for {
		e.mu.Lock()
		at := map[string]int{}
		for s := range e.keys {
			at[s] = -1
			if a := e.at[s]; a != nil {
				at[s] = a.p.id
			}
		}
		got = fmt.Sprint(sortEnds(e.ends), at)
		more, bad := false, e.bad
		for _, x := range e.ends {
			more = more || !slices.Contains(st.Ends, x)
		}
		e.mu.Unlock()
		if bad != "" {
			e.r.differ("%s", bad)
		}
		if got == want || more || time.Now().After(until) {
			break
		}
		time.Sleep(50 * time.Microsecond)
	}
	e.r.eq("submissions that ended, and transactions at the node", want, got)
	for _, x := range e.ends {
		e.r.count("end." + x.R)
	}
	e.ends = nil
	e.views(st)
}

func (e *poolRun) views(st *pStep) {
	r := e.r
	for s, k := range e.keys {
		r.eq("nonce of "+s+" with pending transactions", st.Chk[s], uint64(*must(e.be.GetTransactionCount(k.evm(), rpc.BlockNumberOrHashWithNumber(rpc.PendingBlockNumber)))))
		r.eq("nonce of "+s, e.acc[s], uint64(*must(e.be.GetTransactionCount(k.evm(), latest()))))
	}
	type place map[string]map[string]string
	want := map[string]place{"pending": {}, "queued": {}}
	put := func(at string, id int) {
		a := e.keys[e.s[id]].evm().Hex()
		if want[at][a] == nil {
			want[at][a] = map[string]string{}
		}
		want[at][a][fmt.Sprint(e.txs[id].Nonce())] = e.txs[id].Hash().Hex()
	}
	pending := 0
	for _, l := range st.Pool {
		for _, id := range l {
			put("pending", id)
			pending++
		}
	}
	for _, id := range st.Queue {
		put("queued", id)
	}
	got := map[string]place{}
	for at, x := range must(e.be.TxPoolContent()) {
		got[at] = place{}
		for a, l := range x {
			got[at][a] = map[string]string{}
			for n, tx := range l {
				got[at][a][n] = tx.Hash.Hex()
			}
		}
	}
	r.eq("content of the pool", want, got)
	status := must(e.be.TxPoolStatus())
	r.eq("status of the pool", fmt.Sprint(pending, len(st.Queue)), fmt.Sprint(uint64(status["pending"]), uint64(status["queued"])))
	var hashes []string
	for _, p := range e.order {
		hashes = append(hashes, e.txs[p.id].Hash().Hex())
	}
	if len(hashes) > 30 {
		hashes = hashes[:30]
	}
	var real []string
	for _, tx := range must(e.be.PendingTransactions()) {
		real = append(real, tx.Hash.Hex())
	}
	r.eq("pending transactions", hashes, real)
	if r.step%5 != 0 {
		return
	}
	for s, k := range e.keys {
		m := must(e.be.TxPoolContentFrom(k.evm()))
		for at := range want {
			n := map[string]string{}
			for i, tx := range m[at] {
				n[i] = tx.Hash.Hex()
			}
			w := want[at][k.evm().Hex()]
			if w == nil {
				w = map[string]string{}
			}
			r.eq(at+" transactions of "+s, w, n)
		}
	}
	insp := must(e.be.TxPoolInspect())
	for at := range want {
		for a, l := range want[at] {
			for n := range l {
				if insp[at][a][n] == "" {
					r.differ("the transaction %s of %s is not among the %s ones", n, a, at)
				}
			}
		}
	}
}

func (e *poolRun) block(st *pStep) {
	c := e.c
	var txs [][]byte
	left := []*pSent{}
	taken, lost := map[string]int{}, map[string]bool{}
	for _, p := range e.order {
		switch {
		case taken[p.s] < st.Take[p.s]:
			taken[p.s]++
			e.acc[p.s]++
			txs = append(txs, p.bytes)
		case st.Lose[p.s] == 1 && !lost[p.s]:
			lost[p.s] = true
			e.r.count("lose")
		default:
			left = append(left, p)
		}
	}
	for i, x := range c.block(txs).TxResults {
		if x.Code != 0 {
			panic(fmt.Sprint("transaction ", i, " of the block: ", x.Log))
		}
	}
	e.order = nil
	for _, p := range left {
		res := must(c.app.CheckTx(&abci.RequestCheckTx{Tx: p.bytes, Type: abci.CheckTxType_Recheck}))
		if res.Code == 0 {
			e.order = append(e.order, p)
		} else {
			e.r.count("dropped")
		}
	}
}

// flood submits many transactions of a used nonce at once.
func (e *poolRun) flood(ss []string) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(4))
	bad := make(chan error, 4*len(ss))
	var wg sync.WaitGroup
	for i := range 4 * len(ss) {
		tx := e.c.signEth(e.keys[ss[i%len(ss)]], ethChainID(), &coretypes.LegacyTx{Gas: 300_000, To: &common.Address{}, GasPrice: new(big.Int), Value: new(big.Int)})
		wg.Add(1)
		go func() {
			defer wg.Done()
			for range 400 {
				if err := e.be.SendTx(tx); !errors.Is(err, core.ErrNonceTooLow) {
					bad <- fmt.Errorf("a transaction of a used nonce: %v", err)
					return
				}
			}
		}()
	}
	wg.Wait()
	select {
	case err := <-bad:
		e.r.differ("%v", err)
	default:
	}
}

// poll reads the announced transactions.
func (e *poolRun) poll(want fn[[]int]) {
	n := 0
	for _, l := range want {
		n += len(l)
	}
	got := map[string][]int{}
	k := 0
	until := time.Now().Add(10 * time.Second)
	for {
		for _, h := range must(e.api.GetFilterChanges(e.filter)).([]common.Hash) {
			id, ok := e.ids[h]
			if !ok {
				e.r.differ("the transaction %s is announced, which nobody sent", h)
			}
			got[e.s[id]] = append(got[e.s[id]], id)
			k++
		}
		if k >= n || time.Now().After(until) {
			break
		}
		time.Sleep(time.Millisecond)
	}
	for s := range e.keys {
		e.r.eq("announced transactions of "+s, append([]int{}, want[s]...), append([]int{}, got[s]...))
	}
	e.told(want, n)
	if n > 0 {
		e.r.count("announced")
	}
}

// told reads what subscribers are told.
func (e *poolRun) told(want fn[[]int], n int) {
	got, full := map[string][]int{}, map[string][]int{}
	add := func(to map[string][]int, h common.Hash) {
		id, ok := e.ids[h]
		if !ok {
			e.r.differ("a subscriber is told of the transaction %s, which nobody sent", h)
		}
		to[e.s[id]] = append(to[e.s[id]], id)
	}
	late := time.After(10 * time.Second)
	for i, j := 0, 0; i < n || j < n || len(e.hashes)+len(e.fulls) > 0; {
		select {
		case h := <-e.hashes:
			add(got, h)
			i++
		case tx := <-e.fulls:
			add(full, tx.Hash)
			j++
			if id, ok := e.ids[tx.Hash]; ok {
				want := e.txs[id]
				e.r.eq(fmt.Sprintf("transaction %d as subscribers see it", id), fmt.Sprint(e.keys[e.s[id]].evm(), want.Nonce(), want.To(), want.Gas(), hexutil.Encode(want.Data())),
					fmt.Sprint(tx.From, uint64(tx.Nonce), tx.To, uint64(tx.Gas), tx.Input.String()))
				if tx.BlockNumber != nil && tx.BlockNumber.ToInt().Sign() != 0 {
					e.r.differ("a pending transaction is said to be in block %s", tx.BlockNumber)
				}
			}
		case <-late:
			i, j = n, n
		}
	}
	for s := range e.keys {
		e.r.eq("transactions of "+s+" that subscribers are told", append([]int{}, want[s]...), append([]int{}, got[s]...))
		e.r.eq("whole transactions of "+s+" that subscribers are told", append([]int{}, want[s]...), append([]int{}, full[s]...))
	}
}

func poolRunOne(t *testing.T, x any, line []byte, r *rep) {
	pe := x.(*poolEnv)
	var steps []pStep
	if err := json.Unmarshal(line, &steps); err != nil {
		panic(err)
	}
	pe.n++
	e := &poolRun{poolEnv: pe, r: r, keys: map[string]key{}, acc: map[string]uint64{}, txs: map[int]*coretypes.Transaction{}, s: map[int]string{}, ids: map[common.Hash]int{}, at: map[string]*atNode{}}
	c := e.c
	var msgs []sdk.Msg
	for s := range steps[0].Chk {
		k := keyOf(fmt.Sprint("pool ", pe.n, s))
		e.keys[s] = k
		e.acc[s] = 0
		msgs = append(msgs, &banktypes.MsgSend{FromAddress: c.faucet.acc().String(), ToAddress: k.acc().String(), Amount: sdk.NewCoins(sdk.NewInt64Coin("stake", 1_000_000_000))})
	}
	c.run(c.faucet, msgs...)
	e.be = newBackend(c, e.nd, poolCap)
	e.nd.broadcast = e.broadcast
	e.nd.pool = func() (l []cmttypes.Tx) {
		for _, p := range e.order {
			l = append(l, p.bytes)
		}
		return
	}
	defer func() { // let go of what is open
		e.mu.Lock()
		e.auto = true
		for _, a := range e.at {
			if a != nil {
				a.reply <- "lost"
			}
		}
		e.mu.Unlock()
		for range 1000 {
			e.mu.Lock()
			n := e.open
			e.mu.Unlock()
			if n == 0 {
				break
			}
			time.Sleep(time.Millisecond)
		}
		e.api.UninstallFilter(e.filter)
	}()
	e.filter = must(e.api.NewPendingTransactionFilter(nil))
	e.hashes, e.fulls = make(chan common.Hash, 10000), make(chan *rpctypes.RPCTransaction, 10000)
	s1 := must(e.rpc.EthSubscribe(context.Background(), e.hashes, "newPendingTransactions"))
	s2 := must(e.rpc.EthSubscribe(context.Background(), e.fulls, "newPendingTransactions", true))
	defer s1.Unsubscribe()
	defer s2.Unsubscribe()
	for i := range steps {
		st := &steps[i]
		r.step = i
		r.res.Steps++
		r.count(st.A)
		switch st.A {
		case "submit":
			e.make(&st.Tx)
			e.send(st.Tx.ID)
		case "reply":
			e.mu.Lock()
			a := e.at[st.S]
			e.at[st.S] = nil
			e.mu.Unlock()
			r.count("reply." + st.O)
			a.reply <- st.O
		case "direct":
			e.make(&st.Tx)
			tx := must(evmkeeper.NewTxUtils(c.app.EVMKeeper).ConvertEthereumTxToCosmosTx(c.ctx(), e.txs[st.Tx.ID]))
			if res := e.offer(&pSent{st.Tx.ID, st.Tx.S, c.encode(tx)}); res.Code != 0 {
				r.differ("the node refuses transaction %d: %s", st.Tx.ID, res.Log)
			}
		case "block":
			e.block(st)
		case "storm":
			for j := range st.Txs {
				e.make(&st.Txs[j])
			}
			e.auto = true
			for j := range st.Txs {
				e.send(st.Txs[j].ID)
			}
			if len(st.Txs) > 8 {
				r.count("big")
			}
		case "flood":
			e.flood(st.Ss)
		case "poll":
			e.poll(st.News)
		}
		e.settle(st)
		e.auto = false
	}
	time.Sleep(time.Millisecond)
	e.mu.Lock()
	open, bad := e.open, e.bad
	e.mu.Unlock()
	r.eq("open submissions", 0, open)
	if bad != "" {
		r.differ("%s", bad)
	}
}

func init() { families["txpool"] = family{poolSetup, poolRunOne} }
