package zzverif

// Driver for spec/Indexer.tla: the Ethereum index, over blocks and stops.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"testing"
	"time"
	"unsafe"

	"github.com/allegro/bigcache/v3"
	abci "github.com/cometbft/cometbft/abci/types"
	comettypes "github.com/cometbft/cometbft/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	ethfilters "github.com/ethereum/go-ethereum/eth/filters"
	"github.com/ethereum/go-ethereum/rpc"
	"github.com/ethereum/go-ethereum/trie"

	"cosmossdk.io/log"
	"cosmossdk.io/math"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	sdktx "github.com/cosmos/cosmos-sdk/types/tx"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	kvstore "github.com/initia-labs/kvindexer/store"

	"github.com/initia-labs/minievm/jsonrpc/backend"
	cosmosapi "github.com/initia-labs/minievm/jsonrpc/namespaces/cosmos"
	ethapi "github.com/initia-labs/minievm/jsonrpc/namespaces/eth"
	"github.com/initia-labs/minievm/jsonrpc/namespaces/eth/filters"
	rpctypes "github.com/initia-labs/minievm/jsonrpc/types"
	evmconfig "github.com/initia-labs/minievm/x/evm/config"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

type xTx struct {
	K    string `json:"k"`
	From string `json:"from"`
	T    string `json:"t"`
	How  string `json:"how"`
	Logs []int  `json:"logs"`
	Key  int    `json:"key"`
	V    int    `json:"v"`
	Val  int64  `json:"val"`
	Off  uint64 `json:"off"`
	Big  bool   `json:"big"`
	ID   int    `json:"id"`
}

type xPost struct {
	Nonce fn[uint64] `json:"nonce"`
	Cell  fn[int64]  `json:"cell"`
	Bal   int64      `json:"bal"`
}

type xLog struct {
	H  int    `json:"h"`
	P  int    `json:"p"`
	I  int    `json:"i"`
	T  int    `json:"t"`
	By string `json:"by"`
}

type xStep struct {
	A     string   `json:"a"`
	Txs   []xTx    `json:"txs"`
	Res   []string `json:"res"`
	Post  xPost    `json:"post"`
	Lo    int      `json:"lo"`
	Hi    int      `json:"hi"`
	By    string   `json:"by"`
	Ts    [][]int  `json:"ts"`
	Found []xLog   `json:"found"`
	K     string   `json:"k"`
	H     int      `json:"h"`
	From  string   `json:"from"`
	How   string   `json:"how"`
	Key   int      `json:"key"`
	V     int      `json:"v"`
	Val   int64    `json:"val"`
	Ok    bool     `json:"ok"`
	Sees  struct {
		Bal int64 `json:"bal"`
		Was int   `json:"was"`
		Now int   `json:"now"`
	} `json:"sees"`
}

// xBuilt: a transaction as it was broadcast
type xBuilt struct {
	bytes []byte
	eth   *coretypes.Transaction
	made  common.Address
}

type xBlock struct {
	h     int64
	txs   []xTx
	built []xBuilt
	res   []string
	abci  []*abci.ExecTxResult
	post  xPost
	hash  common.Hash // of the header, as first seen
}

func (b *xBlock) eth() (l []int) {
	for i := range b.txs {
		if b.txs[i].K == "call" || b.txs[i].K == "create" {
			l = append(l, i)
		}
	}
	return
}

type idxEnv struct {
	t     *testing.T
	opt   chainOpt
	c     *chain
	keys  map[string]key
	a     common.Address
	token common.Address
	n     int
	dirty bool
	// per behaviour
	h0     int64
	seq0   map[string]uint64
	built  map[int]xBuilt
	blocks []*xBlock
	lost   *xBlock
	// subscription
	events chan any
	stop   chan bool
	// JSON-RPC
	be     *backend.JSONRPCBackend
	api    *filters.FilterAPI
	server *rpc.Server
	client *rpc.Client
}

type indexOptions map[string]any

func (o indexOptions) Get(k string) any { return o[k] }

func idxOptions() indexOptions {
	return indexOptions{"indexer.enable": true, "indexer.cache-capacity": 1, "indexer.backend": kvstore.DefaultConfig().AllSettings()}
}

func idxSetup(t *testing.T) any { return &idxEnv{t: t, dirty: true} }

func (e *idxEnv) fresh() {
	e.n++
	cfg := evmconfig.DefaultEVMConfig()
	// a cache that holds little, or much
	cfg.IndexerCacheSize = []int{1, 8}[e.n%2]
	e.opt = chainOpt{evmcfg: cfg, appOpts: idxOptions()}
	e.hangUp()
	if e.c != nil {
		closeCaches(e.c.app)
	}
	e.c = newChainOn(e.t, &e.opt)
	e.subscribe()
	c := e.c
	e.keys = map[string]key{"U1": keyOf("index U1"), "U2": keyOf("index U2")}
	var msgs []sdk.Msg
	for _, k := range e.keys {
		msgs = append(msgs, &banktypes.MsgSend{FromAddress: c.faucet.acc().String(), ToAddress: k.acc().String(), Amount: sdk.NewCoins(sdk.NewInt64Coin("stake", 1_000_000_000_000_000))})
	}
	e.a = crypto.CreateAddress(c.faucet.evm(), c.seq(c.faucet.acc()))
	msgs = append(msgs, &evmtypes.MsgCreate{Sender: c.faucet.acc().String(), Code: hexutil.Encode(puppetInit(nil)), Value: math.ZeroInt()})
	c.run(c.faucet, msgs...)
	for _, u := range []string{"U1", "U2"} { // their keys become known
		c.run(e.keys[u], &banktypes.MsgSend{FromAddress: e.keys[u].acc().String(), ToAddress: e.keys[u].acc().String(), Amount: sdk.NewCoins(sdk.NewInt64Coin("stake", 1))})
	}
	e.token = must(evmtypes.DenomToContractAddr(c.ctx(), c.app.EVMKeeper, "stake"))
	e.drain(2, c.height)
	e.dirty = false
}

// hangUp ends the JSON-RPC service.
func (e *idxEnv) hangUp() {
	if e.client != nil {
		e.client.Close()
		e.server.Stop()
	}
	e.api, e.be, e.client, e.server = nil, nil, nil, nil
}

// subscribe listens to what the index announces; done before the backend's own
// filters, it is told first.
func (e *idxEnv) subscribe() {
	if e.stop != nil {
		close(e.stop)
	}
	blocks, logs, pending := e.c.app.EVMIndexer().Subscribe()
	ev, stop := make(chan any, 10000), make(chan bool)
	e.events, e.stop = ev, stop
	go func() {
		for {
			select {
			case b := <-blocks:
				ev <- b
			case l := <-logs:
				ev <- l
			case p := <-pending:
				ev <- p
			case <-stop:
				return
			}
		}
	}()
}

func (e *idxEnv) next() any {
	select {
	case x := <-e.events:
		return x
	case <-time.After(20 * time.Second):
		return nil
	}
}

// drain waits until the given blocks have been announced, in whatever order.
func (e *idxEnv) drain(lo, hi int64) {
	left := map[int64]bool{}
	for h := lo; h <= hi; h++ {
		left[h] = true
	}
	for len(left) > 0 {
		switch x := e.next().(type) {
		case *coretypes.Header:
			delete(left, x.Number.Int64())
		case nil:
			panic("a block was not announced")
		}
	}
	for { // what was there before
		select {
		case <-e.events:
		case <-time.After(200 * time.Millisecond):
			return
		}
	}
}

// closeCaches ends the background work of the caches that x refers to, so that
// an application that is no longer used takes no memory.
func closeCaches(x any) {
	seen := map[unsafe.Pointer]bool{}
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 12 {
			return
		}
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), depth+1)
			}
		case reflect.Pointer:
			if v.IsNil() || seen[v.UnsafePointer()] {
				return
			}
			seen[v.UnsafePointer()] = true
			if v.Type() == reflect.TypeFor[*bigcache.BigCache]() {
				_ = (*bigcache.BigCache)(v.UnsafePointer()).Close()
				return
			}
			if p := v.Type().Elem().PkgPath(); strings.Contains(p, "minievm") || strings.Contains(p, "kvindexer") {
				walk(v.Elem(), depth+1)
			}
		case reflect.Struct:
			for i := range v.NumField() {
				walk(v.Field(i), depth+1)
			}
		}
	}
	walk(reflect.ValueOf(x), 0)
}

func (e *idxEnv) reopen() {
	c := e.c
	closeCaches(c.app)
	c.app = newApp(&e.opt)
	if got := c.app.LastBlockHeight(); got != c.height {
		panic(fmt.Sprintf("reopened at height %d, not %d", got, c.height))
	}
	e.hangUp()
	e.subscribe()
}

// body: what A is to do
func (e *idxEnv) body(x *xTx) []byte {
	s := &script{}
	s.sstore(x.Key, x.V)
	for _, l := range x.Logs {
		s.logTopics(l, topicsOf(l))
	}
	switch x.How {
	case "revert":
		s.revert()
	case "caught":
		s.call(kCall, false, 0, e.a, 0, (&script{}).sstore(9, 9).log(7).revert().b)
	}
	if x.Big {
		s.raw(psSTOP)
		s.b = append(s.b, bytes.Repeat([]byte{1, 2, 3, 4, 5, 6, 7}, 9000)...)
	}
	return s.b
}

const ethTip = 3

func (e *idxEnv) build(x *xTx, nonce uint64) (b xBuilt) {
	c := e.c
	k := e.keys[x.From]
	call := func() sdk.Msg {
		return &evmtypes.MsgCall{Sender: k.acc().String(), ContractAddr: e.a.Hex(), Input: hexutil.Encode(e.body(x)), Value: math.NewInt(x.Val)}
	}
	cosmos := func(memo string, msgs ...sdk.Msg) []byte {
		return c.encode(c.sign(cosTx{msgs: msgs, signers: []key{k}, seqs: []uint64{nonce}, gas: 50_000_000 + uint64(x.ID), memo: memo}).GetTx())
	}
	memo := `{"type":2,"gas_fee_cap":"0","gas_tip_cap":"0"}`
	switch x.K {
	case "cos":
		b.bytes = cosmos("", call())
		return
	case "memo":
		b.bytes = cosmos([]string{"{}", memo}[x.ID%2], call())
		return
	case "two":
		b.bytes = cosmos(memo, call(), call())
		return
	case "nokey":
		b.bytes = e.noKey(k, cosTx{msgs: []sdk.Msg{call()}, seqs: []uint64{nonce}, gas: 50_000_000 + uint64(x.ID), memo: []string{"{}", memo}[x.ID%2]})
		return
	case "garbage":
		b.bytes = []byte(fmt.Sprint("garbage ", x.ID))
		return
	}
	// an Ethereum transaction, possibly altered
	nonce += x.Off
	gas := uint64(50_000_000 + x.ID)
	price := big.NewInt(int64(x.ID % 3))
	var to *common.Address
	data := e.body(x)
	if x.K == "create" {
		s := &script{}
		for _, l := range x.Logs {
			s.logTopics(l, topicsOf(l))
		}
		if x.How == "revert" {
			s.revert()
		}
		data = puppetInit(s.b)
		if x.Big { // the code is followed by its script, which the constructor copies
			data = puppetInit(append(s.raw(psSTOP).b, bytes.Repeat([]byte{1, 2, 3}, 15000)...))
		}
		b.made = crypto.CreateAddress(k.evm(), nonce)
	} else {
		to = &e.a
	}
	value := big.NewInt(x.Val)
	al := coretypes.AccessList{{Address: e.a, StorageKeys: []common.Hash{common.BigToHash(big.NewInt(1))}}}
	var td coretypes.TxData
	switch x.T {
	case "legacy":
		td = &coretypes.LegacyTx{Nonce: nonce, GasPrice: price, Gas: gas, To: to, Value: value, Data: data}
	case "acl":
		td = &coretypes.AccessListTx{ChainID: ethChainID(), Nonce: nonce, GasPrice: price, Gas: gas, To: to, Value: value, Data: data, AccessList: al}
	case "dyn":
		td = &coretypes.DynamicFeeTx{ChainID: ethChainID(), Nonce: nonce, GasFeeCap: price, GasTipCap: big.NewInt(ethTip), Gas: gas, To: to, Value: value, Data: data, AccessList: al}
	}
	eth := c.signEth(k, ethChainID(), td)
	tx := must(c.app.EVMKeeper.TxUtils().ConvertEthereumTxToCosmosTx(c.ctx(), eth))
	b.bytes = c.encode(tx)
	if x.K == "call" || x.K == "create" {
		b.eth = eth
		return
	}
	w := must(c.txCfg.WrapTxBuilder(tx))
	msg := tx.GetMsgs()[0].(*evmtypes.MsgCall)
	var md map[string]any
	if err := json.Unmarshal([]byte(w.GetTx().GetMemo()), &md); err != nil {
		panic(err)
	}
	switch x.K {
	case "novalue":
		b.bytes = dropValue(b.bytes)
		return
	case "badaddr":
		msg.ContractAddr = "0x1234zz"
	case "badhex":
		msg.Input = "0xzz"
	case "negvalue":
		msg.Value = math.NewInt(-5)
	case "badtype":
		md["type"] = 9
	case "negtip":
		md["type"], md["gas_tip_cap"] = 2, "-5"
	case "hugetip":
		md["type"], md["gas_tip_cap"] = 2, new(big.Int).Lsh(big.NewInt(1), 256).String()
	case "negcap":
		md["type"], md["gas_fee_cap"] = 1, "-5"
	default:
		panic("kind " + x.K)
	}
	if err := w.SetMsgs(msg); err != nil {
		panic(err)
	}
	w.SetMemo(string(must(json.Marshal(md))))
	b.bytes = c.encode(w.GetTx())
	return
}

// noKey signs a transaction that leaves out the signer's key, which the chain knows.
func (e *idxEnv) noKey(k key, x cosTx) []byte {
	x.signers = []key{k}
	var raw sdktx.TxRaw
	if err := raw.Unmarshal(e.c.encode(e.c.sign(x).GetTx())); err != nil {
		panic(err)
	}
	var auth sdktx.AuthInfo
	if err := auth.Unmarshal(raw.AuthInfoBytes); err != nil {
		panic(err)
	}
	auth.SignerInfos[0].PublicKey = nil
	raw.AuthInfoBytes = must(auth.Marshal())
	doc := sdktx.SignDoc{BodyBytes: raw.BodyBytes, AuthInfoBytes: raw.AuthInfoBytes, ChainId: chainID, AccountNumber: e.c.app.AccountKeeper.GetAccount(e.c.ctx(), k.acc()).GetAccountNumber()}
	raw.Signatures[0] = must(k.p.Sign(must(doc.Marshal())))
	return must(raw.Marshal())
}

// dropValue removes the value from the message of a transaction.
func dropValue(bz []byte) []byte {
	var raw sdktx.TxRaw
	if err := raw.Unmarshal(bz); err != nil {
		panic(err)
	}
	var body sdktx.TxBody
	if err := body.Unmarshal(raw.BodyBytes); err != nil {
		panic(err)
	}
	var m evmtypes.MsgCall
	if err := m.Unmarshal(body.Messages[0].Value); err != nil {
		panic(err)
	}
	m2 := (&evmtypes.MsgCall{Sender: m.Sender, ContractAddr: m.ContractAddr, Input: m.Input, Value: m.Value})
	enc := must(m2.Marshal())
	v := must(m.Value.Marshal())
	field := append([]byte{0x22, byte(len(v))}, v...)
	i := bytes.LastIndex(enc, field)
	if i < 0 {
		panic("no value in the encoding")
	}
	enc = append(append([]byte{}, enc[:i]...), enc[i+len(field):]...)
	body.Messages[0] = &codectypes.Any{TypeUrl: body.Messages[0].TypeUrl, Value: enc}
	raw.BodyBytes = must(body.Marshal())
	return must(raw.Marshal())
}

func (e *idxEnv) finalize(r *rep, st *xStep) *xBlock {
	b := &xBlock{h: e.c.height + 1, txs: st.Txs, res: st.Res}
	off := map[string]uint64{}
	for _, u := range []string{"U1", "U2"} {
		off[u] = e.seq0[u] + st.Post.Nonce[u]
	}
	var raw [][]byte
	for i := range st.Txs {
		x := &st.Txs[i]
		if _, ok := e.built[x.ID]; !ok {
			e.built[x.ID] = e.build(x, off[x.From])
		}
		b.built = append(b.built, e.built[x.ID])
		raw = append(raw, e.built[x.ID].bytes)
		if st.Res[i] != "rejected" {
			off[x.From]++
			if x.K == "two" {
				off[x.From]++
			}
		}
		r.count(x.K + "." + st.Res[i])
		r.count("type." + x.T)
		if x.Big {
			r.count("big")
		}
	}
	b.abci = e.c.finalize(raw).TxResults
	for i := range st.Txs {
		if (b.abci[i].Code == 0) != (st.Res[i] == "ok") {
			r.differ("transaction %+v: specification %s, code %d (%s)", st.Txs[i], st.Res[i], b.abci[i].Code, b.abci[i].Log)
		}
	}
	return b
}

// topicsOf is TopicsOf of the specification
func topicsOf(l int) []int {
	return [][]int{nil, {1}, {2}, {1, 2}, {1, 3, 2, 1}, {1, 3, 2, 2}, {2, 3, 2, 1}, {}}[l]
}

func hashesOf(vs []int) []common.Hash {
	out := []common.Hash{}
	for _, v := range vs {
		if v == 90 {
			out = append(out, transferTopic)
			continue
		}
		out = append(out, topicOf(v))
	}
	return out
}

func topicOf(v int) common.Hash { return common.BigToHash(big.NewInt(int64(v))) }

// logs a transaction of the block leaves
func (e *idxEnv) logsOf(b *xBlock, i int) (ls []*coretypes.Log) {
	if b.res[i] != "ok" {
		return nil
	}
	by := e.a
	if b.txs[i].K == "create" {
		by = b.built[i].made
	}
	if v := b.txs[i].Val; v > 0 {
		ls = append(ls, &coretypes.Log{Address: e.token, Topics: []common.Hash{transferTopic, common.BytesToHash(e.keys[b.txs[i].From].evm().Bytes()), common.BytesToHash(by.Bytes())}, Data: topicOf(int(v)).Bytes()})
	}
	for _, l := range b.txs[i].Logs {
		ls = append(ls, &coretypes.Log{Address: by, Topics: hashesOf(topicsOf(l)), Data: topicOf(l).Bytes()})
	}
	return
}

func sameLog(a, b *coretypes.Log) bool {
	if a.Address != b.Address || len(a.Topics) != len(b.Topics) || !bytes.Equal(a.Data, b.Data) {
		return false
	}
	for i := range a.Topics {
		if a.Topics[i] != b.Topics[i] {
			return false
		}
	}
	return true
}

func showLogs(ls []*coretypes.Log) string {
	var s []string
	for _, l := range ls {
		s = append(s, fmt.Sprintf("%x:%v:%x", l.Address[:3], l.Topics, l.Data))
	}
	return strings.Join(s, " ")
}

// announced checks what a block's subscribers are told
func (e *idxEnv) announced(r *rep, b *xBlock) {
	p := -1
	before := 0
	for _, i := range b.eth() {
		p++
		want := e.logsOf(b, i)
		if len(want) == 0 {
			continue
		}
		got, ok := e.next().([]*coretypes.Log)
		if !ok {
			r.differ("block %d: the logs of transaction %d were not announced", b.h, i)
		}
		if len(want) != len(got) {
			r.differ("announced logs: specification %s, code %s", showLogs(want), showLogs(got))
		}
		for j := range want {
			if !sameLog(want[j], got[j]) {
				r.differ("announced logs: specification %s, code %s", showLogs(want), showLogs(got))
			}
			r.eq("announced log's transaction", b.built[i].eth.Hash(), got[j].TxHash)
			r.eq("announced log's position of the transaction", p, got[j].TxIndex)
			r.eq("announced log's block", b.h, got[j].BlockNumber)
			e.logPlace(r, got[j], j, before)
			if b.hash == (common.Hash{}) {
				b.hash = got[j].BlockHash
			}
			r.eq("announced log's block hash", b.hash, got[j].BlockHash)
		}
		before += len(want)
		r.count("announced.logs")
	}
	switch x := e.next().(type) {
	case []*coretypes.Log:
		r.eq("number of announced logs at the end", 0, len(x))
	default:
		r.differ("block %d: the end of the logs was not announced, but %T", b.h, x)
	}
	hdr, ok := e.next().(*coretypes.Header)
	if !ok {
		r.differ("block %d was not announced", b.h)
	}
	r.eq("announced block", b.h, hdr.Number.Int64())
	if b.hash == (common.Hash{}) {
		b.hash = hdr.Hash()
	}
	r.eq("announced block hash", b.hash, hdr.Hash())
}

// the index of a log: in its block, or (KF5) in its transaction
func (e *idxEnv) logPlace(r *rep, l *coretypes.Log, j, before int) {
	r.res.Checks++
	if int(l.Index) != j && int(l.Index) != before+j {
		r.differ("log %d of its transaction, after %d logs in the block, has index %d", j, before, l.Index)
	}
}

// block checks everything the index says about one block
func (e *idxEnv) checkBlock(r *rep, b *xBlock, parent common.Hash) {
	c, ctx := e.c, context.Context(e.c.ctx())
	ix := c.app.EVMIndexer()
	hdr, err := ix.BlockHeaderByNumber(ctx, uint64(b.h))
	if err != nil {
		r.differ("block %d is not found: %v", b.h, err)
	}
	what := func(s string) string { return fmt.Sprintf("block %d: %s", b.h-e.h0, s) }
	if b.hash == (common.Hash{}) {
		b.hash = hdr.Hash()
	}
	r.eq(what("hash"), b.hash, hdr.Hash())
	r.eq(what("number"), b.h, hdr.Number)
	r.eq(what("time"), blockTime(b.h).Unix(), int64(hdr.Time))
	r.eq(what("parent"), parent, hdr.ParentHash)
	r.eq(what("gas limit"), uint64(1234000000), hdr.GasLimit)
	r.eq(what("number by hash"), b.h, must(ix.BlockHashToNumber(ctx, b.hash)))
	byHash, err := ix.BlockHeaderByHash(ctx, b.hash)
	if err != nil {
		r.differ("block %d is not found by hash: %v", b.h, err)
	}
	r.eq(what("by hash"), string(must(json.Marshal(hdr))), string(must(json.Marshal(byHash))))

	gas, cum := uint64(0), uint64(0)
	for _, x := range b.abci {
		gas += uint64(x.GasUsed)
	}
	r.eq(what("gas used"), gas, hdr.GasUsed)
	var eths coretypes.Transactions
	var receipts coretypes.Receipts
	p := -1
	for _, i := range b.eth() {
		p++
		x, bt, res := &b.txs[i], &b.built[i], b.abci[i]
		what := func(s string) string { return fmt.Sprintf("block %d, transaction %d: %s", b.h-e.h0, p, s) }
		eths = append(eths, bt.eth)
		tx, err := ix.TxByBlockAndIndex(ctx, uint64(b.h), uint64(p))
		if err != nil {
			r.differ("%s: %v", what("not found by position"), err)
		}
		tx2, err := ix.TxByHash(ctx, bt.eth.Hash())
		if err != nil {
			r.differ("%s: %v", what("not found by hash"), err)
		}
		r.eq(what("by hash and by position"), string(must(json.Marshal(tx))), string(must(json.Marshal(tx2))))
		e.checkTx(r, what, b, i, p, tx)
		// the receipt
		rc, err := ix.TxReceiptByHash(ctx, bt.eth.Hash())
		if err != nil {
			r.differ("%s: %v", what("receipt not found"), err)
		}
		status := uint64(0)
		if b.res[i] == "ok" {
			status = 1
		}
		cum += uint64(res.GasUsed)
		want := e.logsOf(b, i)
		if len(want) != len(rc.Logs) {
			r.differ("%s: specification %s, code %s", what("logs"), showLogs(want), showLogs(rc.Logs))
		}
		for j := range want {
			if !sameLog(want[j], rc.Logs[j]) {
				r.differ("%s: specification %s, code %s", what("logs"), showLogs(want), showLogs(rc.Logs))
			}
		}
		r.eq(what("status"), status, rc.Status)
		r.eq(what("gas used"), uint64(res.GasUsed), rc.GasUsed)
		r.eq(what("cumulative gas"), cum, rc.CumulativeGasUsed)
		r.eq(what("bloom"), coretypes.Bloom(coretypes.LogsBloom(want)), rc.Bloom)
		r.eq(what("position of the receipt"), p, int(rc.TransactionIndex))
		r.eq(what("gas price of the receipt"), bt.eth.GasPrice(), rc.EffectiveGasPrice)
		var made common.Address
		if x.K == "create" && status == 1 {
			made = bt.made
		}
		r.eq(what("created contract"), made, rc.ContractAddress)
		receipts = append(receipts, &coretypes.Receipt{Status: status, CumulativeGasUsed: cum, GasUsed: rc.GasUsed, Logs: want, Bloom: rc.Bloom})
		// the two hashes
		ch := comettypes.Tx(bt.bytes).Hash()
		got, err := ix.CosmosTxHashByTxHash(ctx, bt.eth.Hash())
		if err != nil || !bytes.Equal(got, ch) {
			r.differ("%s: specification %x, code %x %v", what("cosmos hash"), ch, got, err)
		}
		back, err := ix.TxHashByCosmosTxHash(ctx, ch)
		if err != nil || back != bt.eth.Hash() {
			r.differ("%s: specification %x, code %x %v", what("ethereum hash"), bt.eth.Hash(), back, err)
		}
		r.count("indexed")
	}
	if tx, err := ix.TxByBlockAndIndex(ctx, uint64(b.h), uint64(p+1)); err == nil {
		r.differ("block %d has %d Ethereum transactions, but one more is found: %+v", b.h-e.h0, p+1, tx)
	}
	var listed, listedR []string
	if err := ix.IterateBlockTxs(ctx, uint64(b.h), func(tx *rpctypes.RPCTransaction) (bool, error) {
		listed = append(listed, tx.Hash.Hex())
		return false, nil
	}); err != nil {
		r.differ("%s: %v", what("transactions cannot be listed"), err)
	}
	if err := ix.IterateBlockTxRecepts(ctx, uint64(b.h), func(rc *coretypes.Receipt) (bool, error) {
		listedR = append(listedR, fmt.Sprint(rc.CumulativeGasUsed))
		return false, nil
	}); err != nil {
		r.differ("%s: %v", what("receipts cannot be listed"), err)
	}
	var wl, wr []string
	for i, x := range eths {
		wl, wr = append(wl, x.Hash().Hex()), append(wr, fmt.Sprint(receipts[i].CumulativeGasUsed))
	}
	r.eq(what("transactions"), wl, listed)
	r.eq(what("receipts"), wr, listedR)
	r.eq(what("bloom"), coretypes.CreateBloom(receipts), hdr.Bloom)
	r.eq(what("root of transactions"), coretypes.DeriveSha(eths, trie.NewStackTrie(nil)), hdr.TxHash)
	root := coretypes.DeriveSha(receipts, trie.NewStackTrie(nil))
	if root != hdr.ReceiptHash { // or with their types
		for i := range receipts {
			receipts[i].Type = eths[i].Type()
		}
		r.eq(what("root of receipts"), coretypes.DeriveSha(receipts, trie.NewStackTrie(nil)), hdr.ReceiptHash)
	}
	// nothing else
	for i := range b.txs {
		if b.built[i].eth == nil {
			if h, err := ix.TxHashByCosmosTxHash(ctx, comettypes.Tx(b.built[i].bytes).Hash()); err == nil {
				r.differ("%s: %s is found as %x", what("not an Ethereum transaction"), b.txs[i].K, h)
			}
			r.count("notindexed." + b.txs[i].K)
		}
	}
}

// checkTx compares an indexed transaction with the one that was sent
func (e *idxEnv) checkTx(r *rep, what func(string) string, b *xBlock, i, p int, tx *rpctypes.RPCTransaction) {
	bt := &b.built[i]
	r.eq(what("hash"), bt.eth.Hash(), tx.Hash)
	if tx.BlockHash == nil || tx.BlockNumber == nil || tx.TransactionIndex == nil {
		r.differ("%s", what("has no place"))
	}
	r.eq(what("block hash"), b.hash, *tx.BlockHash)
	r.eq(what("block"), b.h, tx.BlockNumber.ToInt())
	r.eq(what("position"), p, uint64(*tx.TransactionIndex))
	r.eq(what("sender"), e.keys[b.txs[i].From].evm(), tx.From)
	r.eq(what("type"), bt.eth.Type(), uint64(tx.Type))
	r.eq(what("gas price"), bt.eth.GasPrice(), tx.GasPrice.ToInt())
	r.eq(what("encoding"), hexutil.Encode(must(bt.eth.MarshalBinary())), hexutil.Encode(must(tx.ToTransaction().MarshalBinary())))
}

// absent: nothing of a lost block is left
func (e *idxEnv) absent(r *rep, b *xBlock) {
	ix, ctx := e.c.app.EVMIndexer(), e.c.ctx()
	if h, err := ix.BlockHeaderByNumber(ctx, uint64(b.h)); err == nil {
		r.differ("block %d was lost, but is found with hash %x", b.h-e.h0, h.Hash())
	}
	if _, err := ix.BlockHashToNumber(ctx, b.hash); err == nil {
		r.differ("block %d was lost, but is found by hash", b.h-e.h0)
	}
	for _, i := range b.eth() {
		if _, err := ix.TxByHash(ctx, b.built[i].eth.Hash()); err == nil {
			r.differ("block %d was lost, but its transaction %d is found", b.h-e.h0, i)
		}
		if rc, err := ix.TxReceiptByHash(ctx, b.built[i].eth.Hash()); err == nil {
			r.differ("block %d was lost, but the receipt of its transaction %d is found: %+v", b.h-e.h0, i, rc)
		}
		if _, err := ix.TxHashByCosmosTxHash(ctx, comettypes.Tx(b.built[i].bytes).Hash()); err == nil {
			r.differ("block %d was lost, but the hash of its transaction %d is found", b.h-e.h0, i)
		}
		if _, err := ix.TxByBlockAndIndex(ctx, uint64(b.h), 0); err == nil {
			r.differ("block %d was lost, but a transaction is found in it", b.h-e.h0)
		}
	}
	r.count("absent")
}

func (e *idxEnv) parent(i int) common.Hash {
	if i > 0 {
		return e.blocks[i-1].hash
	}
	h, err := e.c.app.EVMIndexer().BlockHeaderByNumber(e.c.ctx(), uint64(e.h0))
	if err != nil {
		return common.Hash{}
	}
	return h.Hash()
}

func idxRun(t *testing.T, s any, line []byte, r *rep) {
	e := s.(*idxEnv)
	var steps []xStep
	if err := json.Unmarshal(line, &steps); err != nil {
		panic(err)
	}
	views := false
	for i := range steps {
		views = views || steps[i].A == "query" || steps[i].A == "poll" || steps[i].A == "watch" || steps[i].A == "all" || steps[i].A == "ask"
	}
	if e.dirty || (e.c.height > 400 && !views) {
		e.fresh()
	}
	e.dirty = true
	c := e.c
	e.h0, e.built, e.blocks = c.height, map[int]xBuilt{}, nil
	e.seq0 = map[string]uint64{}
	for u, k := range e.keys {
		e.seq0[u] = c.seq(k.acc())
	}
	var pend *xBlock
	v := e.newViews(views)
	for i := range steps {
		r.step = i
		r.res.Steps++
		st := &steps[i]
		switch st.A {
		case "finalize":
			pend = e.finalize(r, st)
			e.announced(r, pend)
		case "commit":
			c.commit()
			pend.post = st.Post
			e.blocks = append(e.blocks, pend)
			e.checkBlock(r, pend, e.parent(len(e.blocks)-1))
			pend = nil
			r.count("commit")
			if views {
				v.block(r, len(e.blocks)-1)
			}
		case "stop":
			e.reopen()
			r.count("stop")
			if views { // filters are gone
				v.open()
				v.logs, v.heads, v.subs = "", "", nil
			}
			for j, b := range e.blocks {
				e.checkBlock(r, b, e.parent(j))
			}
			if pend != nil {
				e.absent(r, pend)
				pend = nil
			}
		case "query":
			v.query(r, st)
			r.count("query")
		case "ask":
			v.ask(r, st)
		case "watch":
			v.watch(r, st)
		case "poll":
			v.poll(r, st)
			r.count("poll")
		case "all":
			v.all(r, st)
			r.count("all")
		}
	}
	for j, b := range e.blocks {
		e.checkBlock(r, b, e.parent(j))
		if views {
			v.block(r, j)
		}
	}
	v.done(r, pend == nil)
	if pend != nil {
		c.commit()
	}
	e.dirty = false
}

func init() { families["indexer"] = family{idxSetup, idxRun} }

// ------------------------------------------------------------------ reads

// views: the JSON-RPC reads of the chain
type views struct {
	*idxEnv
	logs, heads rpc.ID
	logCh       chan *coretypes.Log
	headCh      chan *coretypes.Header
	subs        []*rpc.ClientSubscription
	polled      int
	bal0        *big.Int
	cell0       map[int]common.Hash
}

func (e *idxEnv) newViews(on bool) *views {
	v := &views{idxEnv: e}
	if !on {
		return v
	}
	v.open()
	v.bal0 = must(e.be.GetBalance(e.a, latest())).ToInt()
	v.cell0 = map[int]common.Hash{}
	for k := 1; k <= 3; k++ {
		v.cell0[k] = common.BytesToHash(must(e.be.GetStorageAt(e.a, common.BigToHash(big.NewInt(int64(k))), latest())))
	}
	return v
}

func (v *views) open() {
	if e := v.idxEnv; e.be == nil {
		e.be = newBackend(e.c, &node{height: func() int64 { return e.c.height }}, 0)
		e.api = filters.NewFilterAPI(e.c.app, e.be, log.NewNopLogger())
		e.server = rpc.NewServer()
		for _, x := range []struct {
			name string
			api  any
		}{{"eth", ethapi.NewEthAPI(log.NewNopLogger(), e.be)}, {"eth", e.api}, {"cosmos", cosmosapi.NewCosmosAPI(log.NewNopLogger(), e.be)}} {
			if err := e.server.RegisterName(x.name, x.api); err != nil {
				panic(err)
			}
		}
		e.client = rpc.DialInProc(e.server)
	}
}

func latest() rpc.BlockNumberOrHash { return rpc.BlockNumberOrHashWithNumber(rpc.LatestBlockNumber) }

func asMap(x any) map[string]any {
	var m map[string]any
	if err := json.Unmarshal(must(json.Marshal(x)), &m); err != nil {
		panic(err)
	}
	return m
}

func (v *views) block(r *rep, j int) {
	e := v.idxEnv
	be, b := e.be, e.blocks[j]
	last := j == len(e.blocks)-1
	num := rpc.BlockNumber(b.h)
	what := func(s string) string { return fmt.Sprintf("block %d: %s", b.h-e.h0, s) }
	var hashes, full []string
	for _, i := range b.eth() {
		hashes = append(hashes, b.built[i].eth.Hash().Hex())
	}
	get := []map[string]any{asMap(must(be.GetBlockByNumber(num, false))), asMap(must(be.GetBlockByHash(b.hash, false)))}
	if last {
		get = append(get, asMap(must(be.GetBlockByNumber(rpc.LatestBlockNumber, false))))
	}
	for _, m := range get {
		r.eq(what("hash"), b.hash.Hex(), m["hash"])
		r.eq(what("number"), hexutil.EncodeUint64(uint64(b.h)), m["number"])
		r.eq(what("parent"), e.parent(j).Hex(), m["parentHash"])
		r.eq(what("time"), hexutil.EncodeUint64(uint64(blockTime(b.h).Unix())), m["timestamp"])
		var got []string
		for _, x := range m["transactions"].([]any) {
			got = append(got, x.(string))
		}
		r.eq(what("hashes of transactions"), hashes, got)
	}
	for _, x := range asMap(must(be.GetBlockByNumber(num, true)))["transactions"].([]any) {
		full = append(full, x.(map[string]any)["hash"].(string))
	}
	r.eq(what("transactions"), hashes, full)
	r.eq(what("count by number"), len(hashes), uint(*must(be.GetBlockTransactionCountByNumber(num))))
	r.eq(what("count by hash"), len(hashes), uint(*must(be.GetBlockTransactionCountByHash(b.hash))))
	if last {
		r.eq(what("count of the latest"), len(hashes), uint(*must(be.GetBlockTransactionCountByNumber(rpc.LatestBlockNumber))))
		r.eq(what("hash by the header of the latest"), b.hash.Hex(), must(be.GetHeaderByNumber(rpc.LatestBlockNumber)).Hash().Hex())
		r.eq(what("number of receipts of the latest"), len(hashes), len(must(be.GetBlockReceipts(context.Background(), latest()))))
		for p, h := range hashes {
			tx, err := be.GetTransactionByBlockNumberAndIndex(rpc.LatestBlockNumber, hexutil.Uint(p))
			if err != nil || tx == nil {
				r.differ("%s: %v %v", what(fmt.Sprintf("transaction %d of the latest", p)), tx, err)
				continue
			}
			r.eq(what("transaction of the latest"), h, tx.Hash.Hex())
			r.count("latesttx")
		}
		// a block that is not there
		none := common.BytesToHash(crypto.Keccak256(b.hash.Bytes()))
		if m, err := be.GetBlockByHash(none, true); err != nil || m != nil {
			r.differ("%s: %v %v", what("a block that is not there"), m, err)
		}
		if n, err := be.GetBlockTransactionCountByHash(none); err != nil || n != nil {
			r.differ("%s: %v %v", what("count of a block that is not there"), n, err)
		}
		if h, err := be.GetHeaderByHash(none); err != nil || h != nil {
			r.differ("%s: %v %v", what("header of a block that is not there"), h, err)
		}
		if tx, err := be.GetTransactionByBlockHashAndIndex(none, 0); err != nil || tx != nil {
			r.differ("%s: %v %v", what("transaction of a block that is not there"), tx, err)
		}
		if l, err := be.GetBlockReceipts(context.Background(), rpc.BlockNumberOrHashWithHash(none, false)); err != nil || l != nil {
			r.differ("%s: %v %v", what("receipts of a block that is not there"), l, err)
		}
		if l, err := be.GetTransactionReceipt(none); err != nil || l != nil {
			r.differ("%s: %v %v", what("receipt of a transaction that is not there"), l, err)
		}
		if l, err := be.GetRawTransactionByHash(none); err != nil || l != nil {
			r.differ("%s: %v %v", what("raw transaction that is not there"), l, err)
		}
		if l, err := be.GetBlockReceipts(context.Background(), rpc.BlockNumberOrHashWithNumber(num+7)); err != nil || l != nil {
			r.differ("%s: %v %v", what("receipts of a block to come"), l, err)
		}
		if n, err := be.GetBlockTransactionCountByNumber(num + 7); err != nil || n != nil {
			r.differ("%s: %v %v", what("number of transactions of a block to come"), n, err)
		}
		if n, err := be.GetBlockTransactionCountByHash(none); err != nil || n != nil {
			r.differ("%s: %v %v", what("number of transactions of a block that is not there"), n, err)
		}
		if m, err := be.GetBlockByNumber(num+7, true); err != nil || m != nil {
			r.differ("%s: %v %v", what("a block to come"), m, err)
		}
	}
	rcs := must(be.GetBlockReceipts(context.Background(), rpc.BlockNumberOrHashWithNumber(num)))
	r.eq(what("number of receipts"), len(hashes), len(rcs))
	before := 0
	for p, i := range b.eth() {
		what := func(s string) string { return fmt.Sprintf("block %d, transaction %d: %s", b.h-e.h0, p, s) }
		bt := &b.built[i]
		raw := hexutil.Encode(must(bt.eth.MarshalBinary()))
		for _, tx := range []*rpctypes.RPCTransaction{must(be.GetTransactionByHash(bt.eth.Hash())), must(be.GetTransactionByBlockNumberAndIndex(num, hexutil.Uint(p))),
			must(be.GetTransactionByBlockHashAndIndex(b.hash, hexutil.Uint(p)))} {
			if tx == nil {
				r.differ("%s", what("not found"))
			}
			e.checkTx(r, what, b, i, p, tx)
		}
		r.eq(what("raw"), raw, must(be.GetRawTransactionByHash(bt.eth.Hash())))
		r.eq(what("raw by position"), raw, must(be.GetRawTransactionByBlockHashAndIndex(b.hash, hexutil.Uint(p))))
		r.eq(what("cosmos hash"), []byte(comettypes.Tx(bt.bytes).Hash()), must(be.CosmosTxHashByTxHash(bt.eth.Hash())))
		r.eq(what("ethereum hash"), bt.eth.Hash(), must(be.TxHashByCosmosTxHash(comettypes.Tx(bt.bytes).Hash())))
		one := must(be.GetTransactionReceipt(bt.eth.Hash()))
		want := e.logsOf(b, i)
		for _, rc := range []map[string]any{one, rcs[p]} {
			m := asMap(rc)
			r.eq(what("receipt's block hash"), b.hash.Hex(), m["blockHash"])
			r.eq(what("receipt's block"), hexutil.EncodeUint64(uint64(b.h)), m["blockNumber"])
			r.eq(what("receipt's transaction"), bt.eth.Hash().Hex(), m["transactionHash"])
			r.eq(what("receipt's position"), hexutil.EncodeUint64(uint64(p)), m["transactionIndex"])
			r.eq(what("receipt's status"), map[bool]string{true: "0x1", false: "0x0"}[b.res[i] == "ok"], m["status"])
			r.eq(what("receipt's gas"), hexutil.EncodeUint64(uint64(b.abci[i].GasUsed)), m["gasUsed"])
			var made any
			if b.txs[i].K == "create" && b.res[i] == "ok" {
				made = strings.ToLower(bt.made.Hex())
			}
			r.eq(what("receipt's contract"), made, m["contractAddress"])
			ls := rc["logs"].([]*coretypes.Log)
			if len(ls) != len(want) {
				r.differ("%s: specification %s, code %s", what("receipt's logs"), showLogs(want), showLogs(ls))
			}
			for k := range want {
				if !sameLog(want[k], ls[k]) {
					r.differ("%s: specification %s, code %s", what("receipt's logs"), showLogs(want), showLogs(ls))
				}
				v.logAt(r, ls[k], b, p, k, before)
			}
		}
		before += len(want)
	}
	for _, p := range []int{len(hashes), len(hashes) + 1} {
		if tx, err := be.GetTransactionByBlockNumberAndIndex(num, hexutil.Uint(p)); err != nil || tx != nil {
			r.differ("%s: %v %v", what("a transaction that is not there"), tx, err)
		}
	}
	for i := range b.txs {
		if b.built[i].eth == nil {
			r.eq(what("ethereum hash of another transaction"), common.Hash{}, must(be.TxHashByCosmosTxHash(comettypes.Tx(b.built[i].bytes).Hash())))
		}
	}
	// the state after the block
	at := []rpc.BlockNumberOrHash{rpc.BlockNumberOrHashWithNumber(num), rpc.BlockNumberOrHashWithHash(b.hash, false)}
	if last {
		at = append(at, latest())
	}
	for _, bn := range at {
		bal := new(big.Int).Sub(must(be.GetBalance(e.a, bn)).ToInt(), v.bal0)
		r.eq(what("balance of the contract"), b.post.Bal, bal)
		for k, x := range b.post.Cell {
			want := topicOf(int(x))
			slot := common.HexToHash("0x" + k)
			if x == 0 {
				want = v.cell0[int(slot.Big().Int64())]
			}
			r.eq(what("cell "+k), want, common.BytesToHash(must(be.GetStorageAt(e.a, slot, bn))))
			in := hexutil.Bytes((&script{}).sload(int(slot.Big().Int64())).b)
			bn := bn
			out := must(be.Call(rpctypes.TransactionArgs{From: ptr(e.keys["U1"].evm()), To: &e.a, Input: &in}, &bn, nil, nil))
			if !bytes.Contains(out, want.Bytes()) {
				r.differ("%s: %x in the answer of a call, %x", what("cell "+k), want, []byte(out))
			}
		}
		for _, u := range []string{"U1", "U2"} {
			r.eq(what("nonce of "+u), e.seq0[u]+b.post.Nonce[u], uint64(*must(be.GetTransactionCount(e.keys[u].evm(), bn))))
		}
		for i := range b.txs {
			if b.txs[i].K == "create" {
				code := must(be.GetCode(b.built[i].made, bn))
				// a rejected creation's address may be used later
				if (b.res[i] == "ok") != (len(code) > 0) && (b.res[i] == "ok" || !last) {
					if b.res[i] != "ok" {
						continue
					}
					r.differ("%s: %d bytes", what("code of the created contract"), len(code))
				}
				if b.res[i] == "ok" && j > 0 {
					prev := must(be.GetCode(b.built[i].made, rpc.BlockNumberOrHashWithNumber(rpc.BlockNumber(b.h-1))))
					r.eq(what("code before the creation"), 0, len(prev))
				}
			}
		}
	}
	if last || j == 0 {
		v.asked(r, j, last)
	}
	r.count("viewed")
}

// asked: a client of the service is given the same answers
func (v *views) asked(r *rep, j int, last bool) {
	e := v.idxEnv
	be, b := e.be, e.blocks[j]
	num := rpc.BlockNumber(b.h)
	at := rpc.BlockNumberOrHashWithNumber(num)
	n, idx := hexutil.EncodeUint64(uint64(b.h)), func(p int) string { return hexutil.EncodeUint64(uint64(p)) }
	same := func(want any, method string, args ...any) {
		var got json.RawMessage
		if err := v.client.Call(&got, method, args...); err != nil {
			r.differ("block %d: %s %v: %v", j+1, method, args, err)
			return
		}
		var x, y any
		if json.Unmarshal(got, &x) != nil || json.Unmarshal(must(json.Marshal(want)), &y) != nil {
			panic("not JSON: " + method)
		}
		r.res.Checks++
		if !reflect.DeepEqual(x, y) {
			r.differ("block %d: %s %v: specification %v, code %v", j+1, method, args, y, x)
		}
	}
	if last {
		same(n, "eth_blockNumber")
		same((*hexutil.Big)(ethChainID()), "eth_chainId")
	}
	for _, full := range []bool{false, true} {
		m := must(be.GetBlockByNumber(num, full))
		same(m, "eth_getBlockByNumber", n, full)
		same(m, "eth_getBlockByHash", b.hash, full)
		if last {
			same(m, "eth_getBlockByNumber", "latest", full)
		}
	}
	same(idx(len(b.eth())), "eth_getBlockTransactionCountByNumber", n)
	same(idx(len(b.eth())), "eth_getBlockTransactionCountByHash", b.hash)
	same(must(be.GetBlockReceipts(context.Background(), at)), "eth_getBlockReceipts", n)
	for p, i := range b.eth() {
		h := b.built[i].eth.Hash()
		tx := must(be.GetTransactionByHash(h))
		same(tx, "eth_getTransactionByHash", h)
		same(tx, "eth_getTransactionByBlockNumberAndIndex", n, idx(p))
		same(tx, "eth_getTransactionByBlockHashAndIndex", b.hash, idx(p))
		if last {
			same(tx, "eth_getTransactionByBlockNumberAndIndex", "latest", idx(p))
		}
		same(must(be.GetTransactionReceipt(h)), "eth_getTransactionReceipt", h)
		raw := hexutil.Bytes(must(b.built[i].eth.MarshalBinary()))
		same(raw, "eth_getRawTransactionByHash", h)
		same(raw, "eth_getRawTransactionByBlockHashAndIndex", b.hash, idx(p))
		ch := hexutil.Encode(comettypes.Tx(b.built[i].bytes).Hash())[2:]
		var got string
		if err := v.client.Call(&got, "cosmos_cosmosTxHashByTxHash", h); err != nil || !strings.EqualFold(got, ch) {
			r.differ("block %d: the hash of %s as a transaction of the chain: specification %s, code %s, %v", j+1, h, ch, got, err)
		}
		same(h, "cosmos_txHashByCosmosTxHash", ch)
	}
	for _, bn := range []any{n, map[string]any{"blockHash": b.hash}} {
		same(must(be.GetBalance(e.a, at)), "eth_getBalance", e.a, bn)
		same(must(be.GetStorageAt(e.a, common.BigToHash(big.NewInt(1)), at)), "eth_getStorageAt", e.a, []string{"0x1", common.BigToHash(big.NewInt(1)).Hex()}[j%2], bn)
		same(must(be.GetCode(e.a, at)), "eth_getCode", e.a, bn)
		same(must(be.GetTransactionCount(e.keys["U1"].evm(), at)), "eth_getTransactionCount", e.keys["U1"].evm(), bn)
	}
}

func ptr[T any](x T) *T { return &x }

func (v *views) logAt(r *rep, l *coretypes.Log, b *xBlock, p, k, before int) {
	r.eq("log's block hash", b.hash, l.BlockHash)
	r.eq("log's block", b.h, l.BlockNumber)
	r.eq("log's transaction", b.built[b.eth()[p]].eth.Hash(), l.TxHash)
	r.eq("log's position of the transaction", p, l.TxIndex)
	v.logPlace(r, l, k, before)
}

func (v *views) crit(by string, ts [][]int) (c ethfilters.FilterCriteria) {
	switch by {
	case "A":
		c.Addresses = []common.Address{v.a}
	case "TOKEN":
		c.Addresses = []common.Address{v.token}
	case "both":
		c.Addresses = []common.Address{v.token, v.a}
	}
	for _, t := range ts {
		c.Topics = append(c.Topics, hashesOf(t))
	}
	return
}

func (v *views) found(r *rep, what string, want []xLog, got []*coretypes.Log) {
	r.res.Checks++
	var ws, gs []string
	for _, l := range want {
		ws = append(ws, fmt.Sprintf("%d.%d:%d", l.H, l.P, l.T))
	}
	for _, l := range got {
		t := new(big.Int).SetBytes(l.Data)
		if len(l.Topics) > 0 && l.Topics[0] == transferTopic {
			t = new(big.Int)
		}
		gs = append(gs, fmt.Sprintf("%d.%d:%d", int64(l.BlockNumber)-v.h0, l.TxIndex, t))
	}
	if fmt.Sprint(ws) != fmt.Sprint(gs) {
		r.differ("%s: specification %v, code %v", what, ws, gs)
	}
	for i, l := range want {
		b := v.blocks[l.H-1]
		before := 0
		for _, x := range b.eth()[:l.P] {
			before += len(v.logsOf(b, x))
		}
		v.logAt(r, got[i], b, l.P, l.I, before)
	}
}

func (v *views) query(r *rep, st *xStep) {
	c := v.crit(st.By, st.Ts)
	c.FromBlock, c.ToBlock = big.NewInt(v.h0+int64(st.Lo)), big.NewInt(v.h0+int64(st.Hi))
	v.found(r, fmt.Sprintf("logs of %s with %v in blocks %d to %d", st.By, st.Ts, st.Lo, st.Hi), st.Found, must(v.api.GetLogs(context.Background(), c)))
	var ls []*coretypes.Log
	if err := v.client.Call(&ls, "eth_getLogs", wire(c)); err != nil {
		panic(err)
	}
	v.found(r, fmt.Sprintf("logs of %s with %v in blocks %d to %d, for a client", st.By, st.Ts, st.Lo, st.Hi), st.Found, ls)
	if st.Hi == len(v.blocks) {
		c.ToBlock = nil
		v.found(r, fmt.Sprintf("logs of %s with %v from block %d", st.By, st.Ts, st.Lo), st.Found, must(v.api.GetLogs(context.Background(), c)))
	}
	if st.Hi == st.Lo {
		c.FromBlock, c.ToBlock, c.BlockHash = nil, nil, &v.blocks[st.Lo-1].hash
		v.found(r, fmt.Sprintf("logs of %s with %v in a block by hash", st.By, st.Ts), st.Found, must(v.api.GetLogs(context.Background(), c)))
	}
}

// ask: eth_call and eth_estimateGas
func (v *views) ask(r *rep, st *xStep) {
	e := v.idxEnv
	s := (&script{}).sload(st.Key).sstore(st.Key, st.V).sload(st.Key).balance(e.a).raw(psCALLER)
	if st.How == "revert" {
		s.revert()
	}
	args := rpctypes.TransactionArgs{To: &e.a}
	var from common.Address
	switch st.From {
	case "zero": // no sender given
	case "nobody":
		from = common.HexToAddress("0x00000000000000000000000000000000abcdef01")
		args.From = &from
	default:
		from = e.keys[st.From].evm()
		args.From = &from
	}
	data := s.b
	if st.K == "create" || st.K == "gascreate" {
		args.To = nil
		data = puppetInit(s.b)
	}
	in := hexutil.Bytes(data)
	if st.V%2 == 0 {
		args.Input = &in
	} else {
		args.Data = &in
	}
	if st.Val > 0 || st.Key == 1 {
		args.Value = (*hexutil.Big)(big.NewInt(st.Val))
	}
	b := v.blocks[st.H-1]
	bn := rpc.BlockNumberOrHashWithNumber(rpc.BlockNumber(b.h))
	if st.Key == 2 {
		bn = rpc.BlockNumberOrHashWithHash(b.hash, false)
	}
	at := &bn
	if st.H == len(v.blocks) && st.Key != 1 {
		at = nil
	}
	what := fmt.Sprintf("%s of %s with value %d at block %d", st.K, st.From, st.Val, st.H)
	var out hexutil.Bytes
	var gas hexutil.Uint64
	var err error
	if st.K == "gas" || st.K == "gascreate" {
		gas, err = e.be.EstimateGas(args, at, nil)
	} else {
		out, err = e.be.Call(args, at, nil, nil)
	}
	r.eq(fmt.Sprintf("%s (%v)", what, err), st.Ok, err == nil)
	r.count(fmt.Sprintf("ask.%s.%v", st.K, st.Ok))
	if st.Ok {
		switch st.K {
		case "call":
			was := topicOf(st.Sees.Was)
			if st.Sees.Was == 0 {
				was = v.cell0[st.Key]
			}
			want := append(was.Bytes(), w(st.Sees.Now)...)
			want = append(want, w(new(big.Int).Add(v.bal0, big.NewInt(st.Sees.Bal)))...)
			want = append(want, w(from)...)
			r.eq(what, hexutil.Encode(want), out.String())
		case "create":
			r.eq(what+": code", hexutil.Encode(puppetRuntime()), out.String())
		default:
			// all of it at least, and a call costs 21000
			if gas < 21000 {
				r.differ("%s: %d", what, gas)
			}
		}
	}
	// nothing has happened
	post := v.blocks[len(v.blocks)-1].post
	r.eq(what+": balance of the contract afterwards", post.Bal, new(big.Int).Sub(must(e.be.GetBalance(e.a, latest())).ToInt(), v.bal0))
	now := topicOf(int(post.Cell[fmt.Sprint(st.Key)]))
	if post.Cell[fmt.Sprint(st.Key)] == 0 {
		now = v.cell0[st.Key]
	}
	r.eq(what+": cell afterwards", now, common.BytesToHash(must(e.be.GetStorageAt(e.a, common.BigToHash(big.NewInt(int64(st.Key))), latest()))))
}

// wire is the criterion as a client writes it
func wire(c ethfilters.FilterCriteria) map[string]any {
	m := map[string]any{}
	if len(c.Addresses) == 1 {
		m["address"] = c.Addresses[0]
	} else if len(c.Addresses) > 1 {
		m["address"] = c.Addresses
	}
	ts := []any{}
	for _, t := range c.Topics {
		switch len(t) {
		case 0:
			ts = append(ts, nil)
		case 1:
			ts = append(ts, t[0])
		default:
			ts = append(ts, t)
		}
	}
	if len(ts) > 0 {
		m["topics"] = ts
	}
	if c.FromBlock != nil {
		m["fromBlock"] = (*hexutil.Big)(c.FromBlock)
	}
	if c.ToBlock != nil {
		m["toBlock"] = (*hexutil.Big)(c.ToBlock)
	}
	if c.BlockHash != nil {
		m["blockHash"] = c.BlockHash
	}
	return m
}

func (v *views) watch(r *rep, st *xStep) {
	c := v.crit(st.By, st.Ts)
	if st.Lo > 0 {
		c.FromBlock = big.NewInt(v.h0 + int64(st.Lo))
	}
	if st.Hi > 0 {
		c.ToBlock = big.NewInt(v.h0 + int64(st.Hi))
	}
	v.logs = must(v.api.NewFilter(c))
	v.heads = must(v.api.NewBlockFilter())
	v.polled = len(v.blocks)
	v.logCh, v.headCh = make(chan *coretypes.Log, 10000), make(chan *coretypes.Header, 1000)
	v.subs = []*rpc.ClientSubscription{
		must(v.client.EthSubscribe(context.Background(), v.logCh, "logs", wire(c))),
		must(v.client.EthSubscribe(context.Background(), v.headCh, "newHeads")),
	}
}

func (v *views) poll(r *rep, st *xStep) {
	var logs []*coretypes.Log
	var heads []common.Hash
	until := time.Now().Add(10 * time.Second)
	for {
		logs = append(logs, must(v.api.GetFilterChanges(v.logs)).([]*coretypes.Log)...)
		heads = append(heads, must(v.api.GetFilterChanges(v.heads)).([]common.Hash)...)
		if (len(heads) >= len(v.blocks)-v.polled && len(logs) >= len(st.Found)) || time.Now().After(until) {
			break
		}
		time.Sleep(2 * time.Millisecond)
	}
	var want []common.Hash
	for _, b := range v.blocks[v.polled:] {
		want = append(want, b.hash)
	}
	r.eq("new blocks", want, heads)
	v.found(r, fmt.Sprintf("new logs in blocks %d to %d", st.Lo, st.Hi), st.Found, logs)
	logs, heads = nil, nil
	for len(heads) < len(want) || len(logs) < len(st.Found) {
		select {
		case l := <-v.logCh:
			logs = append(logs, l)
			continue
		case h := <-v.headCh:
			heads = append(heads, h.Hash())
			continue
		case err := <-v.subs[0].Err():
			r.differ("the subscription ended: %v", err)
		case <-time.After(10 * time.Second):
		}
		break
	}
	for len(v.logCh) > 0 {
		logs = append(logs, <-v.logCh)
	}
	r.eq("announced blocks", want, heads)
	v.found(r, fmt.Sprintf("announced logs in blocks %d to %d", st.Lo, st.Hi), st.Found, logs)
	v.polled = len(v.blocks)
}

func (v *views) all(r *rep, st *xStep) {
	v.found(r, fmt.Sprintf("all logs of the filter in blocks %d to %d", st.Lo, st.Hi), st.Found, must(v.api.GetFilterLogs(context.Background(), v.logs)))
}

func (v *views) done(r *rep, quiet bool) {
	for _, s := range v.subs {
		s.Unsubscribe()
	}
	if quiet && len(v.subs) > 0 && v.polled == len(v.blocks) && len(v.logCh)+len(v.headCh) > 0 {
		r.differ("more is announced than there is: %d logs, %d blocks", len(v.logCh), len(v.headCh))
	}
	if v.logs != "" {
		r.eq("the filter is removed", true, v.api.UninstallFilter(v.logs))
		r.eq("the filter is removed", true, v.api.UninstallFilter(v.heads))
		r.eq("the filter is removed twice", false, v.api.UninstallFilter(v.logs))
		if x, err := v.api.GetFilterChanges(v.logs); err == nil {
			r.differ("a removed filter answers %v", x)
		}
	}
}
