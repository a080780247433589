package zzverif

// Driver for spec/FeeView.tla: what the JSON-RPC interface says about fees.

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"testing"

	"cosmossdk.io/log"
	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	ethmath "github.com/ethereum/go-ethereum/common/math"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/rpc"
	"github.com/holiman/uint256"

	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"

	"github.com/initia-labs/minievm/jsonrpc/backend"
	rpcconfig "github.com/initia-labs/minievm/jsonrpc/config"
	ethapi "github.com/initia-labs/minievm/jsonrpc/namespaces/eth"
	rpctypes "github.com/initia-labs/minievm/jsonrpc/types"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

type fvOffer struct {
	U   string `json:"u"`
	T   string `json:"t"`
	Cap int64  `json:"cap"`
	Tip int64  `json:"tip"`
	Bad bool   `json:"bad"`
}

type fvStep struct {
	A      string     `json:"a"`
	Ok     bool       `json:"ok"`
	Den    string     `json:"den"`
	Price  fn[int64]  `json:"price"`
	Base   amounts    `json:"base"`
	Txs    []fvOffer  `json:"txs"`
	Wei    amount     `json:"wei"`
	K      uint64     `json:"k"`
	Asked  uint64     `json:"asked"`
	L      int64      `json:"l"`
	Ps     []float64  `json:"ps"`
	First  int64      `json:"first"`
	Reward [][]amount `json:"reward"`
	U      string     `json:"u"`
	H      int64      `json:"h"`
	Dec    int64      `json:"dec"`
	Part   string     `json:"part"`
}

// amounts: one, or some
type amounts []amount

func (a *amounts) UnmarshalJSON(b []byte) error {
	if b[0] == '[' {
		return json.Unmarshal(b, (*[]amount)(a))
	}
	var x amount
	err := json.Unmarshal(b, &x)
	*a = amounts{x}
	return err
}

const (
	fvGas        = 2_000_000
	fvCapBlocks  = 4 // as in the specification
	fvCapHeaders = 7
)

type fvEnv struct {
	t   *testing.T
	opt chainOpt
	c   *chain
	n   int
	a   common.Address // tells the base fee and the price of gas
	den map[string]string
	dec map[string]int64
	be  *backend.JSONRPCBackend
	eth *ethapi.EthAPI
	// per behaviour
	fee    string
	h0     int64 // the height of the first block
	keys   map[string]key
	had    []map[string]map[string]math.Int // per block, user and coin
	nonces map[string]uint64                // of the pool
}

func fvSetup(t *testing.T) any { return &fvEnv{t: t} }

func (e *fvEnv) fresh() {
	if e.c != nil {
		closeCaches(e.c.app)
	}
	e.opt = chainOpt{appOpts: idxOptions()}
	e.c = newChainOn(e.t, &e.opt)
	c, f := e.c, e.c.faucet
	// given nothing: BASEFEE and GASPRICE in two words; otherwise it turns around
	// until most of the gas is used, to make all transactions use about the same
	code := newAsm().op(0x36).pushLabel("turn").op(opJUMPI).op(0x48).push(0).op(opMSTORE).op(0x3a).push(32).op(opMSTORE).push(64).push(0).op(opRETURN).
		label("turn").push(16384).push(0).op(0x20, opPOP).push(60_000).op(0x5a, 0x10).pushLabel("end").op(opJUMPI).pushLabel("turn").op(opJUMP).label("end").push(2).op(opCALLDATASIZE, opEQ).pushLabel("bad").op(opJUMPI).op(opSTOP).label("bad").push(0).push(0).op(opREVERT).bytes()
	init := newAsm().push(len(code)).pushLabel("code").push(0).op(opCODECOPY).push(len(code)).push(0).op(opRETURN).mark("code").op(code...).bytes()
	e.a = crypto.CreateAddress(f.evm(), c.seq(f.acc()))
	c.run(f, &evmtypes.MsgCreate{Sender: f.acc().String(), Code: hexutil.Encode(init), Value: math.ZeroInt()})
	factory := must(c.app.EVMKeeper.GetERC20FactoryAddr(c.ctx()))
	e.den, e.dec = map[string]string{"D18": "stake"}, map[string]int64{"D0": 0, "D6": 6, "D18": 18}
	for _, d := range []uint8{0, 6} {
		in := pack(factoryABI, "createERC20", fmt.Sprint("fee", d), "fee", d)
		ret, _, err := c.app.EVMKeeper.EVMCall(c.ctx(), f.evm(), factory, in, uint256.NewInt(0), nil)
		if err != nil {
			panic(err)
		}
		tok := common.BytesToAddress(ret)
		c.run(f, &evmtypes.MsgCall{Sender: f.acc().String(), ContractAddr: factory.Hex(), Input: hexutil.Encode(in), Value: math.ZeroInt()})
		c.run(f, &evmtypes.MsgCall{Sender: f.acc().String(), ContractAddr: tok.Hex(), Input: hexutil.Encode(pack(erc20ABI, "mint", f.evm(), pow10(60))), Value: math.ZeroInt()})
		e.den[fmt.Sprint("D", d)] = "evm/" + strings.TrimPrefix(tok.Hex(), "0x")
	}
	cfg := rpcconfig.DefaultJSONRPCConfig()
	cfg.FeeHistoryMaxBlocks, cfg.FeeHistoryMaxHeaders = fvCapBlocks, fvCapHeaders
	e.be = newBackendWith(c, &node{height: func() int64 { return c.height }}, cfg)
	e.eth = ethapi.NewEthAPI(log.NewNopLogger(), e.be)
}

// send executes a block of transactions and waits until it is told of.
func (e *fvEnv) send(txs ...[]byte) []*abci.ExecTxResult {
	r := e.c.block(txs).TxResults
	l := map[string]map[string]math.Int{}
	for u, k := range e.keys {
		l[u] = map[string]math.Int{}
		for d, n := range e.den {
			l[u][d] = e.c.balance(k.acc(), n)
		}
	}
	e.had = append(e.had, l)
	e.nonces = map[string]uint64{}
	return r
}

// change sets the fee coin and the least prices in a block.
func (e *fvEnv) change(den string, price map[string]int64) bool {
	c := e.c
	p := must(c.app.EVMKeeper.Params.Get(c.ctx()))
	p.GasRefundRatio = math.LegacyZeroDec()
	p.FeeDenom = e.den[den]
	op := must(c.app.OPChildKeeper.GetParams(c.ctx()))
	g := sdk.DecCoins{}
	for d, m := range price {
		if m > 0 {
			g = append(g, sdk.NewDecCoinFromDec(e.den[d], math.LegacyNewDecWithPrec(m, 3)))
		}
	}
	op.MinGasPrices = g.Sort()
	gov := c.app.EVMKeeper.GetAuthority()
	m := must(opchildtypes.NewMsgExecuteMessages(c.admin.acc().String(), []sdk.Msg{
		&evmtypes.MsgUpdateParams{Authority: gov, Params: p}, &opchildtypes.MsgUpdateParams{Authority: gov, Params: &op},
	}))
	b := c.sign(cosTx{msgs: []sdk.Msg{m}, signers: []key{c.admin}, seqs: []uint64{c.seq(c.admin.acc())}, gas: 100_000_000})
	r := e.send(c.encode(b.GetTx()))
	if r[0].Code != 0 {
		panic("change: " + r[0].Log)
	}
	e.fee = den
	return true
}

// milli: thousandths of a unit of the fee coin, in Ethereum's unit
func (e *fvEnv) milli(m int64) *big.Int {
	x := new(big.Int).Mul(big.NewInt(m), pow10(18))
	x.Div(x, pow10(3))
	return x.Div(x, pow10(e.dec[e.fee]))
}

func (e *fvEnv) tx(bad bool, u, t string, nonce uint64, cap, tip *big.Int) []byte {
	id := ethChainID()
	data := []byte{1}
	if bad {
		data = []byte{1, 1}
	}
	var td coretypes.TxData = &coretypes.LegacyTx{Nonce: nonce, GasPrice: cap, Gas: fvGas, To: &e.a, Value: new(big.Int), Data: data}
	switch t {
	case "acl":
		td = &coretypes.AccessListTx{ChainID: id, Nonce: nonce, GasPrice: cap, Gas: fvGas, To: &e.a, Value: new(big.Int), Data: data}
	case "dyn":
		td = &coretypes.DynamicFeeTx{ChainID: id, Nonce: nonce, GasFeeCap: cap, GasTipCap: tip, Gas: fvGas, To: &e.a, Value: new(big.Int), Data: data}
	}
	c := e.c
	return c.encode(must(evmkeeper.NewTxUtils(c.app.EVMKeeper).ConvertEthereumTxToCosmosTx(c.ctx(), c.signEth(e.keys[u], id, td))))
}

func (e *fvEnv) start() {
	c := e.c
	e.n++
	e.had = nil
	e.keys = map[string]key{}
	coins := sdk.Coins{}
	for _, d := range e.den {
		x := pow10(30)
		if d == "stake" {
			x = pow10(15)
		}
		coins = coins.Add(sdk.NewCoin(d, math.NewIntFromBigInt(x)))
	}
	e.change("D18", nil)
	var msgs []sdk.Msg
	for _, n := range []string{"U1", "U2", "S"} {
		e.keys[n] = keyOf(fmt.Sprint("feeview", e.n, n))
		msgs = append(msgs, &banktypes.MsgSend{FromAddress: c.faucet.acc().String(), ToAddress: e.keys[n].acc().String(), Amount: coins})
	}
	c.run(c.faucet, msgs...)
	for _, k := range e.keys { // their keys become known
		c.run(k, &banktypes.MsgSend{FromAddress: k.acc().String(), ToAddress: k.acc().String(), Amount: sdk.NewCoins(sdk.NewInt64Coin("stake", 1))})
	}
	e.had = nil
	e.send() // the first block of the specification
	e.h0 = c.height
}

func bigs(l []*hexutil.Big) (s []string) {
	for _, x := range l {
		s = append(s, x.ToInt().String())
	}
	return
}

func fvRun(t *testing.T, s any, line []byte, r *rep) {
	e := s.(*fvEnv)
	if e.n%150 == 0 {
		e.fresh()
	}
	e.start()
	var steps []fvStep
	if err := json.Unmarshal(line, &steps); err != nil {
		panic(err)
	}
	for i := range steps {
		r.step = i
		r.res.Steps++
		e.step(r, &steps[i])
	}
}

func (e *fvEnv) at(h int64) rpc.BlockNumber { return rpc.BlockNumber(e.h0 + h - 1) }

func (e *fvEnv) step(r *rep, st *fvStep) {
	c := e.c
	r.count(fmt.Sprintf("%s.%v", st.A, st.Ok))
	switch st.A {
	case "change":
		r.eq("change", st.Ok, e.change(st.Den, st.Price))
		e.base(r, st.Base[0].big())
	case "block":
		var txs [][]byte
		seq := map[string]uint64{}
		for u, k := range e.keys {
			seq[u] = c.seq(k.acc())
		}
		for _, x := range st.Txs {
			txs = append(txs, e.tx(x.Bad, x.U, x.T, seq[x.U], e.milli(x.Cap), e.milli(x.Tip)))
			seq[x.U]++
			r.count("tx." + x.T)
		}
		was := map[string]math.Int{}
		for u := range e.keys {
			was[u] = c.balance(e.keys[u].acc(), e.den[e.fee])
		}
		res := e.send(txs...)
		for i, x := range res {
			r.eq(fmt.Sprintf("transaction %+v (%s)", st.Txs[i], x.Log), !st.Txs[i].Bad, x.Code == 0)
			r.count(fmt.Sprint("bad.", st.Txs[i].Bad))
		}
		r.count(fmt.Sprint("txs.", len(txs)))
		// each pays what it offers, and one for what is lost in rounding
		for u := range e.keys {
			cost := new(big.Int)
			for _, x := range st.Txs {
				if x.U == u {
					f := new(big.Int).Mul(big.NewInt(x.Cap), big.NewInt(fvGas/1000))
					cost.Add(cost, f)
					if x.Cap > 0 {
						cost.Add(cost, big.NewInt(1))
					}
				}
			}
			r.eq("fees of "+u, was[u].Sub(math.NewIntFromBigInt(cost)), c.balance(e.keys[u].acc(), e.den[e.fee]))
		}
		e.base(r, st.Base[0].big())
	case "price":
		p, err := e.eth.GasPrice()
		r.eq(fmt.Sprintf("gas price (%v)", err), st.Ok, err == nil)
		r.eq("gas price", st.Wei.big(), p.ToInt())
		tip, err := e.eth.MaxPriorityFeePerGas()
		r.eq(fmt.Sprintf("tip (%v)", err), st.Ok, err == nil)
		r.eq("tip", 0, tip.ToInt())
	case "history":
		e.history(r, st)
	case "balance":
		var b *hexutil.Big
		var err error
		if st.H == int64(len(e.had)) {
			b, err = e.eth.GetBalance(e.keys[st.U].evm(), latest())
		} else {
			b, err = e.eth.GetBalance(e.keys[st.U].evm(), rpc.BlockNumberOrHashWithNumber(e.at(st.H)))
		}
		r.eq(fmt.Sprintf("balance (%v)", err), st.Ok, err == nil)
		want := new(big.Int).Mul(e.had[st.H-1][st.U][st.Den].BigInt(), pow10(18-st.Dec))
		r.eq(fmt.Sprintf("balance of %s at %d in %s", st.U, st.H, st.Den), want, b.ToInt())
		if st.Den != e.fee {
			r.count("balance.formerly")
		}
		e.contract(r, st.H, st.Base[0].big())
	case "submit":
		n, ok := e.nonces["S"]
		if !ok {
			n = c.seq(e.keys["S"].acc())
		}
		t := []string{"dyn", "legacy", "acl"}[n%3]
		res := must(c.app.CheckTx(&abci.RequestCheckTx{Tx: e.tx(false, "S", t, n, st.Wei.big(), new(big.Int)), Type: abci.CheckTxType_New}))
		r.eq(fmt.Sprintf("submission of %s at %s (%s)", t, st.Wei.big(), res.Log), st.Ok, res.Code == 0)
		r.count("submit." + st.Part)
		if res.Code == 0 {
			e.nonces["S"] = n + 1
		}
	default:
		panic(st.A)
	}
}

// base: the base fee of the last block
func (e *fvEnv) base(r *rep, want *big.Int) {
	e.contract(r, int64(len(e.had)), want)
	b, err := e.eth.GetBlockByNumber(rpc.LatestBlockNumber, false)
	if err != nil {
		panic(err)
	}
	r.eq("base fee in the block", hexutil.EncodeBig(want), asMap(b)["baseFeePerGas"])
	if want.Sign() > 0 {
		r.count("base")
	}
}

// contract: what a contract sees at a block
func (e *fvEnv) contract(r *rep, h int64, want *big.Int) {
	bn := rpc.BlockNumberOrHashWithNumber(e.at(h))
	out, err := e.eth.Call(rpctypes.TransactionArgs{To: &e.a}, &bn, nil, nil)
	if err != nil {
		panic(err)
	}
	r.eq(fmt.Sprintf("base fee that a contract sees at %d", h), want, new(big.Int).SetBytes(out[:32]))
}

func (e *fvEnv) history(r *rep, st *fvStep) {
	l := rpc.LatestBlockNumber
	if st.L > 0 {
		l = e.at(st.L)
	}
	h, err := e.eth.FeeHistory(ethmath.HexOrDecimal64(st.Asked), l, st.Ps)
	what := fmt.Sprintf("history of %d blocks up to %d, %v", st.Asked, st.L, st.Ps)
	r.eq(fmt.Sprintf("%s (%v)", what, err), st.Ok, err == nil)
	if !st.Ok {
		return
	}
	r.count("history." + fmt.Sprint(st.K))
	if st.K == 0 {
		r.eq(what+": base fees", 0, len(h.BaseFee))
		return
	}
	r.eq(what+": first", e.h0+st.First-1, h.OldestBlock.ToInt())
	var want []string
	for _, x := range st.Base {
		want = append(want, x.big().String())
	}
	r.eq(what+": base fees", want, bigs(h.BaseFee))
	r.eq(what+": shares", st.K, len(h.GasUsedRatio))
	for i, g := range h.GasUsedRatio {
		hd := must(e.be.GetHeaderByNumber(e.at(st.First + int64(i))))
		r.eq(what+": share of the gas used", float64(hd.GasUsed)/float64(hd.GasLimit), g)
		if g < 0 || g > 1 {
			r.differ("%s: share %v", what, g)
		}
	}
	r.eq(what+": rewards", len(st.Reward), len(h.Reward))
	for i, x := range st.Reward {
		var w []string
		for _, a := range x {
			w = append(w, a.big().String())
			if a.M > 0 {
				r.count("reward")
			}
		}
		r.eq(fmt.Sprintf("%s: rewards of block %d", what, st.First+int64(i)), w, bigs(h.Reward[i]))
	}
}

func init() { families["feeview"] = family{fvSetup, fvRun} }
