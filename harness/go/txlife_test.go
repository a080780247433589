package zzverif

// Driver for spec/TxLifecycle.tla: whole blocks of signed transactions.

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	"cosmossdk.io/x/feegrant"
	abci "github.com/cometbft/cometbft/abci/types"
	"github.com/cosmos/cosmos-sdk/client"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"

	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"

	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

type tMsg struct {
	M    string `json:"m"`
	From string `json:"from"`
	How  string `json:"how"`
	K    int    `json:"k"`
	V    int    `json:"v"`
	Val  int64  `json:"val"`
	Up   bool   `json:"up"`
}

type tTx struct {
	K       string `json:"k"`
	From    string `json:"from"`
	T       string `json:"t"`
	Off     int    `json:"off"`
	GL      uint64 `json:"gl"`
	Price   int64  `json:"price"`
	Granter bool   `json:"granter"`
	Msgs    []tMsg `json:"msgs"`
	Mut     string `json:"mut"`
	SG      []int  `json:"sg"`
}

type tBlock struct {
	Checks []struct {
		Tx   tTx       `json:"tx"`
		Seqs fn[int64] `json:"seqs"`
		OK   bool      `json:"ok"`
	} `json:"checks"`
	Txs []struct {
		Tx   tTx       `json:"tx"`
		ID   int       `json:"id"`
		Seqs fn[int64] `json:"seqs"`
		R    string    `json:"r"`
		OK   bool      `json:"ok"`
	} `json:"txs"`
	Ratio  int64 `json:"ratio"`
	Export bool  `json:"export"`
	Post   struct {
		Seq  fn[int]   `json:"seq"`
		Bal  fn[int64] `json:"bal"`
		Refs fn[[]int] `json:"refs"`
		Stor fn[int]   `json:"stor"`
		ABal int64     `json:"abal"`
		Made []struct {
			By   string `json:"by"`
			N    uint64 `json:"n"`
			Salt uint64 `json:"salt"`
			Val  int64  `json:"val"`
		} `json:"made"`
		Fees int64 `json:"fees"`
	} `json:"post"`
}

const richCoins = 100_000_000

type txlifeEnv struct {
	c     *chain
	n     int
	ratio int64
	seq0  map[string]int64
	keys  map[string]key
	a     common.Address
	fc0   math.Int
	init  []byte
	quiet map[string]bool // keys written by a block without transactions
	stake common.Address
}

func txlifeSetup(t *testing.T) any {
	e := &txlifeEnv{c: newChain(t, chainOpt{minGas: 1}), ratio: -1, init: puppetInit(nil)}
	e.stake = must(evmtypes.DenomToContractAddr(e.c.ctx(), e.c.app.EVMKeeper, "stake"))
	// the fee collector is known to the fee token
	b := e.c.sign(cosTx{msgs: []sdk.Msg{&banktypes.MsgSend{FromAddress: e.c.faucet.acc().String(), ToAddress: e.c.faucet.acc().String(), Amount: sdk.NewCoins(sdk.NewInt64Coin("stake", 1))}},
		signers: []key{e.c.faucet}, seqs: []uint64{e.c.seq(e.c.faucet.acc())}, gas: 1_000_000, fee: sdk.NewCoins(sdk.NewInt64Coin("stake", 5))})
	if r := e.c.block([][]byte{e.c.encode(b.GetTx())}).TxResults[0]; r.Code != 0 {
		panic(r.Log)
	}
	cms := e.listen()
	e.quiet = map[string]bool{}
	for i := 0; i < 3; i++ {
		e.c.block(nil)
		for _, p := range cms.PopStateCache() {
			e.quiet[quietKey(p)] = true
		}
	}
	return e
}

// listen records what is written to the stores.
func (e *txlifeEnv) listen() storetypes.CommitMultiStore {
	cms := e.c.app.CommitMultiStore()
	var ks []storetypes.StoreKey
	for _, k := range e.c.app.GetKVStoreKey() {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].Name() < ks[j].Name() })
	cms.AddListeners(ks)
	return cms
}

// quietKey identifies what a block writes by itself; keys which end in a height
// are known by their prefix.
func quietKey(p *storetypes.StoreKVPair) string {
	k := p.Key
	if len(k) > 8 {
		k = k[:len(k)-8]
	} else if len(k) > 1 {
		k = k[:1]
	}
	return fmt.Sprintf("%s/%x", p.StoreKey, k)
}

// start funds fresh accounts and deploys the contract of one behaviour.
func (e *txlifeEnv) start(ratio int64) {
	c := e.c
	e.n++
	e.keys = map[string]key{}
	var msgs []sdk.Msg
	for _, n := range []string{"U1", "U2", "LO", "MU", "PO", "G"} {
		e.keys[n] = keyOf(fmt.Sprint("user", e.n, n))
		if n == "LO" {
			e.keys[n] = longKey()
		}
		if n == "MU" {
			e.keys[n] = multiKey(fmt.Sprint("user", e.n, n))
		}
		amt := int64(richCoins)
		coins := sdk.NewCoins(sdk.NewInt64Coin("stake", amt), sdk.NewInt64Coin("zother", amt))
		if n == "PO" {
			coins = sdk.NewCoins(sdk.NewInt64Coin("stake", 1), sdk.NewInt64Coin("zother", amt))
		}
		msgs = append(msgs, &banktypes.MsgSend{FromAddress: c.faucet.acc().String(), ToAddress: e.keys[n].acc().String(), Amount: coins})
	}
	e.a = crypto.CreateAddress(c.faucet.evm(), c.seq(c.faucet.acc()))
	msgs = append(msgs, &evmtypes.MsgCreate{Sender: c.faucet.acc().String(), Code: hexutil.Encode(e.init), Value: math.ZeroInt()})
	c.run(c.faucet, msgs...)
	if got := c.app.EVMKeeper; got == nil || c.app.AccountKeeper.GetAccount(c.ctx(), e.a.Bytes()) == nil {
		panic("contract was not created")
	}
	g := must(feegrant.NewMsgGrantAllowance(&feegrant.BasicAllowance{}, e.keys["G"].acc(), e.keys["U1"].acc()))
	c.run(e.keys["G"], g)
	if e.ratio != ratio {
		p := must(c.app.EVMKeeper.Params.Get(c.ctx()))
		p.GasRefundRatio = math.LegacyNewDecWithPrec(ratio, 2)
		x := must(opchildtypes.NewMsgExecuteMessages(c.admin.acc().String(), []sdk.Msg{&evmtypes.MsgUpdateParams{Authority: c.app.EVMKeeper.GetAuthority(), Params: p}}))
		c.run(c.admin, x)
		e.ratio = ratio
	}
	e.seq0 = map[string]int64{}
	for n, k := range e.keys {
		e.seq0[n] = int64(c.seq(k.acc()))
	}
	e.fc0 = c.balance(authtypes.NewModuleAddress(authtypes.FeeCollectorName), "stake")
}

// body is the call data of a message to A.
func (e *txlifeEnv) body(m *tMsg) []byte {
	s := &script{}
	switch m.How {
	case "ok":
		s.sstore(m.K, m.V)
	case "revert":
		s.sstore(m.K, m.V).revert()
	case "invalid":
		s.sstore(m.K, m.V).invalid()
	case "caught":
		s.call(kCall, false, 0, e.a, 0, (&script{}).sstore(m.K, m.V).revert().b)
	case "heavy":
		for i := 0; i < 175; i++ {
			s.sstore(100+i, m.V+1)
		}
	case "request":
		s.sstore(m.K, m.V)
		s.call(kCall, true, cosmosGas, evmtypes.CosmosPrecompileAddress, 0, pack(cosmosABI, "execute_cosmos", sendJSON(e.a, e.keys["U1"].evm(), "stake", 1_000_000)))
	default:
		panic("how " + m.How)
	}
	return s.b
}

func (e *txlifeEnv) code(m *tMsg) []byte {
	switch m.How {
	case "ok":
		return e.init
	case "revert":
		return puppetInit((&script{}).revert().b)
	case "invalid":
		return puppetInit((&script{}).invalid().b)
	}
	panic("how " + m.How)
}

func spelled(k key, up bool) string {
	if up {
		return strings.ToUpper(k.acc().String())
	}
	return k.acc().String()
}

func (e *txlifeEnv) msg(m *tMsg) sdk.Msg {
	from := spelled(e.keys[m.From], m.Up)
	switch m.M {
	case "call":
		return &evmtypes.MsgCall{Sender: from, ContractAddr: e.a.Hex(), Input: hexutil.Encode(e.body(m)), Value: math.NewInt(m.Val)}
	case "create":
		return &evmtypes.MsgCreate{Sender: from, Code: hexutil.Encode(e.code(m)), Value: math.NewInt(m.Val)}
	case "create2":
		return &evmtypes.MsgCreate2{Sender: from, Code: hexutil.Encode(e.code(m)), Salt: uint64(m.K), Value: math.NewInt(m.Val)}
	case "send":
		return &banktypes.MsgSend{FromAddress: from, ToAddress: e.keys[m.How].acc().String(), Amount: sdk.NewCoins(sdk.NewInt64Coin("stake", m.Val))}
	case "badhex":
		return &evmtypes.MsgCall{Sender: from, ContractAddr: e.a.Hex(), Input: "0xzz", Value: math.ZeroInt()}
	}
	panic("message " + m.M)
}

// build encodes a transaction, altered by a third party if so specified.
func (e *txlifeEnv) build(x *tTx, seqs fn[int64]) []byte {
	if x.K == "cos" {
		return e.buildCosmos(x, seqs)
	}
	c := e.c
	m := &x.Msgs[0]
	k := e.keys[x.From]
	nonce := uint64(e.seq0[x.From] + seqs[x.From])
	var to *common.Address
	data := e.code1(m)
	if m.M == "call" {
		to = &e.a
	}
	price := big.NewInt(x.Price)
	id := ethChainID()
	if x.Mut == "chain" {
		id = new(big.Int).Add(id, big.NewInt(1))
	}
	signNonce := nonce
	if x.Mut == "nonce" {
		signNonce++
	}
	// prices and values are in the unit of the fee token, which has 18 decimals
	al := coretypes.AccessList{{Address: e.a, StorageKeys: []common.Hash{common.BigToHash(big.NewInt(1))}}}
	val := big.NewInt(m.Val)
	var td coretypes.TxData
	switch x.T {
	case "legacy":
		td = &coretypes.LegacyTx{Nonce: signNonce, GasPrice: price, Gas: x.GL, To: to, Value: val, Data: data}
	case "acl":
		td = &coretypes.AccessListTx{ChainID: id, Nonce: signNonce, GasPrice: price, Gas: x.GL, To: to, Value: val, Data: data, AccessList: al}
	case "dyn":
		tip := big.NewInt(0)
		if x.Price > 0 {
			tip = big.NewInt(1)
		}
		td = &coretypes.DynamicFeeTx{ChainID: id, Nonce: signNonce, GasFeeCap: price, GasTipCap: tip, Gas: x.GL, To: to, Value: val, Data: data, AccessList: al}
	}
	if x.Mut == "othermsg" {
		switch y := td.(type) {
		case *coretypes.LegacyTx:
			y.To, y.Data, y.Value = nil, nil, big.NewInt(0)
		case *coretypes.AccessListTx:
			y.To, y.Data, y.Value = nil, nil, big.NewInt(0)
		case *coretypes.DynamicFeeTx:
			y.To, y.Data, y.Value = nil, nil, big.NewInt(0)
		}
	}
	ctx := c.ctx()
	if x.Mut == "chain" {
		ctx = ctx.WithChainID("minimove-8")
	}
	var eth *coretypes.Transaction
	if x.Mut == "chain" {
		id = evmtypes.ConvertCosmosChainIDToEthereumChainID("minimove-8")
		switch y := td.(type) {
		case *coretypes.AccessListTx:
			y.ChainID = id
		case *coretypes.DynamicFeeTx:
			y.ChainID = id
		}
	}
	eth = c.signEth(k, id, td)
	tx, err := c.app.EVMKeeper.TxUtils().ConvertEthereumTxToCosmosTx(ctx, eth)
	if err != nil {
		panic(fmt.Sprintf("conversion: %v", err))
	}
	if x.Mut == "none" && !x.Granter {
		return c.encode(tx)
	}
	b := must(c.txCfg.WrapTxBuilder(tx))
	if x.Granter {
		b.SetFeeGranter(e.keys["G"].acc())
	}
	e.alterEth(x, b, nonce)
	return c.encode(b.GetTx())
}

func (e *txlifeEnv) code1(m *tMsg) []byte {
	if m.M == "create" {
		return e.code(m)
	}
	return e.body(m)
}

func (e *txlifeEnv) alterEth(x *tTx, b client.TxBuilder, nonce uint64) {
	tx := b.GetTx()
	fee := tx.GetFee()
	msg := tx.GetMsgs()[0]
	sigs := must(tx.GetSignaturesV2())
	sig := sigs[0].Data.(*signing.SingleSignatureData)
	var memo map[string]any
	if err := json.Unmarshal([]byte(tx.GetMemo()), &memo); err != nil {
		panic(err)
	}
	setMemo := func() { b.SetMemo(string(must(json.Marshal(memo)))) }
	setMsgs := func(ms ...sdk.Msg) {
		if err := b.SetMsgs(ms...); err != nil {
			panic(err)
		}
	}
	setSig := func() {
		if err := b.SetSignatures(sigs...); err != nil {
			panic(err)
		}
	}
	other := "U1"
	if x.From == "U1" {
		other = "U2"
	}
	call, isCall := msg.(*evmtypes.MsgCall)
	create, _ := msg.(*evmtypes.MsgCreate)
	one := sdk.NewInt64Coin("stake", 1)
	switch x.Mut {
	case "none":
	case "gas":
		b.SetGasLimit(tx.GetGas() + 1)
	case "feeup":
		b.SetFeeAmount(fee.Add(one))
	case "feedown":
		if fee.IsZero() {
			b.SetFeeAmount(fee.Add(one))
		} else {
			b.SetFeeAmount(fee.Sub(one))
		}
	case "feeother":
		b.SetFeeAmount(fee.Add(sdk.NewInt64Coin("zother", 5)))
	case "value":
		if isCall {
			call.Value = call.Value.AddRaw(1)
		} else {
			create.Value = create.Value.AddRaw(1)
		}
		setMsgs(msg)
	case "data":
		if isCall {
			call.Input = hexutil.Encode((&script{}).sstore(x.Msgs[0].K, 9).b)
		} else {
			create.Code = hexutil.Encode(puppetInit((&script{}).log(1).b))
		}
		setMsgs(msg)
	case "aclist":
		al := []evmtypes.AccessTuple{{Address: e.a.Hex(), StorageKeys: []string{common.BigToHash(big.NewInt(2)).Hex()}}}
		if isCall {
			call.AccessList = al
		} else {
			create.AccessList = al
		}
		setMsgs(msg)
	case "nonce":
		sigs[0].Sequence = nonce
		setSig()
	case "cap":
		memo["gas_fee_cap"] = fmt.Sprint(x.Price + 1)
		setMemo()
	case "tip":
		memo["gas_tip_cap"] = fmt.Sprint(7)
		setMemo()
	case "type":
		memo["type"] = map[string]int{"legacy": 1, "acl": 2, "dyn": 1}[x.T]
		setMemo()
	case "sigv":
		sig.Signature[64] ^= 1
		setSig()
	case "sigr":
		sig.Signature[5] ^= 1
		setSig()
	case "malleate":
		s := new(big.Int).SetBytes(sig.Signature[32:64])
		s.Sub(crypto.S256().Params().N, s)
		s.FillBytes(sig.Signature[32:64])
		sig.Signature[64] ^= 1
		setSig()
	case "sender":
		if isCall {
			call.Sender = e.keys[other].acc().String()
		} else {
			create.Sender = e.keys[other].acc().String()
		}
		setMsgs(msg)
	case "pubkey":
		sigs[0].PubKey = e.keys[other].p.PubKey()
		setSig()
	case "chain": // signed for another chain
	case "to":
		call.ContractAddr = e.stake.Hex()
		setMsgs(msg)
	case "kind":
		if isCall {
			setMsgs(&evmtypes.MsgCreate{Sender: call.Sender, Code: call.Input, Value: call.Value, AccessList: call.AccessList})
		} else {
			setMsgs(&evmtypes.MsgCall{Sender: create.Sender, ContractAddr: e.a.Hex(), Input: create.Code, Value: create.Value, AccessList: create.AccessList})
		}
	case "nomemo":
		b.SetMemo("")
	case "extramemo":
		memo["note"] = "x"
		setMemo()
	case "msgs":
		setMsgs(msg, msg)
	case "othermsg":
		setMsgs(&banktypes.MsgSend{FromAddress: e.keys[x.From].acc().String(), ToAddress: e.keys[other].acc().String(), Amount: sdk.NewCoins(sdk.NewInt64Coin("zother", 3))})
	default:
		panic("mutation " + x.Mut)
	}
}

var signModes = map[string]signing.SignMode{
	"direct": signing.SignMode_SIGN_MODE_DIRECT, "amino": signing.SignMode_SIGN_MODE_LEGACY_AMINO_JSON, "eip191": signing.SignMode_SIGN_MODE_EIP_191, //nolint:staticcheck
}

func (e *txlifeEnv) buildCosmos(x *tTx, seqs fn[int64]) []byte {
	y := cosTx{mode: signModes[x.T], members: x.SG, gas: x.GL, fee: sdk.NewCoins(sdk.NewInt64Coin("stake", int64(x.GL)*x.Price))}
	seen := map[string]bool{}
	for i := range x.Msgs {
		m := &x.Msgs[i]
		y.msgs = append(y.msgs, e.msg(m))
		if !seen[m.From] {
			seen[m.From] = true
			y.signers = append(y.signers, e.keys[m.From])
			y.seqs = append(y.seqs, uint64(e.seq0[m.From]+seqs[m.From]))
		}
	}
	if x.Granter {
		y.granter = e.keys["G"].acc()
	}
	switch x.Mut {
	case "chain":
		y.chainID = "minimove-8"
	case "accnum":
		y.accNum = 1
	}
	b := e.c.sign(y)
	tx := b.GetTx()
	switch x.Mut {
	case "fee":
		b.SetFeeAmount(y.fee.Add(sdk.NewInt64Coin("stake", 1)))
	case "gas":
		b.SetGasLimit(y.gas + 1)
	case "memo":
		b.SetMemo("changed")
	case "msg":
		ms := tx.GetMsgs()
		switch m := ms[0].(type) {
		case *evmtypes.MsgCall:
			m.Value = m.Value.AddRaw(1)
		case *evmtypes.MsgCreate:
			m.Value = m.Value.AddRaw(1)
		case *evmtypes.MsgCreate2:
			m.Salt++
		case *banktypes.MsgSend:
			m.Amount = m.Amount.Add(sdk.NewInt64Coin("stake", 1))
		}
		if err := b.SetMsgs(ms...); err != nil {
			panic(err)
		}
	case "sigseq":
		sigs := must(tx.GetSignaturesV2())
		sigs[0].Sequence++
		if err := b.SetSignatures(sigs...); err != nil {
			panic(err)
		}
	case "sigbit", "mode", "who":
		sigs := must(tx.GetSignaturesV2())
		one, _ := sigs[0].Data.(*signing.SingleSignatureData)
		if m, ok := sigs[0].Data.(*signing.MultiSignatureData); ok && x.Mut == "who" {
			// the members before those who signed
			bits := cryptotypes.NewCompactBitArray(3)
			for i := 0; i < 3; i++ {
				bits.SetIndex(i, m.BitArray.GetIndex((i+1)%3))
			}
			m.BitArray = bits
			if len(x.SG) == 3 {
				m.Signatures[0], m.Signatures[1] = m.Signatures[1], m.Signatures[0]
			}
		} else if ok && len(m.Signatures) > 0 {
			one = m.Signatures[len(m.Signatures)-1].(*signing.SingleSignatureData)
		}
		switch {
		case x.Mut == "who" && one != nil:
			sigs[0].PubKey = e.keys[map[bool]string{true: "U2", false: "U1"}[x.Msgs[0].From == "U1"]].pub()
		case x.Mut == "sigbit" && one != nil:
			one.Signature[7] ^= 4
		case x.Mut == "mode" && one != nil:
			if len(x.Msgs) == 1 { // an Ethereum transaction, it says
				one.SignMode = evmkeeper.SignMode_SIGN_MODE_ETHEREUM
				break
			}
			one.SignMode = signModes[map[string]string{"direct": "amino", "amino": "eip191", "eip191": "direct"}[x.T]]
		}
		if err := b.SetSignatures(sigs...); err != nil {
			panic(err)
		}
	}
	return e.c.encode(b.GetTx())
}

func txlifeRun(t *testing.T, s any, line []byte, r *rep) {
	e := s.(*txlifeEnv)
	c := e.c
	var blocks []tBlock
	if err := json.Unmarshal(line, &blocks); err != nil {
		panic(err)
	}
	e.start(blocks[0].Ratio)
	refund := map[int]int64{}
	refunded := int64(0)
	cms := c.app.CommitMultiStore()
	for i := range blocks {
		r.step = i
		r.res.Steps++
		b := &blocks[i]
		for j := range b.Checks {
			x := &b.Checks[j]
			res, err := c.app.CheckTx(&abci.RequestCheckTx{Tx: e.build(&x.Tx, x.Seqs), Type: abci.CheckTxType_New})
			got := err == nil && res.Code == 0
			r.count("check." + fmt.Sprint(x.OK))
			r.res.Checks++
			if got != x.OK {
				l := ""
				if res != nil {
					l = res.Log
				}
				r.differ("admission to the pool of %+v: specification %v, code %v (%v %s)", x.Tx, x.OK, got, err, l)
			}
		}
		var txs [][]byte
		for j := range b.Txs {
			txs = append(txs, e.build(&b.Txs[j].Tx, b.Txs[j].Seqs))
		}
		cms.PopStateCache()
		res := c.block(txs)
		changes := cms.PopStateCache()
		anyOK := false
		for j := range b.Txs {
			x := &b.Txs[j]
			tr := res.TxResults[j]
			r.count(x.Tx.K + "." + x.R)
			if x.Tx.Granter && x.R != "rejected" {
				r.count("granter")
			}
			if x.Tx.Mut != "none" {
				r.count("mut." + x.Tx.Mut)
			} else if x.Tx.K == "cos" {
				r.count("mode." + x.Tx.T)
				if len(x.Tx.SG) > 0 {
					r.count(fmt.Sprintf("members.%d.%s", len(x.Tx.SG), x.R))
				}
			}
			for k := range x.Tx.Msgs {
				r.count("msg." + x.Tx.Msgs[k].M + "." + x.Tx.Msgs[k].How)
			}
			r.res.Checks++
			if (tr.Code == 0) != x.OK || (tr.Code == 0) != (x.R == "ok") {
				r.differ("transaction %d %+v: specification %s, code %d, gas used %d (%s)", x.ID, x.Tx, x.R, tr.Code, tr.GasUsed, tr.Log)
			}
			if x.OK {
				anyOK = true
				left := int64(x.Tx.GL) - tr.GasUsed
				if left < 0 {
					left = 0
				}
				refund[x.ID] = x.Tx.Price * (left * b.Ratio / 100)
				refunded += refundOf(x.Tx.K, refund[x.ID])
			}
		}
		e.compare(r, b, refund, refunded)
		if !anyOK {
			e.quietly(r, b, changes)
		}
		if b.Export {
			r.count("export")
			if err := c.reborn(); err != nil {
				r.differ("export and new start: %v", err)
			}
			cms = e.listen()
			e.compare(r, b, refund, refunded)
		}
	}
}

func refundOf(k string, n int64) int64 {
	if k == "eth" {
		return n
	}
	return 0
}

func (e *txlifeEnv) compare(r *rep, b *tBlock, refund map[int]int64, refunded int64) {
	c := e.c
	p := &b.Post
	ctx := c.ctx()
	for n, want := range p.Seq {
		r.eq("sequence of "+n, e.seq0[n]+int64(want), c.seq(e.keys[n].acc()))
	}
	for n, want := range p.Bal {
		for _, id := range p.Refs[n] {
			want += refund[id]
		}
		r.eq("balance of "+n, want, c.balance(e.keys[n].acc(), "stake"))
		r.eq("other coins of "+n, richCoins, c.balance(e.keys[n].acc(), "zother"))
	}
	r.eq("fee collector", e.fc0.AddRaw(p.Fees-refunded), c.balance(authtypes.NewModuleAddress(authtypes.FeeCollectorName), "stake"))
	r.eq("balance of the contract", p.ABal, c.balance(e.a.Bytes(), "stake"))
	r.eq("hashes of the blocks seen", wantHashes(c.height), c.hashesSeen(ctx))
	q := evmkeeper.NewQueryServer(c.app.EVMKeeper)
	for k, want := range p.Stor {
		n := int(k[0] - '0')
		res := must(q.State(ctx, &evmtypes.QueryStateRequest{ContractAddr: e.a.Hex(), Key: common.BytesToHash(w(n)).Hex()}))
		r.eq("slot "+k, want, common.HexToHash(res.Value).Big())
	}
	res := must(q.State(ctx, &evmtypes.QueryStateRequest{ContractAddr: e.a.Hex(), Key: common.BytesToHash(w(100)).Hex()}))
	r.eq("slot of the heavy call", 0, common.HexToHash(res.Value).Big())
	made := map[common.Address]bool{}
	for _, m := range p.Made {
		by := e.keys[m.By]
		base := uint64(e.seq0[m.By])
		if m.By == "LO" {
			base = 0
		}
		a := crypto.CreateAddress(by.evm(), base+m.N)
		if m.Salt != 0 {
			a = crypto.CreateAddress2(by.evm(), common.BigToHash(new(big.Int).SetUint64(m.Salt)), crypto.Keccak256(e.init))
		}
		made[a] = true
		code := must(q.Code(ctx, &evmtypes.QueryCodeRequest{ContractAddr: a.Hex()}))
		r.eq("code of a created contract", hexutil.Encode(puppetRuntime()), code.Code)
		r.eq("balance of a created contract", m.Val, c.balance(a.Bytes(), "stake"))
	}
	// nothing was created at other addresses
	for n := range p.Seq {
		for i := int64(0); i <= int64(p.Seq[n])+1; i++ {
			base := e.seq0[n]
			if n == "LO" {
				base = 0
			}
			a := crypto.CreateAddress(e.keys[n].evm(), uint64(base+i))
			if !made[a] {
				r.eq(fmt.Sprintf("contract of %s at nonce %d", n, i), false, c.app.AccountKeeper.HasAccount(ctx, a.Bytes()))
			}
		}
		for s := int64(1); s <= 3; s++ {
			a := crypto.CreateAddress2(e.keys[n].evm(), common.BigToHash(big.NewInt(s)), crypto.Keccak256(e.init))
			if !made[a] {
				r.eq(fmt.Sprintf("contract of %s with salt %d", n, s), false, c.app.AccountKeeper.HasAccount(ctx, a.Bytes()))
			}
		}
	}
}

// quietly: a block in which every transaction failed wrote only what an empty
// block writes, accounts of signers and, in the fee token, the balances of those
// who paid and of the fee collector.
func (e *txlifeEnv) quietly(r *rep, b *tBlock, changes []*storetypes.StoreKVPair) {
	signer := map[string]bool{}
	payers := map[string]bool{}
	grant, long := false, false
	for i := range b.Txs {
		x := &b.Txs[i]
		if x.R != "failed" {
			continue
		}
		for j := range x.Tx.Msgs {
			signer[string(e.keys[x.Tx.Msgs[j].From].acc())] = true
		}
		if x.Tx.Price > 0 {
			payers[x.Tx.From] = true
			// paying makes the EVM address of a long address known
			signer[string(e.keys[x.Tx.From].evm().Bytes())] = true
			long = long || len(e.keys[x.Tx.From].acc()) == 32
			if x.Tx.Granter {
				grant = true
				payers["G"] = true
				delete(payers, x.Tx.From)
			}
		}
	}
	slots := map[string]bool{}
	for _, p := range changes {
		r.res.Checks++
		if e.quiet[quietKey(p)] {
			continue
		}
		switch {
		case p.StoreKey == "acc" && (len(p.Key) == 21 || len(p.Key) == 33) && p.Key[0] == 1 && signer[string(p.Key[1:])]:
		case p.StoreKey == "acc" && strings.HasPrefix(string(p.Key), "accountNumber") && (signer[string(p.Value)] || (p.Delete && long)):
		case p.StoreKey == "acc" && len(p.Key) == 1 && p.Key[0] == 2 && long:
		case p.StoreKey == "feegrant" && grant:
		case p.StoreKey == "evm" && strings.Contains(string(p.Key), string(e.stake.Bytes())) && len(p.Key) >= 52 && len(payers) > 0:
			slots[string(p.Key)] = true
		default:
			r.differ("a block of failed transactions %+v wrote %s key %x", b.Txs, p.StoreKey, p.Key)
		}
	}
	if len(payers) > 0 {
		// the token contract keeps one slot for each balance
		r.res.Checks++
		if len(slots) > len(b.Txs)+1 {
			r.differ("failed transactions wrote %d slots of the fee token", len(slots))
		}
	}
	r.count("quiet")
}

func init() { families["txlife"] = family{txlifeSetup, txlifeRun} }
