package zzverif

// Driver for spec/TxConvert.tla: Ethereum transactions under fee tokens of any
// number of decimals.

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"testing"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	txtypes "github.com/cosmos/cosmos-sdk/types/tx"
	authsigning "github.com/cosmos/cosmos-sdk/x/auth/signing"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/holiman/uint256"

	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"

	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

type amount struct {
	M    int64 `json:"m"`
	E    int64 `json:"e"`
	Plus int64 `json:"plus"`
}

func pow10(e int64) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(e), nil) }

func (a amount) big() *big.Int {
	x := new(big.Int).Mul(big.NewInt(a.M), pow10(a.E))
	return x.Add(x, big.NewInt(a.Plus))
}

type convTx struct {
	U     string `json:"u"`
	T     string `json:"t"`
	To    string `json:"to"`
	Val   amount `json:"val"`
	Cap   amount `json:"cap"`
	Tip   int64  `json:"tip"`
	Gas   uint64 `json:"gas"`
	Al    int    `json:"al"`
	Data  string `json:"data"`
	Off   int64  `json:"off"`
	Chain string `json:"chain"`
	Mut   string `json:"mut"`
}

type convStep struct {
	K     string `json:"k"`
	D     uint8  `json:"d"`
	Tx    convTx `json:"tx"`
	Seq   int64  `json:"seq"`
	R     string `json:"r"`
	Ok    bool   `json:"ok"`
	Value amount `json:"value"`
	Fee   amount `json:"fee"`
	Dec   int64  `json:"dec"`
	Seen  struct {
		Val  amount `json:"val"`
		From string `json:"from"`
		By   int    `json:"by"`
	} `json:"seen"`
}

type convertEnv struct {
	c      *chain
	n      int
	a      common.Address
	denoms map[uint8]string
	fee    string
	keys   map[string]key
}

// observer stores the gas price, the value and the sender it sees; it reverts
// when it is given data that starts with 1.
func observer() []byte {
	rt := newAsm().op(opSTOP + 0x3a).push(0).op(opSSTORE). // GASPRICE
								op(0x34).push(1).op(opSSTORE). // CALLVALUE
								op(opCALLER).push(2).op(opSSTORE).
								push(0).op(0x35).push(248).op(opSHR).pushLabel("bad").op(opJUMPI).op(opSTOP). // CALLDATALOAD
								label("bad").push(0).push(0).op(opREVERT)
	code := rt.bytes()
	init := newAsm().push(len(code)).pushLabel("code").push(0).op(opCODECOPY).push(len(code)).push(0).op(opRETURN).mark("code").op(code...)
	return init.bytes()
}

func convertSetup(t *testing.T) any {
	e := &convertEnv{c: newChain(t, chainOpt{}), denoms: map[uint8]string{}}
	c := e.c
	factory := must(c.app.EVMKeeper.GetERC20FactoryAddr(c.ctx()))
	f := c.faucet
	e.a = crypto.CreateAddress(f.evm(), c.seq(f.acc()))
	c.run(f, &evmtypes.MsgCreate{Sender: f.acc().String(), Code: hexutil.Encode(observer()), Value: math.ZeroInt()})
	for _, d := range []uint8{0, 6, 9, 17, 18, 19, 24} {
		in := pack(factoryABI, "createERC20", fmt.Sprint("fee", d), "fee", d)
		ret, _, err := c.app.EVMKeeper.EVMCall(c.ctx(), f.evm(), factory, in, uint256.NewInt(0), nil)
		if err != nil {
			panic(err)
		}
		// the address is known from a trial on the same state
		tok := common.BytesToAddress(ret)
		c.run(f, &evmtypes.MsgCall{Sender: f.acc().String(), ContractAddr: factory.Hex(), Input: hexutil.Encode(in), Value: math.ZeroInt()})
		c.run(f, &evmtypes.MsgCall{Sender: f.acc().String(), ContractAddr: tok.Hex(), Input: hexutil.Encode(pack(erc20ABI, "mint", f.evm(), pow10(60))), Value: math.ZeroInt()})
		e.denoms[d] = "evm/" + strings.TrimPrefix(tok.Hex(), "0x")
	}
	return e
}

func (e *convertEnv) setFee(d uint8) {
	c := e.c
	p := must(c.app.EVMKeeper.Params.Get(c.ctx()))
	p.GasRefundRatio = math.LegacyZeroDec()
	p.FeeDenom = e.denoms[d]
	c.run(c.admin, must(opchildtypes.NewMsgExecuteMessages(c.admin.acc().String(), []sdk.Msg{&evmtypes.MsgUpdateParams{Authority: c.app.EVMKeeper.GetAuthority(), Params: p}})))
	e.fee = p.FeeDenom
}

func (e *convertEnv) start() {
	c := e.c
	e.n++
	e.keys = map[string]key{}
	coins := sdk.Coins{}
	for _, d := range e.denoms {
		coins = coins.Add(sdk.NewCoin(d, math.NewIntFromBigInt(pow10(30))))
	}
	var msgs []sdk.Msg
	for _, n := range []string{"U1", "U2"} {
		e.keys[n] = keyOf(fmt.Sprint("convert", e.n, n))
		msgs = append(msgs, &banktypes.MsgSend{FromAddress: c.faucet.acc().String(), ToAddress: e.keys[n].acc().String(), Amount: coins})
	}
	c.run(c.faucet, msgs...)
}

func (e *convertEnv) eth(x *convTx, nonce uint64, other common.Address) *coretypes.Transaction {
	c := e.c
	id := ethChainID()
	if x.Chain == "other" {
		id = new(big.Int).Add(id, big.NewInt(1))
	}
	var to *common.Address
	var data []byte
	switch x.To {
	case "A":
		to = &e.a
		if x.Data == "revert" {
			data = []byte{1, 2, 3}
		} else {
			data = []byte{0, 7}
		}
	case "E":
		to = &other
	case "NEW":
		data = newAsm().push(0).push(0).op(opRETURN).bytes()
		if x.Data == "revert" {
			data = newAsm().push(0).push(0).op(opREVERT).bytes()
		}
	}
	var al coretypes.AccessList
	for i := 0; i < x.Al; i++ {
		t := coretypes.AccessTuple{Address: e.a, StorageKeys: []common.Hash{}}
		for j := 0; j < i+1; j++ {
			t.StorageKeys = append(t.StorageKeys, common.BigToHash(big.NewInt(int64(j+1))))
		}
		if i == 1 {
			t.Address = common.Address{1}
			t.StorageKeys = []common.Hash{}
		}
		al = append(al, t)
	}
	val, price := x.Val.big(), x.Cap.big()
	var td coretypes.TxData
	switch x.T {
	case "legacy":
		td = &coretypes.LegacyTx{Nonce: nonce, GasPrice: price, Gas: x.Gas, To: to, Value: val, Data: data}
	case "acl":
		td = &coretypes.AccessListTx{ChainID: id, Nonce: nonce, GasPrice: price, Gas: x.Gas, To: to, Value: val, Data: data, AccessList: al}
	case "dyn":
		td = &coretypes.DynamicFeeTx{ChainID: id, Nonce: nonce, GasFeeCap: price, GasTipCap: big.NewInt(x.Tip), Gas: x.Gas, To: to, Value: val, Data: data, AccessList: al}
	}
	if x.Chain == "blob" {
		blobTo := e.a
		td = &coretypes.BlobTx{ChainID: uint256.MustFromBig(id), Nonce: nonce, GasFeeCap: uint256.NewInt(1), GasTipCap: uint256.NewInt(1), Gas: x.Gas, To: blobTo, Value: uint256.NewInt(0), Data: data,
			BlobFeeCap: uint256.NewInt(1), BlobHashes: []common.Hash{{1}}}
	}
	k := e.keys[x.U]
	if x.Chain == "unprotected" {
		return must(coretypes.SignNewTx(must(crypto.ToECDSA(k.p.Bytes())), coretypes.HomesteadSigner{}, td))
	}
	return c.signEth(k, id, td)
}

// convertEth converts; a panic is a refusal too.
func (e *convertEnv) convertEth(tx *coretypes.Transaction) (res sdk.Tx, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("panic: %v", x)
		}
	}()
	return e.c.app.EVMKeeper.TxUtils().ConvertEthereumTxToCosmosTx(e.c.ctx(), tx)
}

func (e *convertEnv) mutate(x *convTx, tx sdk.Tx) []byte {
	c := e.c
	if x.Mut == "none" {
		return c.encode(tx)
	}
	b := must(c.txCfg.WrapTxBuilder(tx))
	fee := b.GetTx().GetFee()
	msg := tx.GetMsgs()[0]
	add := func(n int64) {
		switch m := msg.(type) {
		case *evmtypes.MsgCall:
			m.Value = m.Value.AddRaw(n)
		case *evmtypes.MsgCreate:
			m.Value = m.Value.AddRaw(n)
		}
		if err := b.SetMsgs(msg); err != nil {
			panic(err)
		}
	}
	one := sdk.NewInt64Coin(e.fee, 1)
	switch x.Mut {
	case "valueup":
		add(1)
	case "valuedown":
		add(-1)
	case "feeup":
		b.SetFeeAmount(fee.Add(one))
	case "feedown":
		b.SetFeeAmount(fee.Sub(one))
	case "nofee":
		b.SetFeeAmount(nil)
	case "typo":
		var memo map[string]any
		if err := json.Unmarshal([]byte(b.GetTx().GetMemo()), &memo); err != nil {
			panic(err)
		}
		memo["gas_fee_cap"] = "1x"
		b.SetMemo(string(must(json.Marshal(memo))))
	case "nilvalue":
		// the value left out
		var raw txtypes.TxRaw
		if err := raw.Unmarshal(c.encode(tx)); err != nil {
			panic(err)
		}
		var body txtypes.TxBody
		if err := body.Unmarshal(raw.BodyBytes); err != nil {
			panic(err)
		}
		body.Messages[0].Value = dropField(body.Messages[0].Value, map[bool]uint64{true: 4, false: 3}[x.To != "NEW"])
		raw.BodyBytes = must(body.Marshal())
		return must(raw.Marshal())
	default:
		panic("mutation " + x.Mut)
	}
	return c.encode(b.GetTx())
}

// dropField removes a length-delimited field of a protobuf message which has
// only such fields.
func dropField(b []byte, num uint64) []byte {
	uvarint := func() uint64 {
		var x uint64
		for s := 0; ; s += 7 {
			c := b[0]
			b = b[1:]
			x |= uint64(c&0x7f) << s
			if c < 0x80 {
				return x
			}
		}
	}
	var out []byte
	for len(b) > 0 {
		start := b
		tag := uvarint()
		if tag&7 != 2 {
			panic("wire type")
		}
		n := uvarint()
		b = b[n:]
		if tag>>3 != num {
			out = append(out, start[:len(start)-len(b)]...)
		}
	}
	return out
}

func convertRun(t *testing.T, s any, line []byte, r *rep) {
	e := s.(*convertEnv)
	c := e.c
	var steps []convStep
	if err := json.Unmarshal(line, &steps); err != nil {
		panic(err)
	}
	e.start()
	for i := range steps {
		r.step = i
		r.res.Steps++
		st := &steps[i]
		if st.K == "denom" {
			e.setFee(st.D)
			r.count("denom")
			r.eq("changing the fee token", st.Ok, true)
			continue
		}
		x := &st.Tx
		r.count("eth." + st.R)
		r.count(fmt.Sprintf("dec%d.%s", st.Dec, st.R))
		r.count("type." + x.T + "." + x.To)
		if x.Mut != "none" && st.R == "rejected" {
			r.count("mut." + x.Mut)
		}
		if x.Chain != "ok" {
			r.count("chain." + x.Chain)
		}
		other := common.BytesToAddress(crypto.Keccak256([]byte(fmt.Sprint("other", e.n, i)))[12:])
		k := e.keys[x.U]
		nonce := uint64(st.Seq + x.Off)
		eth := e.eth(x, nonce, other)
		tx, err := e.convertEth(eth)
		r.res.Checks++
		if (err != nil) != (st.R == "refused") {
			r.differ("conversion of %+v with %d decimals: specification %s, code error %v", *x, st.Dec, st.R, err)
		}
		if err != nil {
			if strings.HasPrefix(err.Error(), "panic") {
				r.count("refused.panic")
			}
			continue
		}
		value, fee := st.Value.big(), st.Fee.big()
		// the cosmos form
		ft := tx.(authsigning.Tx)
		r.eq("gas limit", x.Gas, ft.GetGas())
		r.eq("fee", sdk.NewCoins(sdk.NewCoin(e.fee, math.NewIntFromBigInt(fee))), ft.GetFee())
		var gotVal math.Int
		var al []evmtypes.AccessTuple
		var data, sender string
		switch m := tx.GetMsgs()[0].(type) {
		case *evmtypes.MsgCall:
			gotVal, al, data, sender = m.Value, m.AccessList, m.Input, m.Sender
			r.eq("called contract", *eth.To(), common.HexToAddress(m.ContractAddr))
		case *evmtypes.MsgCreate:
			gotVal, al, data, sender = m.Value, m.AccessList, m.Code, m.Sender
			r.eq("creation", x.To, "NEW")
		}
		r.eq("number of messages", 1, len(tx.GetMsgs()))
		r.eq("value", value, gotVal)
		r.eq("data", hexutil.Encode(eth.Data()), data)
		r.eq("sender", k.acc().String(), sender)
		r.eq("length of the access list", x.Al, len(al))
		// and back
		dec := must(c.txCfg.TxDecoder()(c.encode(tx)))
		back, from, err := c.app.EVMKeeper.TxUtils().ConvertCosmosTxToEthereumTx(c.ctx(), dec)
		if err != nil || back == nil || from == nil {
			r.differ("conversion back of %+v: %v %v", *x, back, err)
		}
		r.eq("hash after conversion to and fro", eth.Hash(), back.Hash())
		r.eq("encoding after conversion to and fro", hexutil.Encode(must(eth.MarshalBinary())), hexutil.Encode(must(back.MarshalBinary())))
		r.eq("sender after conversion to and fro", k.evm(), *from)
		r.eq("an ethereum transaction", true, must(c.app.EVMKeeper.TxUtils().IsEthereumTx(c.ctx(), dec)))
		// executed
		made := crypto.CreateAddress(k.evm(), nonce)
		to := map[string]common.Address{"A": e.a, "E": other, "NEW": made}[x.To]
		b0, t0 := c.balance(k.acc(), e.fee), c.balance(to.Bytes(), e.fee)
		res := c.block([][]byte{e.mutate(x, tx)}).TxResults[0]
		r.res.Checks++
		if (res.Code == 0) != st.Ok {
			r.differ("transaction %+v with %d decimals: specification %s, code %d, gas used %d (%s)", *x, st.Dec, st.R, res.Code, res.GasUsed, res.Log)
		}
		paid, moved := new(big.Int), new(big.Int)
		switch st.R {
		case "ok":
			paid.Add(fee, value)
			moved = value
		case "failed":
			paid = fee
		}
		r.eq("paid by the sender", paid, b0.Sub(c.balance(k.acc(), e.fee)))
		r.eq("received", moved, c.balance(to.Bytes(), e.fee).Sub(t0))
		used := int64(0)
		if st.R == "ok" || st.R == "failed" {
			used = 1
		}
		r.eq("nonce", st.Seq+used, c.seq(k.acc()))
		if st.Seen.By > 0 {
			r.eq("value seen by the contract", st.Seen.Val.big(), e.slot(1))
			r.eq("sender seen by the contract", e.keys[st.Seen.From].evm(), common.BigToAddress(e.slot(2)))
			if st.Seen.By == i+1 {
				// the gas price is the fee per gas in wei, rounded down from
				// a price with nine more decimals than the token
				got := e.slot(0)
				high := new(big.Int).Set(fee)
				if st.Dec <= 18 {
					high.Mul(high, pow10(18-st.Dec))
					high.Quo(high, new(big.Int).SetUint64(x.Gas))
				} else {
					high.Quo(high, new(big.Int).Mul(pow10(st.Dec-18), new(big.Int).SetUint64(x.Gas)))
				}
				low := new(big.Int).Sub(high, big.NewInt(2))
				if st.Dec < 9 {
					low.Sub(low, pow10(9-st.Dec))
				}
				r.res.Checks++
				if got.Cmp(high) > 0 || got.Cmp(low) < 0 {
					r.differ("gas price seen by the contract: %v is not between %v and %v", got, low, high)
				}
				r.count("gasprice")
			}
		}
	}
}

func (e *convertEnv) slot(n int) *big.Int {
	q := evmkeeper.NewQueryServer(e.c.app.EVMKeeper)
	res := must(q.State(e.c.ctx(), &evmtypes.QueryStateRequest{ContractAddr: e.a.Hex(), Key: common.BytesToHash(w(n)).Hex()}))
	return common.HexToHash(res.Value).Big()
}

func init() { families["convert"] = family{convertSetup, convertRun} }
