package zzverif

// Known findings, each shown on the real code: a probe prints PROBE-FAILS while
// the defect is there and PROBE-HOLDS when it is gone. See known-findings.json.

import (
	"fmt"
	"os"
	"strings"
	"testing"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/query"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	coretypes "github.com/ethereum/go-ethereum/core/types"

	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"

	bankkeeper "github.com/initia-labs/minievm/x/bank/keeper"
	"github.com/initia-labs/minievm/x/evm/contracts/initia_erc20"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

var probes = map[string]func(t *testing.T) bool{}

func TestProbe(t *testing.T) {
	if os.Getenv("ZZ_PROBE") == "" {
		t.Skip("no ZZ_PROBE")
	}
	for n, f := range probes {
		t.Run(n, func(t *testing.T) {
			if f(t) {
				fmt.Println("PROBE-FAILS")
			} else {
				fmt.Println("PROBE-HOLDS")
			}
		})
	}
}

func init() {
	// A contract that is called statically requests a cosmos message through an
	// ordinary call to the precompile, and the message is executed.
	probes["static-request"] = func(t *testing.T) bool {
		e := newEnv(t)
		u := userAddr(5)
		a, b := e.deploy(userAddr(1), puppetInit(nil)), e.deploy(userAddr(1), puppetInit(nil))
		e.fund(b.Bytes(), "stake", 10)
		inner := (&script{}).call(kCall, true, cosmosGas, evmtypes.CosmosPrecompileAddress, 0, pack(cosmosABI, "execute_cosmos", sendJSON(b, evmAddr(u), "stake", 3)))
		_, err := e.call(e.ctx, u, a, (&script{}).call(kStatic, true, 0, b, 0, inner.b).b, 0)
		return err == nil && e.app.BankKeeper.GetBalance(e.ctx, u, "stake").Amount.Int64() == 3
	}
	// Another spelling of a contract denom names the same coin, but not for the
	// send-enabled list.
	alias := func(t *testing.T, spell func(e *env, stake common.Address, tok common.Address) (string, string)) bool {
		e := newEnv(t)
		u, v := userAddr(5), userAddr(6)
		a := e.deploy(userAddr(1), puppetInit(nil))
		res, err := e.call(e.ctx, u, a, (&script{}).call(kCall, true, 0, must(e.k.GetERC20FactoryAddr(e.ctx)), 0, pack(factoryABI, "createERC20", "tok", "tok", uint8(6))).b, 0)
		if err != nil {
			panic(err)
		}
		tok := common.BigToAddress(words(res.Result)[1])
		if _, err := e.call(e.ctx, u, a, (&script{}).call(kCall, true, 0, tok, 0, pack(erc20ABI, "mint", evmAddr(u), bigInt(9))).b, 0); err != nil {
			panic(err)
		}
		e.fund(u, "stake", 9)
		real, other := spell(e, must(evmtypes.DenomToContractAddr(e.ctx, e.k, "stake")), tok)
		bank := bankkeeper.NewMsgServerImpl(*e.app.BankKeeper)
		e.app.BankKeeper.SetSendEnabled(e.ctx, real, false)
		_, err = bank.Send(e.ctx, &banktypes.MsgSend{FromAddress: u.String(), ToAddress: v.String(), Amount: sdk.NewCoins(sdk.NewInt64Coin(real, 1))})
		if err == nil {
			panic("sent a disabled denom")
		}
		_, err = bank.Send(e.ctx, &banktypes.MsgSend{FromAddress: u.String(), ToAddress: v.String(), Amount: sdk.NewCoins(sdk.NewInt64Coin(other, 1))})
		return err == nil && e.app.BankKeeper.GetBalance(e.ctx, v, real).Amount.Int64() == 1
	}
	probes["denom-spelling"] = func(t *testing.T) bool {
		return alias(t, func(_ *env, _, tok common.Address) (string, string) {
			d := "evm/" + strings.TrimPrefix(tok.Hex(), "0x")
			return d, strings.ToLower(d)
		})
	}
	probes["denom-of-chain-contract"] = func(t *testing.T) bool {
		return alias(t, func(_ *env, stake, _ common.Address) (string, string) {
			return "stake", "evm/" + strings.TrimPrefix(stake.Hex(), "0x")
		})
	}
	// A token whose totalSupply burns all gas breaks the supply listing.
	probes["greedy-token"] = func(t *testing.T) bool {
		e := newEnv(t)
		u := userAddr(5)
		list := func() (ok bool) {
			defer func() {
				if x := recover(); x != nil {
					ok = false
				}
			}()
			_, err := e.app.BankKeeper.TotalSupply(e.ctx, &banktypes.QueryTotalSupplyRequest{Pagination: &query.PageRequest{Limit: 100}})
			return err == nil
		}
		if !list() {
			panic("supply listing")
		}
		// a registered custom token, whose view functions do not return
		if _, err := e.ms.Create2(e.ctx, &evmtypes.MsgCreate2{Sender: u.String(), Code: hexutil.Encode(greedyInit()), Salt: 1, Value: math.ZeroInt()}); err != nil {
			panic(err)
		}
		return !list()
	}
	// The index of a log is its place in its transaction, not in its block.
	probes["log-index"] = func(t *testing.T) bool {
		e := idxProbe(t)
		x := xTx{K: "call", From: "U1", T: "dyn", How: "ok", Logs: []int{1}, Key: 1, V: 1}
		y := x
		y.From, y.ID = "U2", 1
		var raw [][]byte
		for _, x := range []*xTx{&x, &y} {
			raw = append(raw, e.build(x, e.c.seq(e.keys[x.From].acc())).bytes)
		}
		e.c.block(raw)
		_ = e.next().([]*coretypes.Log)
		ls := e.next().([]*coretypes.Log)
		return len(ls) == 1 && ls[0].TxIndex == 1 && ls[0].Index == 0
	}
	// A transaction that is refused in one block and accepted in a later one.
	probes["rejected-again"] = func(t *testing.T) bool {
		e := idxProbe(t)
		n := e.c.seq(e.keys["U1"].acc())
		x := e.build(&xTx{K: "call", From: "U1", T: "dyn", How: "ok", Key: 1, V: 1}, n)
		y := e.build(&xTx{K: "call", From: "U1", T: "dyn", How: "ok", Key: 1, V: 1, ID: 1}, n+1)
		if e.c.block([][]byte{y.bytes}).TxResults[0].Code == 0 {
			panic("nonce")
		}
		h := e.c.height
		if r := e.c.block([][]byte{x.bytes, y.bytes}).TxResults; r[0].Code != 0 || r[1].Code != 0 {
			panic(r[0].Log + r[1].Log)
		}
		tx := must(e.c.app.EVMIndexer().TxByBlockAndIndex(e.c.ctx(), uint64(h), 0))
		return tx.Hash == y.eth.Hash() && tx.BlockNumber.ToInt().Int64() != h
	}
	// A block that changes the fee token.
	probes["fee-denom-change"] = func(t *testing.T) bool {
		e := idxProbe(t)
		c := e.c
		params := must(c.app.EVMKeeper.Params.Get(c.ctx()))
		params.FeeDenom = "zother"
		x := e.build(&xTx{K: "call", From: "U1", T: "dyn", How: "ok", Key: 1, V: 1, ID: 1}, c.seq(e.keys["U1"].acc()))
		msg := must(opchildtypes.NewMsgExecuteMessages(c.admin.acc().String(), []sdk.Msg{&evmtypes.MsgUpdateParams{Authority: c.app.EVMKeeper.GetAuthority(), Params: params}}))
		y := c.sign(cosTx{msgs: []sdk.Msg{msg}, signers: []key{c.admin}, seqs: []uint64{c.seq(c.admin.acc())}, gas: 10_000_000}).GetTx()
		if r := c.block([][]byte{x.bytes, c.encode(y)}).TxResults; r[0].Code != 0 || r[1].Code != 0 {
			panic(r[0].Log + r[1].Log)
		}
		_, err := c.app.EVMIndexer().TxByHash(c.ctx(), x.eth.Hash())
		return err != nil
	}
	_ = initia_erc20.InitiaErc20Bin
}

func idxProbe(t *testing.T) *idxEnv {
	e := idxSetup(t).(*idxEnv)
	e.fresh()
	return e
}

func must[T any](x T, err error) T {
	if err != nil {
		panic(err)
	}
	return x
}

// greedyInit registers itself as a token in its constructor; its code is INVALID.
func greedyInit() []byte {
	in := pack(registryABI, "register_erc20")
	a := newAsm()
	a.push(len(in)).pushLabel("in").push(0).op(opCODECOPY)
	a.push(0).push(0).push(len(in)).push(0).push(0)
	a.op(0x73).op(evmtypes.ERC20RegistryPrecompileAddress.Bytes()...)
	a.op(opGAS, opCALL, opISZERO).jumpi("fail")
	a.push(opINVALID).push(0).op(opMSTORE8)
	a.push(1).push(0).op(opRETURN)
	a.label("fail").push(0).push(0).op(opREVERT)
	a.mark("in").op(in...)
	return a.bytes()
}
