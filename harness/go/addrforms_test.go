package zzverif

// Driver for spec/AddrForms.tla: accounts with long addresses.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/big"
	"testing"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"

	bankkeeper "github.com/initia-labs/minievm/x/bank/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

type aStep struct {
	Op struct {
		A string `json:"a"`
		F string `json:"f"`
		T string `json:"t"`
		G string `json:"g"`
		S string `json:"s"`
		I string `json:"i"`
		V int64  `json:"v"`
	} `json:"op"`
	OK   bool `json:"ok"`
	Post struct {
		Own   fn[string] `json:"own"`
		Bal   fn[int64]  `json:"bal"`
		NFT   fn[string] `json:"nft"`
		Views fn[struct {
			Fits bool  `json:"fits"`
			N    int64 `json:"n"`
		}] `json:"views"`
	} `json:"post"`
}

type addrEnv struct {
	*env
	acc   map[string]sdk.AccAddress
	short map[string]common.Address
	stake common.Address
	base  map[string]math.Int // coins of short forms that are not modelled
}

var addrInit = []byte{0x60, 0x01, 0x5f, 0xf3}

func addrSetup(t *testing.T) any {
	e := &addrEnv{env: newEnv(t), acc: map[string]sdk.AccAddress{}, short: map[string]common.Address{}, base: map[string]math.Int{}}
	e.acc["U1"], e.acc["S1"] = userAddr(1), userAddr(0x51)
	e.acc["M"] = e.app.AccountKeeper.GetModuleAccount(e.ctx, authtypes.FeeCollectorName).GetAddress()
	e.acc["P"] = e.deploy(userAddr(3), initOf([]byte{0x33, 0x5f, 0x52, 0x32, 0x60, 0x20, 0x52, 0x60, 0x40, 0x5f, 0xf3})).Bytes()
	b := e.env.branch()
	res, err := b.ms.Create2(b.ctx, &evmtypes.MsgCreate2{Sender: e.acc["U1"].String(), Code: hexutil.Encode(addrInit), Salt: 7, Value: math.ZeroInt()})
	if err != nil {
		panic(err)
	}
	e.acc["K"] = common.HexToAddress(res.ContractAddr).Bytes()
	long := func(fill byte, short sdk.AccAddress) sdk.AccAddress {
		return append(bytes.Repeat([]byte{fill}, 12), short...)
	}
	e.acc["L1"], e.acc["L2"], e.acc["L3"] = long(0xc1, e.acc["S1"]), long(0xc2, e.acc["S1"]), bytes.Repeat([]byte{0xbb}, 32)
	e.acc["LM"], e.acc["LP"], e.acc["LK"] = long(0xc3, e.acc["M"]), long(0xc4, e.acc["P"]), long(0xc5, e.acc["K"])
	for s, a := range map[string]string{"x": "S1", "y": "L3", "z": "U1", "m": "M", "p": "P", "k": "K"} {
		e.short[s] = evmAddr(e.acc[a])
		e.base[s] = e.app.BankKeeper.GetBalance(e.ctx, e.short[s].Bytes(), "stake").Amount
	}
	if e.stake, err = evmtypes.DenomToContractAddr(e.ctx, e.k, "stake"); err != nil {
		panic(err)
	}
	for _, s := range []string{"x", "y", "z"} {
		e.fund(e.short[s].Bytes(), "stake", 9)
	}
	if err := e.k.ERC721Keeper().CreateOrUpdateClass(e.ctx, "cls", "uri", "data"); err != nil {
		panic(err)
	}
	return e
}

// sign does for the signer what the processing of a transaction does
func (e *addrEnv) sign(c *env, f string) error {
	ak := c.app.AccountKeeper
	acc := ak.GetAccount(c.ctx, e.acc[f])
	if acc == nil {
		acc = ak.NewAccountWithAddress(c.ctx, e.acc[f])
	}
	if acc.GetPubKey() == nil {
		if err := acc.SetPubKey(ed25519.GenPrivKeyFromSecret([]byte(f)).PubKey()); err != nil {
			return err
		}
	}
	if err := acc.SetSequence(acc.GetSequence() + 1); err != nil {
		return err
	}
	ak.SetAccount(c.ctx, acc)
	return nil
}

func (e *addrEnv) do(c *env, x *aStep, r *rep) error {
	op := &x.Op
	nft := c.k.ERC721Keeper()
	one := func(n int64) sdk.Coins { return sdk.NewCoins(sdk.NewInt64Coin("stake", n)) }
	switch op.A {
	case "send":
		bank := bankkeeper.NewMsgServerImpl(*c.app.BankKeeper)
		_, err := bank.Send(c.ctx, &banktypes.MsgSend{FromAddress: e.acc[op.F].String(), ToAddress: e.acc[op.T].String(), Amount: one(op.V)})
		return err
	case "pay":
		_, err := c.call(c.ctx, e.acc[op.F], e.short[op.S], nil, op.V)
		return err
	case "call":
		res, err := c.call(c.ctx, e.acc[op.F], evmAddr(e.acc["P"]), nil, 0)
		if err != nil {
			return err
		}
		for i, v := range words(res.Result) {
			r.eq([]string{"caller", "origin"}[i], e.short[op.S].Hex(), common.BigToAddress(v).Hex())
		}
		return nil
	case "create":
		res, err := c.ms.Create(c.ctx, &evmtypes.MsgCreate{Sender: e.acc[op.F].String(), Code: hexutil.Encode(addrInit), Value: math.ZeroInt()})
		if err == nil {
			r.eq("there is a contract where the creation says", true, len(c.app.AccountKeeper.GetAccount(c.ctx, common.HexToAddress(res.ContractAddr).Bytes()).GetAddress()) > 0)
		}
		return err
	case "ask":
		b, _ := json.Marshal(map[string]any{"@type": "/cosmos.bank.v1beta1.MsgSend", "from_address": e.acc[op.G].String(), "to_address": e.acc[op.T].String(),
			"amount": []any{map[string]any{"denom": "stake", "amount": fmt.Sprint(op.V)}}})
		_, err := c.call(c.ctx, e.acc[op.F], evmtypes.CosmosPrecompileAddress, pack(cosmosABI, "execute_cosmos", string(b)), 0)
		return err
	case "deploy":
		res, err := c.ms.Create2(c.ctx, &evmtypes.MsgCreate2{Sender: e.acc["U1"].String(), Code: hexutil.Encode(addrInit), Salt: 7, Value: math.ZeroInt()})
		if err == nil {
			r.eq("the new contract", e.short["k"].Hex(), res.ContractAddr)
		}
		return err
	case "gift":
		return c.k.ERC20Keeper().MintCoins(c.ctx, e.acc[op.T], one(op.V))
	case "nftmint":
		return nft.Mints(c.ctx, e.acc[op.T], "cls", []string{op.I}, []string{"u"}, []string{""})
	case "nftmove":
		return nft.Transfers(c.ctx, e.acc[op.F], e.acc[op.T], "cls", []string{op.I})
	}
	panic("op " + op.A)
}

// orErr: what f answers, or "refused"
func orErr(f func() (any, error)) (out string) {
	defer func() {
		if x := recover(); x != nil {
			out = "refused"
		}
	}()
	v, err := f()
	if err != nil {
		return "refused"
	}
	return fmt.Sprint(v)
}

func (e *addrEnv) compare(r *rep, c *env, x *aStep) {
	bk, ak := c.app.BankKeeper, c.app.AccountKeeper
	static := func(m string, args ...any) ([]any, error) {
		b, err := c.k.EVMStaticCall(c.ctx.WithGasMeter(storetypes.NewGasMeter(1_000_000_000)), evmtypes.NullAddress, evmtypes.CosmosPrecompileAddress, pack(cosmosABI, m, args...), nil)
		if err != nil {
			return nil, err
		}
		return cosmosABI.Unpack(m, b)
	}
	for s, o := range x.Post.Own {
		a := e.short[s]
		got := "free"
		switch acc := ak.GetAccount(c.ctx, a.Bytes()).(type) {
		case nil:
		case *evmtypes.ShorthandAccount:
			got = acc.OriginalAddress
		case *evmtypes.ContractAccount:
			got = "contract " + a.Hex()
		case sdk.ModuleAccountI:
			got = acc.GetAddress().String()
		default:
			if acc.GetPubKey() != nil || acc.GetSequence() != 0 {
				got = acc.GetAddress().String()
			}
		}
		want := o
		switch o {
		case "free":
		case "P", "K":
			want = "contract " + a.Hex()
		default:
			want = e.acc[o].String()
		}
		r.eq("the owner of "+s, want, got)
		// what contracts are told of it
		v, err := static("to_cosmos_address", a)
		if err != nil {
			r.differ("to_cosmos_address(%s): %v", s, err)
		}
		r.eq("to_cosmos_address "+s, sdk.AccAddress(a.Bytes()).String(), v[0])
		if v, err = static("is_module_address", a); err != nil {
			r.differ("is_module_address(%s): %v", s, err)
		}
		r.eq("is_module_address "+s, s == "m", v[0])
		if v, err = static("is_blocked_address", a); err != nil {
			r.differ("is_blocked_address(%s): %v", s, err)
		}
		r.eq("is_blocked_address "+s, s == "m", v[0])
		n, err := c.k.EVMStaticCall(c.ctx.WithGasMeter(storetypes.NewGasMeter(1_000_000_000)), evmtypes.NullAddress, e.stake, pack(erc20ABI, "balanceOf", a), nil)
		if err != nil {
			r.differ("balanceOf: %v", err)
		}
		r.eq("coins of "+s, e.base[s].AddRaw(x.Post.Bal[s]), new(big.Int).SetBytes(n))
	}
	held := map[string]int{}
	for i, s := range x.Post.NFT {
		o, err := nfts(c).OwnerOf(c.ctx, i, "cls")
		if err != nil {
			r.differ("owner of %s: %v", i, err)
		}
		r.eq("the owner of token "+i, e.short[s].Hex(), o.Hex())
		held[s]++
	}
	for n, v := range x.Post.Views {
		a := e.acc[n]
		s := ""
		for k, h := range e.short {
			if h == evmAddr(a) {
				s = k
			}
		}
		coins, tokens, evm := "refused", "refused", "refused"
		if v.Fits {
			coins, tokens = e.base[s].AddRaw(v.N).String(), fmt.Sprint(held[s])
		}
		if len(a) == 20 {
			evm = evmAddr(a).Hex()
		}
		r.eq("coins of "+n, coins, orErr(func() (any, error) { return bk.GetBalance(c.ctx, a, "stake").Amount, nil }))
		r.eq("all coins of "+n, coins, orErr(func() (any, error) { return bk.GetAllBalances(c.ctx, a).AmountOf("stake"), nil }))
		r.eq("spendable coins of "+n, coins, orErr(func() (any, error) { return bk.SpendableCoins(c.ctx, a).AmountOf("stake"), nil }))
		r.eq("tokens of "+n, tokens, orErr(func() (any, error) { return nfts(c).BalanceOf(c.ctx, a, "cls") }))
		r.eq("to_evm_address "+n, evm, orErr(func() (any, error) {
			v, err := static("to_evm_address", a.String())
			if err != nil {
				return nil, err
			}
			return v[0].(common.Address).Hex(), nil
		}))
	}
}

func addrRun(t *testing.T, s any, line []byte, r *rep) {
	base := s.(*addrEnv)
	var steps []aStep
	if err := json.Unmarshal(line, &steps); err != nil {
		panic(err)
	}
	e := *base
	e.env = base.env.branch()
	for i := range steps {
		r.step = i
		r.res.Steps++
		x := &steps[i]
		r.count(x.Op.A + "." + fmt.Sprint(x.OK))
		if x.Op.F != "" {
			r.count(x.Op.F + "." + fmt.Sprint(x.OK))
		}
		if x.Op.A == "reimport" {
			if d := e.env.reimport(); d != "" {
				r.differ("%s", d)
			}
			r.eq("export and import succeed", x.OK, true)
			e.compare(r, e.env, x)
			continue
		}
		by := x.Op.F
		if x.Op.A == "deploy" {
			by = "U1"
		}
		// the processing of the transaction before its messages is kept if they fail
		c := e.env.branch()
		ctx, write := e.ctx.CacheContext()
		c.ctx = ctx.WithGasMeter(storetypes.NewGasMeter(1_000_000_000_000_000)).WithEventManager(sdk.NewEventManager())
		var err error
		if by != "" {
			if err = e.sign(c, by); err == nil {
				write()
			}
		}
		if err == nil {
			ctx, write = e.ctx.CacheContext()
			c.ctx = ctx.WithGasMeter(storetypes.NewGasMeter(1_000_000_000_000_000)).WithEventManager(sdk.NewEventManager())
			if err = e.do(c, x, r); err == nil {
				write()
			}
		}
		if x.OK != (err == nil) {
			r.differ("%+v succeeds: specification %v, code %v (%v)", x.Op, x.OK, err == nil, err)
		}
		e.compare(r, e.env, x)
	}
}

func init() { families["addrforms"] = family{addrSetup, addrRun} }

// nfts is the token keeper with the views its interface leaves out.
func nfts(c *env) interface {
	OwnerOf(context.Context, string, string) (common.Address, error)
	BalanceOf(context.Context, sdk.AccAddress, string) (math.Int, error)
} {
	return c.k.ERC721Keeper().(interface {
		OwnerOf(context.Context, string, string) (common.Address, error)
		BalanceOf(context.Context, sdk.AccAddress, string) (math.Int, error)
	})
}
