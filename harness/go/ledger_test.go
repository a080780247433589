package zzverif

// Driver for spec/Ledger.tla: coins as the bank module and as ERC20 tokens.

import (
	"context"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"testing"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/query"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/crypto"

	ibctransfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"

	bankkeeper "github.com/initia-labs/minievm/x/bank/keeper"
	"github.com/initia-labs/minievm/x/evm/contracts/erc20"
	"github.com/initia-labs/minievm/x/evm/contracts/i_erc20_registry"
	"github.com/initia-labs/minievm/x/evm/contracts/initia_erc20"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

var (
	registryABI = mustABI(i_erc20_registry.IErc20RegistryMetaData.GetAbi())
	initiaABI   = mustABI(initia_erc20.InitiaErc20MetaData.GetAbi())
)

type lOp struct {
	A    string          `json:"a"`
	F    string          `json:"f"`
	T    string          `json:"t"`
	C    fn[int64]       `json:"c"`
	D    string          `json:"d"`
	V    string          `json:"v"`
	N    int64           `json:"n"`
	K    string          `json:"k"`
	R    string          `json:"r"` // who receives what the bank sends
	S    json.RawMessage `json:"s"`
	Auth bool            `json:"auth"`
}

type lStep struct {
	Op   lOp  `json:"op"`
	OK   bool `json:"ok"`
	Skip bool `json:"skip"` // part of the start: compared later
	Post struct {
		Bal   fn[fn[int64]] `json:"bal"`
		Sup   fn[int64]     `json:"sup"`
		Con   fn[string]    `json:"con"`
		Owner fn[string]    `json:"owner"`
		Allw  []struct {
			O string `json:"o"`
			S string `json:"s"`
			D string `json:"d"`
			N int64  `json:"n"`
		} `json:"allw"`
		Se     fn[bool]   `json:"se"`
		Dflt   bool       `json:"dflt"`
		Reg    []string   `json:"reg"`
		Listed [][]string `json:"listed"`
		NFac   int        `json:"nfac"`
	} `json:"post"`
}

type ledgerEnv struct {
	*env
	acc     map[string]sdk.AccAddress
	mod     map[string]string
	factory common.Address
	wrapper common.Address
	f0      uint64
	stake   common.Address
	custom  map[string]common.Address
	inits   map[string][]byte
	supply  math.Int // of stake that is not modelled
	bank    banktypes.MsgServer
	hung    *hungRules
}

// hungRules: what the restrictions say that are hung before (B) and after (A) those of the bank, and how they were asked
type hungRules struct {
	say   map[string]sdk.AccAddress // layer and recipient: nobody if nil
	asked []string
	on    map[any]bool // the applications that have them: those that imports make are used again
}

func (h *hungRules) fn(layer string) banktypes.SendRestrictionFn {
	return func(_ context.Context, from, to sdk.AccAddress, amt sdk.Coins) (sdk.AccAddress, error) {
		h.asked = append(h.asked, fmt.Sprintf("%s: %s -> %s of %s", layer, from, to, amt))
		x, ok := h.say[layer+to.String()]
		switch {
		case !ok:
			return to, nil
		case x == nil:
			return nil, fmt.Errorf("nothing may be sent to %s", to)
		}
		return x, nil
	}
}

// hang puts the restrictions on the bank
func (e *ledgerEnv) hang() {
	if e.hung.on[e.app] {
		return
	}
	e.hung.on[e.app] = true
	e.app.BankKeeper.AppendSendRestriction(e.hung.fn("A"))
	e.app.BankKeeper.PrependSendRestriction(e.hung.fn("B"))
}

// sent compares how the restrictions were asked about a send that succeeded, and what was announced about it
func (e *ledgerEnv) sent(r *rep, c *env, op *lOp) {
	from, to, final, amt := e.acc[op.F], e.acc[op.T], e.acc[op.R], e.coins(op.C)
	mid := to
	if x, ok := e.hung.say["B"+to.String()]; ok {
		mid = x
	}
	r.eq(op.A+": restrictions asked", []string{fmt.Sprintf("B: %s -> %s of %s", from, to, amt), fmt.Sprintf("A: %s -> %s of %s", from, mid, amt)}, e.hung.asked)
	if op.R != op.T {
		r.count("redirected")
	}
	var got []string
	for _, ev := range c.ctx.EventManager().Events() {
		at := map[string]string{}
		for _, a := range ev.Attributes {
			at[a.Key] = a.Value
		}
		switch ev.Type {
		case banktypes.EventTypeCoinSpent:
			got = append(got, "spent "+at["spender"]+" "+at["amount"])
		case banktypes.EventTypeCoinReceived:
			got = append(got, "received "+at["receiver"]+" "+at["amount"])
		case banktypes.EventTypeTransfer:
			got = append(got, "transfer "+at["sender"]+" "+at["recipient"]+" "+at["amount"])
		}
	}
	sort.Strings(got)
	r.eq(op.A+": announced", []string{fmt.Sprintf("received %s %s", final, amt), fmt.Sprintf("spent %s %s", from, amt), fmt.Sprintf("transfer %s %s %s", from, final, amt)}, got)
	r.eq(op.A+": the recipient is an account", true, c.app.AccountKeeper.HasAccount(c.ctx, final))
}

const ledgerInit = 5

func argsOf(a *abi.ABI, args ...any) []byte {
	b, err := a.Pack("", args...)
	if err != nil {
		panic(err)
	}
	return b
}

func ledgerSetup(t *testing.T) any {
	e := &ledgerEnv{env: newEnv(t), acc: map[string]sdk.AccAddress{}, custom: map[string]common.Address{}, inits: map[string][]byte{}}
	e.mod = map[string]string{"OP": opchildtypes.ModuleName, "TR": ibctransfertypes.ModuleName, "FC": authtypes.FeeCollectorName, "MN": authtypes.Minter}
	for n, m := range e.mod {
		e.acc[n] = e.app.AccountKeeper.GetModuleAddress(m)
	}
	e.acc["U1"], e.acc["U2"] = userAddr(1), userAddr(2)
	p := e.deploy(userAddr(3), puppetInit(nil))
	e.acc["P"] = p.Bytes()
	e.bank = bankkeeper.NewMsgServerImpl(*e.app.BankKeeper)
	e.hung = &hungRules{on: map[any]bool{}}
	e.hang()
	var err error
	if e.wrapper, err = e.k.GetERC20WrapperAddr(e.ctx); err != nil {
		panic(err)
	}
	if e.factory, err = e.k.GetERC20FactoryAddr(e.ctx); err != nil {
		panic(err)
	}
	if e.stake, err = evmtypes.DenomToContractAddr(e.ctx, e.k, "stake"); err != nil {
		panic(err)
	}
	before := e.app.BankKeeper.GetSupply(e.ctx, "stake").Amount
	for _, n := range []string{"U1", "U2", "P", "OP"} {
		e.fund(e.acc[n], "stake", ledgerInit)
	}
	e.supply = before
	e.f0 = e.nonceOf(e.ctx, e.factory)
	// the addresses of the contracts users may deploy
	e.inits["K1"] = append(hexutil.MustDecode(initia_erc20.InitiaErc20Bin), argsOf(initiaABI, "k1", "k1", uint8(6))...)
	e.inits["K2"] = append(hexutil.MustDecode(erc20.Erc20Bin), argsOf(erc20ABI, "k2", "k2", uint8(6))...)
	for _, n := range []string{"K1", "K2"} {
		b := e.env.branch()
		res, err := b.ms.Create2(b.ctx, &evmtypes.MsgCreate2{Sender: e.acc["U1"].String(), Code: hexutil.Encode(e.inits[n]), Salt: 7, Value: math.ZeroInt()})
		if err != nil {
			panic(err)
		}
		e.custom[n] = common.HexToAddress(res.ContractAddr)
	}
	return e
}

func (e *ledgerEnv) tokAddr(k string) common.Address {
	if k == "G" {
		return e.stake
	}
	if a, ok := e.custom[k]; ok {
		return a
	}
	n, err := strconv.Atoi(strings.TrimPrefix(k, "T."))
	if err != nil {
		panic("token " + k)
	}
	return crypto.CreateAddress(e.factory, e.f0+uint64(n))
}

// denom: the real denom of a specification denom
func (e *ledgerEnv) denom(d string) string {
	switch {
	case d == "P":
		return "evm/" + strings.TrimPrefix(evmAddr(e.acc["P"]).Hex(), "0x")
	case strings.HasPrefix(d, "T.") || d == "K1" || d == "K2":
		return "evm/" + strings.TrimPrefix(e.tokAddr(d).Hex(), "0x")
	}
	return d
}

func (e *ledgerEnv) contract(p *lStep, d string) common.Address { return e.tokAddr(p.Post.Con[d]) }

func (e *ledgerEnv) coins(c fn[int64]) sdk.Coins {
	out := sdk.Coins{}
	for d, a := range c {
		out = append(out, sdk.NewInt64Coin(e.denom(d), a))
	}
	return out.Sort()
}

// act: actor sends input to the contract
func (e *ledgerEnv) act(c *env, f string, to common.Address, input []byte) error {
	var err error
	if f == "P" {
		_, err = c.call(c.ctx, e.acc["U1"], evmAddr(e.acc["P"]), (&script{}).call(kCall, true, 0, to, 0, input).b, 0)
	} else {
		_, err = c.call(c.ctx, e.acc[f], to, input, 0)
	}
	return err
}

func authority(a bool, real string) string {
	if a {
		return real
	}
	return userAddr(1).String()
}

// do performs the operation; con names the contracts before it
func (e *ledgerEnv) do(c *env, op *lOp, con fn[string]) (err error) {
	ctx := c.ctx
	tok := func() common.Address { return e.tokAddr(con[op.D]) }
	n := big.NewInt(op.N)
	switch op.A {
	case "send":
		_, err = e.bank.Send(ctx, &banktypes.MsgSend{FromAddress: e.acc[op.F].String(), ToAddress: e.acc[op.T].String(), Amount: e.coins(op.C)})
	case "modtoacc":
		err = e.app.BankKeeper.SendCoinsFromModuleToAccount(ctx, e.mod[op.F], e.acc[op.T], e.coins(op.C))
	case "acctomod":
		err = e.app.BankKeeper.SendCoinsFromAccountToModule(ctx, e.acc[op.F], e.mod[op.T], e.coins(op.C))
	case "modtomod":
		err = e.app.BankKeeper.SendCoinsFromModuleToModule(ctx, e.mod[op.F], e.mod[op.T], e.coins(op.C))
	case "delegate":
		err = e.app.BankKeeper.DelegateCoins(ctx, e.acc[op.F], e.acc[op.T], e.coins(op.C))
	case "undelegate":
		err = e.app.BankKeeper.UndelegateCoins(ctx, e.acc[op.F], e.acc[op.T], e.coins(op.C))
	case "rule":
		key := op.K + e.acc[op.T].String()
		switch op.V {
		case op.T:
			delete(e.hung.say, key)
		case "no":
			e.hung.say[key] = nil
		default:
			e.hung.say[key] = e.acc[op.V]
		}
	case "mint", "burn":
		// an unauthorised module is refused by a panic
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(error); !ok {
					panic(x)
				}
				err = x.(error)
			}
		}()
		if op.A == "mint" {
			err = e.app.BankKeeper.MintCoins(ctx, e.mod[op.F], e.coins(op.C))
		} else {
			err = e.app.BankKeeper.BurnCoins(ctx, e.mod[op.F], e.coins(op.C))
		}
	case "setsend":
		m := &banktypes.MsgSetSendEnabled{Authority: authority(op.Auth, e.app.BankKeeper.GetAuthority())}
		d := e.denom(op.D)
		switch op.V {
		case "on", "off":
			m.SendEnabled = []*banktypes.SendEnabled{{Denom: d, Enabled: op.V == "on"}}
		case "dup":
			m.SendEnabled = []*banktypes.SendEnabled{{Denom: d, Enabled: true}, {Denom: d, Enabled: false}}
		case "default":
			m.UseDefaultFor = []string{d}
		}
		_, err = e.bank.SetSendEnabled(ctx, m)
	case "setdefault":
		_, err = e.bank.UpdateParams(ctx, &banktypes.MsgUpdateParams{Authority: authority(op.Auth, e.app.BankKeeper.GetAuthority()), Params: banktypes.NewParams(op.V == "on")})
	case "transfer":
		err = e.act(c, op.F, tok(), pack(erc20ABI, "transfer", evmAddr(e.acc[op.T]), n))
	case "approve":
		err = e.act(c, op.F, tok(), pack(erc20ABI, "approve", evmAddr(e.acc[op.T]), n))
	case "transferfrom":
		var s string
		if err := json.Unmarshal(op.S, &s); err != nil {
			panic(err)
		}
		err = e.act(c, s, tok(), pack(erc20ABI, "transferFrom", evmAddr(e.acc[op.F]), evmAddr(e.acc[op.T]), n))
	case "burnfrom":
		var s string
		if err := json.Unmarshal(op.S, &s); err != nil {
			panic(err)
		}
		err = e.act(c, s, tok(), pack(erc20ABI, "burnFrom", evmAddr(e.acc[op.F]), n))
	case "tokmint":
		err = e.act(c, op.F, tok(), pack(erc20ABI, "mint", evmAddr(e.acc[op.T]), n))
	case "tokburn":
		err = e.act(c, op.F, tok(), pack(erc20ABI, "burn", n))
	case "sudo":
		args := []any{evmAddr(e.acc[op.T]), n}
		if op.K == "sudoTransfer" {
			args = []any{evmAddr(e.acc[op.T]), evmAddr(e.acc[op.F]), n}
		}
		err = e.act(c, op.F, tok(), pack(erc20ABI, op.K, args...))
	case "setowner":
		err = e.act(c, op.F, tok(), pack(erc20ABI, "transferOwnership", evmAddr(e.acc[op.T])))
	case "newtoken":
		err = e.act(c, op.F, e.factory, pack(factoryABI, "createERC20", "new", "new", uint8(6)))
	case "deploy":
		_, err = c.ms.Create2(ctx, &evmtypes.MsgCreate2{Sender: e.acc["U1"].String(), Code: hexutil.Encode(e.inits[op.D]), Salt: 7, Value: math.ZeroInt()})
	case "params":
		p, perr := c.k.Params.Get(ctx)
		if perr != nil {
			panic(perr)
		}
		p.AllowCustomERC20 = op.V == "on"
		p.AllowedCustomERC20s = nil
		var s []string
		if err := json.Unmarshal(op.S, &s); err != nil {
			panic(err)
		}
		sort.Strings(s)
		for _, x := range s {
			if x == "P" {
				p.AllowedCustomERC20s = append(p.AllowedCustomERC20s, evmAddr(e.acc["P"]).Hex())
			} else {
				p.AllowedCustomERC20s = append(p.AllowedCustomERC20s, e.custom[x].Hex())
			}
		}
		_, err = c.ms.UpdateParams(ctx, &evmtypes.MsgUpdateParams{Authority: e.k.GetAuthority(), Params: p})
	case "register":
		err = e.act(c, "P", evmtypes.ERC20RegistryPrecompileAddress, pack(registryABI, "register_erc20"))
	case "registerother":
		x := evmAddr(e.acc["P"])
		if op.D != "P" {
			x = e.custom[op.D]
		}
		err = e.act(c, "P", evmtypes.ERC20RegistryPrecompileAddress, pack(registryABI, "register_erc20_from_factory", x))
	case "registerstore":
		err = e.act(c, "P", evmtypes.ERC20RegistryPrecompileAddress, pack(registryABI, "register_erc20_store", evmAddr(e.acc[op.T])))
	default:
		panic("op " + op.A)
	}
	return err
}

func (e *ledgerEnv) view(c *env, to common.Address, m string, args ...any) []any {
	b, err := c.k.EVMStaticCall(c.ctx, evmtypes.NullAddress, to, pack(erc20ABI, m, args...), nil)
	if err != nil {
		panic(fmt.Sprintf("%s: %v", m, err))
	}
	out, err := erc20ABI.Unpack(m, b)
	if err != nil {
		panic(err)
	}
	return out
}

func coinMap(cs sdk.Coins) map[string]string {
	m := map[string]string{}
	for _, c := range cs {
		m[c.Denom] = c.Amount.String()
	}
	return m
}

// pages reads a listing page by page and compares its whole: how is the size of a page and the way they are turned
func (e *ledgerEnv) pages(r *rep, what string, want map[string]string, how int, ask func(*query.PageRequest) (sdk.Coins, *query.PageResponse, error)) {
	got, n := map[string]string{}, 0
	size := uint64(1 + how%3)
	reverse, byKey := how/3%2 == 1, how/2%2 == 1
	pr := &query.PageRequest{Limit: size, Reverse: reverse, CountTotal: !byKey}
	for turn := 0; ; turn++ {
		cs, res, err := ask(pr)
		if err != nil {
			r.differ("%s, page %d: %v", what, turn+1, err)
			return
		}
		if uint64(len(cs)) > size {
			r.differ("%s, page %d: %d coins on a page for %d", what, turn+1, len(cs), size)
		}
		for _, x := range cs {
			got[x.Denom] = x.Amount.String()
			n++
		}
		if !byKey && turn == 0 {
			r.eq(what+": total of pages", len(want), res.Total)
		}
		if len(res.NextKey) == 0 || turn > 20 {
			break
		}
		pr = &query.PageRequest{Limit: size, Reverse: reverse, CountTotal: !byKey}
		if byKey {
			pr.Key = res.NextKey
		} else {
			pr.Offset = uint64(n)
		}
	}
	r.eq(what+", page by page", want, got)
	r.eq(what+", page by page: number", len(want), n)
}

func (e *ledgerEnv) compare(r *rep, c *env, x *lStep) {
	p := &x.Post
	bk := c.app.BankKeeper
	q := evmkeeper.NewQueryServer(c.k)
	reg := map[string]bool{}
	for _, d := range p.Reg {
		reg[d] = true
	}
	listed := map[string]map[string]bool{}
	for _, l := range p.Listed {
		if listed[l[0]] == nil {
			listed[l[0]] = map[string]bool{}
		}
		listed[l[0]][l[1]] = true
	}
	whole := map[string]map[string]string{}
	for _, b := range bk.GetAccountsBalances(c.ctx) {
		whole[b.Address] = coinMap(b.Coins)
	}
	for n, a := range e.acc {
		want := map[string]string{} // nonzero listed balances
		paged := map[string]string{}
		for d := range listed[n] {
			paged[e.denom(d)] = fmt.Sprint(p.Bal[n][d])
			if p.Bal[n][d] != 0 {
				want[e.denom(d)] = fmt.Sprint(p.Bal[n][d])
			}
		}
		r.eq("all balances of "+n, want, coinMap(bk.GetAllBalances(c.ctx, a)))
		if len(want) > 0 || len(whole[a.String()]) > 0 {
			r.eq("balances of "+n+" among all accounts", want, whole[a.String()])
		}
		res, err := bk.AllBalances(c.ctx, &banktypes.QueryAllBalancesRequest{Address: a.String(), Pagination: &query.PageRequest{Limit: 100}})
		if err != nil {
			r.differ("AllBalances of %s: %v", n, err)
		}
		r.eq("listed balances of "+n, paged, coinMap(res.Balances))
		// the same page by page, whatever their size, in whatever order
		e.pages(r, "listed balances of "+n, paged, r.step, func(pr *query.PageRequest) (sdk.Coins, *query.PageResponse, error) {
			res, err := bk.AllBalances(c.ctx, &banktypes.QueryAllBalancesRequest{Address: a.String(), Pagination: pr})
			if err != nil {
				return nil, nil, err
			}
			return res.Balances, res.Pagination, nil
		})
		e.pages(r, "spendable balances of "+n, paged, r.step+1, func(pr *query.PageRequest) (sdk.Coins, *query.PageResponse, error) {
			res, err := bk.SpendableBalances(c.ctx, &banktypes.QuerySpendableBalancesRequest{Address: a.String(), Pagination: pr})
			if err != nil {
				return nil, nil, err
			}
			return res.Balances, res.Pagination, nil
		})
		r.eq("spendable coins of "+n, want, coinMap(bk.SpendableCoins(c.ctx, a)))
		if err := bk.GetAllBalances(c.ctx, a).Validate(); err != nil {
			r.differ("the coins of %s: %v", n, err)
		}
		for d := range p.Con {
			w := p.Bal[n][d]
			sp, err := bk.SpendableBalanceByDenom(c.ctx, &banktypes.QuerySpendableBalanceByDenomRequest{Address: a.String(), Denom: e.denom(d)})
			if err != nil {
				r.differ("SpendableBalanceByDenom: %v", err)
			}
			r.eq("spendable balance of "+n+" in "+d, w, sp.Balance.Amount)
			r.eq(n+" has its balance in "+d, []bool{true, false}, []bool{bk.HasBalance(c.ctx, a, sdk.NewInt64Coin(e.denom(d), w)), bk.HasBalance(c.ctx, a, sdk.NewInt64Coin(e.denom(d), w+1))})
			r.eq("bank balance of "+n+" in "+d, w, bk.GetBalance(c.ctx, a, e.denom(d)).Amount)
			r.eq("balanceOf "+n+" in "+d, w, e.view(c, e.contract(x, d), "balanceOf", evmAddr(a))[0])
			one, err := bk.Balance(c.ctx, &banktypes.QueryBalanceRequest{Address: a.String(), Denom: e.denom(d)})
			if err != nil {
				r.differ("Balance query: %v", err)
			}
			r.eq("queried balance of "+n+" in "+d, w, one.Balance.Amount)
			is, err := c.k.ERC20StoresKeeper().IsStoreRegistered(c.ctx, a, e.contract(x, d))
			if err != nil {
				panic(err)
			}
			r.eq("listing of "+d+" for "+n, listed[n][d], is)
		}
		for _, d := range []string{"ubar", "uzed"} {
			if _, ok := p.Con[d]; !ok {
				r.eq("balance of a denom without contract", 0, bk.GetBalance(c.ctx, a, d).Amount)
				r.eq("supply of a denom without contract", false, bk.HasSupply(c.ctx, d))
				r.eq("supply of a denom without contract", 0, bk.GetSupply(c.ctx, d).Amount)
				so, err := bk.SupplyOf(c.ctx, &banktypes.QuerySupplyOfRequest{Denom: d})
				if err != nil {
					r.differ("SupplyOf a denom without contract: %v", err)
				}
				r.eq("queried supply of a denom without contract", 0, so.Amount.Amount)
			}
		}
	}
	sup := map[string]string{}
	for d := range reg {
		s := math.NewInt(p.Sup[d])
		if d == "stake" {
			s = s.Add(e.supply)
		}
		sup[e.denom(d)] = s.String()
	}
	ts, err := bk.TotalSupply(c.ctx, &banktypes.QueryTotalSupplyRequest{Pagination: &query.PageRequest{Limit: 100}})
	if err != nil {
		r.differ("TotalSupply: %v", err)
	}
	r.eq("total supply", sup, coinMap(ts.Supply))
	e.pages(r, "total supply", sup, r.step, func(pr *query.PageRequest) (sdk.Coins, *query.PageResponse, error) {
		res, err := bk.TotalSupply(c.ctx, &banktypes.QueryTotalSupplyRequest{Pagination: pr})
		if err != nil {
			return nil, nil, err
		}
		return res.Supply, res.Pagination, nil
	})
	iter := map[string]string{}
	bk.IterateTotalSupply(c.ctx, func(x sdk.Coin) bool { iter[x.Denom] = x.Amount.String(); return false })
	r.eq("total supply by iteration", sup, iter)
	// an iteration ends where its caller says
	end := 1 + r.step%2
	n := 0
	bk.IterateTotalSupply(c.ctx, func(sdk.Coin) bool { n++; return n >= end })
	r.eq("iteration over the supply that ends early", min(end, len(sup)), n)
	n = 0
	bk.IterateAccountBalances(c.ctx, e.acc["U1"], func(sdk.Coin) bool { n++; return n >= end })
	held := 0
	for d := range listed["U1"] {
		if p.Bal["U1"][d] != 0 {
			held++
		}
	}
	r.eq("iteration over the balances of U1 that ends early", min(end, held), n)
	for d, con := range p.Con {
		a := e.tokAddr(con)
		s := math.NewInt(p.Sup[d])
		if d == "stake" {
			s = s.Add(e.supply)
		}
		r.eq("supply of "+d, s, bk.GetSupply(c.ctx, e.denom(d)).Amount)
		r.eq("totalSupply of "+d, s, e.view(c, a, "totalSupply")[0])
		so, err := bk.SupplyOf(c.ctx, &banktypes.QuerySupplyOfRequest{Denom: e.denom(d)})
		if err != nil {
			r.differ("SupplyOf: %v", err)
		}
		r.eq("queried supply of "+d, s, so.Amount.Amount)
		r.eq("has supply "+d, reg[d], bk.HasSupply(c.ctx, e.denom(d)))
		owner := evmtypes.StdAddress
		if w := p.Owner[d]; w != "CHAIN" {
			owner = evmAddr(e.acc[w])
		}
		r.eq("owner of "+d, owner, e.view(c, a, "owner")[0])
		ca, err := q.ContractAddrByDenom(c.ctx, &evmtypes.QueryContractAddrByDenomRequest{Denom: e.denom(d)})
		if err != nil {
			r.differ("contract of %s: %v", d, err)
		}
		r.eq("contract of "+d, a.Hex(), common.HexToAddress(ca.Address).Hex())
		dn, err := q.Denom(c.ctx, &evmtypes.QueryDenomRequest{ContractAddr: a.Hex()})
		if err != nil {
			r.differ("denom of %s: %v", a, err)
		}
		r.eq("denom of the contract of "+d, e.denom(d), dn.Denom)
		r.eq("send enabled "+d, sendEnabled(p.Se, p.Dflt, d), bk.IsSendEnabledDenom(c.ctx, e.denom(d)))
	}
	for _, al := range p.Allw {
		r.eq(fmt.Sprintf("allowance of %s for %s in %s", al.O, al.S, al.D), al.N, e.view(c, e.contract(x, al.D), "allowance", evmAddr(e.acc[al.O]), evmAddr(e.acc[al.S]))[0])
	}
	entries := map[string]bool{}
	for d, v := range p.Se {
		entries[e.denom(d)] = v
	}
	got := map[string]bool{}
	for _, s := range bk.GetAllSendEnabledEntries(c.ctx) {
		got[s.Denom] = s.Enabled
	}
	r.eq("send enabled entries", entries, got)
	se, err := bk.SendEnabled(c.ctx, &banktypes.QuerySendEnabledRequest{})
	if err != nil {
		r.differ("SendEnabled: %v", err)
	}
	got = map[string]bool{}
	for _, x := range se.SendEnabled {
		got[x.Denom] = x.Enabled
	}
	r.eq("queried send enabled entries", entries, got)
	// the same entries when they are asked for one by one, by name, and page by page
	asked := map[string]bool{}
	for d := range p.Se {
		asked[d] = true
	}
	for _, d := range p.Reg {
		asked[d] = true
	}
	var names []string
	for d := range asked {
		names = append(names, e.denom(d))
		v, ok := entries[e.denom(d)]
		s, found := bk.GetSendEnabledEntry(c.ctx, e.denom(d))
		r.eq("there is a send enabled entry of "+d, ok, found)
		if ok {
			r.eq("send enabled entry of "+d, banktypes.SendEnabled{Denom: e.denom(d), Enabled: v}, s)
		}
	}
	se, err = bk.SendEnabled(c.ctx, &banktypes.QuerySendEnabledRequest{Denoms: append(names, "nosuchdenom")})
	if err != nil {
		r.differ("SendEnabled by name: %v", err)
	}
	got = map[string]bool{}
	for _, x := range se.SendEnabled {
		got[x.Denom] = x.Enabled
	}
	r.eq("send enabled entries by name", entries, got)
	got = map[string]bool{}
	for pg := (&query.PageRequest{Limit: 1}); ; {
		se, err = bk.SendEnabled(c.ctx, &banktypes.QuerySendEnabledRequest{Pagination: pg})
		if err != nil {
			r.differ("SendEnabled by page: %v", err)
			break
		}
		for _, x := range se.SendEnabled {
			got[x.Denom] = x.Enabled
		}
		if se.Pagination == nil || len(se.Pagination.NextKey) == 0 || len(got) > len(entries) {
			break
		}
		pg = &query.PageRequest{Key: se.Pagination.NextKey, Limit: 1}
	}
	r.eq("send enabled entries by page", entries, got)
	prm, err := bk.Params(c.ctx, &banktypes.QueryParamsRequest{})
	if err != nil {
		r.differ("Params: %v", err)
	} else {
		r.eq("coins are sendable unless told otherwise", p.Dflt, prm.Params.DefaultSendEnabled)
	}
	r.eq("factory nonce", int(e.f0)+p.NFac, c.nonceOf(c.ctx, e.factory))
	fac, err := q.ERC20Factory(c.ctx, &evmtypes.QueryERC20FactoryRequest{})
	if err != nil {
		r.differ("ERC20Factory: %v", err)
	} else {
		r.eq("the factory", e.factory.Hex(), common.HexToAddress(fac.Address).Hex())
	}
	wrp, err := q.ERC20Wrapper(c.ctx, &evmtypes.QueryERC20WrapperRequest{})
	if err != nil {
		r.differ("ERC20Wrapper: %v", err)
	} else {
		r.eq("the wrapper", e.wrapper.Hex(), common.HexToAddress(wrp.Address).Hex())
	}
}

func sendEnabled(se fn[bool], dflt bool, d string) bool {
	if v, ok := se[d]; ok {
		return v
	}
	return dflt
}

func ledgerRun(t *testing.T, s any, line []byte, r *rep) {
	base := s.(*ledgerEnv)
	var steps []lStep
	if err := json.Unmarshal(line, &steps); err != nil {
		panic(err)
	}
	e := *base
	e.env = base.env.branch()
	e.hung.say = map[string]sdk.AccAddress{}
	con := fn[string]{"stake": "G"}
	for i := range steps {
		r.step = i
		r.res.Steps++
		x := &steps[i]
		if x.Op.A == "reimport" {
			r.count("reimport.true")
			if d := e.env.reimport(); d != "" {
				r.differ("%s", d)
			}
			r.eq("export and import succeed", x.OK, true)
			e.bank = bankkeeper.NewMsgServerImpl(*e.app.BankKeeper)
			e.hang()
			e.compare(r, e.env, x)
			continue
		}
		c := e.env.branch()
		ctx, write := e.ctx.CacheContext()
		c.ctx = ctx.WithGasMeter(storetypes.NewGasMeter(1_000_000_000_000_000)).WithEventManager(sdk.NewEventManager())
		e.hung.asked = nil
		err := e.do(c, &x.Op, con)
		r.count(x.Op.A + "." + fmt.Sprint(x.OK))
		if x.OK != (err == nil) {
			r.differ("%s succeeds: specification %v, code %v (%v)", x.Op.A, x.OK, err == nil, err)
		}
		if x.Op.R == "no" {
			r.count("refused")
		} else if x.OK && err == nil && x.Op.R != "" {
			e.sent(r, c, &x.Op)
		}
		if err == nil && x.Skip {
			write()
			con["T.0"] = "T.0"
		} else if err == nil {
			write()
			e.compare(r, e.env, x)
			con = x.Post.Con
		}
	}
}

func init() { families["ledger"] = family{ledgerSetup, ledgerRun} }
