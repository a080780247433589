package zzverif

// Driver for spec/Views.tla: what programs are told by the views of the cosmos
// precompile, in transactions, in queries of the present and of the past, and
// in many of both at the same time.

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"

	"cosmossdk.io/math"
	tmproto "github.com/cometbft/cometbft/proto/tendermint/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/crypto"

	connecttypes "github.com/skip-mev/connect/v2/pkg/types"
	marketmaptypes "github.com/skip-mev/connect/v2/x/marketmap/types"
	oracletypes "github.com/skip-mev/connect/v2/x/oracle/types"

	"github.com/initia-labs/minievm/app"
	evmconfig "github.com/initia-labs/minievm/x/evm/config"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

type vwPrice struct {
	P     string `json:"p"`
	V     int64  `json:"v"`
	Nonce int64  `json:"nonce"`
	Id    int64  `json:"id"`
}

type vwAsk struct {
	R struct {
		K string   `json:"k"`
		X string   `json:"x"`
		L []string `json:"l"`
	} `json:"r"`
	How string `json:"how"`
	Ans struct {
		Ok bool      `json:"ok"`
		X  string    `json:"x"`
		Ps []vwPrice `json:"ps"`
		Ns []string  `json:"ns"`
	} `json:"ans"`
}

type vwStep struct {
	A     string    `json:"a"`
	Ok    bool      `json:"ok"`
	P     string    `json:"p"`
	New   bool      `json:"new"`
	V     int64     `json:"v"`
	D     string    `json:"d"`
	By    string    `json:"by"`
	I     int       `json:"i"`
	Prog  []vwAsk   `json:"prog"`
	Progs [][]vwAsk `json:"progs"`
}

type vwEnv struct {
	t   *testing.T
	c   *chain
	n   int
	who map[string]common.Address
	tok map[string]common.Address // contracts of coins
	at  []int64                   // heights of the worlds
}

func vwSetup(t *testing.T) any { return &vwEnv{t: t} }

const (
	vwGas    = 200_000 // of an ask
	vwRounds = 12      // of each program in a storm
)

// fresh starts a chain.
func (e *vwEnv) fresh() {
	if e.c != nil {
		closeCaches(e.c.app)
	}
	cfg := evmconfig.DefaultEVMConfig()
	cfg.ContractSimulationGasLimit = 100_000_000
	e.c = newChain(e.t, chainOpt{evmcfg: cfg, appOpts: idxOptions(), genesis: func(a *app.MinitiaApp, g map[string]json.RawMessage) {
		g[oracletypes.ModuleName] = a.AppCodec().MustMarshalJSON(oracletypes.NewGenesisState(nil, 0))
		var m marketmaptypes.GenesisState
		a.AppCodec().MustUnmarshalJSON(g[marketmaptypes.ModuleName], &m)
		m.MarketMap.Markets = nil
		g[marketmaptypes.ModuleName] = a.AppCodec().MustMarshalJSON(&m)
	}})
	c, long := e.c, longKey()
	// an account of a long address, which has acted
	some := func(n int64) sdk.Coins { return sdk.NewCoins(sdk.NewInt64Coin("stake", n)) }
	c.run(c.faucet, &banktypes.MsgSend{FromAddress: c.faucet.acc().String(), ToAddress: long.acc().String(), Amount: some(1_000_000)})
	c.run(long, &evmtypes.MsgCall{Sender: long.acc().String(), ContractAddr: c.faucet.evm().Hex(), Input: "0x", Value: math.ZeroInt()})
	e.who = map[string]common.Address{
		"U": c.faucet.evm(), "M": common.BytesToAddress(authtypes.NewModuleAddress(authtypes.FeeCollectorName)),
		"S": long.evm(), "N": common.HexToAddress("0x00000000000000000000000000000000beef0001"), "F1": evmtypes.CosmosPrecompileAddress,
		"P": crypto.CreateAddress(c.faucet.evm(), c.seq(c.faucet.acc())),
	}
	c.run(c.faucet, &evmtypes.MsgCreate{Sender: c.faucet.acc().String(), Code: hexutil.Encode(puppetInit(nil)), Value: math.ZeroInt()})
	e.tok, e.at = map[string]common.Address{}, []int64{c.height}
	e.n = 0
}

// change changes the world.
func (e *vwEnv) change(f func(sdk.Context) error) error {
	c := e.c
	err := f(c.app.NewUncachedContext(false, tmproto.Header{Height: c.height, Time: blockTime(c.height), ChainID: chainID}))
	c.block(nil)
	e.at = append(e.at, c.height)
	return err
}

func (e *vwEnv) request(a vwAsk) []byte {
	r := a.R
	query := func(path string, req any) []byte {
		s, ok := req.(string)
		if !ok {
			s = string(must(json.Marshal(req)))
		}
		if !strings.HasPrefix(path, "/") {
			path = "/connect.oracle.v2.Query/" + path
		}
		return pack(cosmosABI, "query_cosmos", path, s)
	}
	switch r.K {
	case "blocked":
		return pack(cosmosABI, "is_blocked_address", e.who[r.X])
	case "module":
		return pack(cosmosABI, "is_module_address", e.who[r.X])
	case "tocosmos":
		return pack(cosmosABI, "to_cosmos_address", e.who[r.X])
	case "toevm":
		u := sdk.AccAddress(e.who["U"].Bytes())
		s := u.String()
		typo := []byte(s)
		typo[10] = map[bool]byte{true: 'p', false: 'q'}[typo[10] == 'q']
		return pack(cosmosABI, "to_evm_address", map[string]string{"plain": s, "upper": strings.ToUpper(s), "empty": "", "typo": string(typo),
			"valoper": sdk.ValAddress(u).String(), "long": sdk.AccAddress(append(u, make([]byte, 12)...)).String()}[r.X])
	case "todenom":
		if w, ok := e.who[r.X]; ok {
			return pack(cosmosABI, "to_denom", w)
		}
		return pack(cosmosABI, "to_denom", e.tok[r.X])
	case "toerc20":
		d := map[string]string{"evm.P": "evm/" + e.who["P"].Hex()[2:], "evm.N": "evm/" + e.who["N"].Hex()[2:], "evm.bad": "evm/xyz", "none": "unone"}[r.X]
		if d == "" {
			d = r.X
		}
		return pack(cosmosABI, "to_erc20", d)
	case "price":
		return query("GetPrice", map[string]any{"currency_pair": r.X})
	case "prices":
		return query("GetPrices", map[string]any{"currency_pair_ids": r.L})
	case "pairs":
		return query("GetAllCurrencyPairs", "{}")
	case "unknown":
		return []byte{1, 2, 3, 4, 5}
	}
	p := r.L[0]
	switch r.X {
	case "unlisted":
		return query("/cosmos.bank.v1beta1.Query/Params", "{}")
	case "noroute":
		return query("/none", "{}")
	case "cut":
		return query("GetPrices", `{"currency_pair_ids":["`+p+`"`)
	case "extra":
		return query("GetPrices", `{"currency_pair_ids":["`+p+`"],"more":1}`)
	case "type":
		return query("GetPrices", `{"currency_pair_ids":"`+p+`"}`)
	case "one":
		return query("GetPrice", `{"currency_pair":"`+p+`","more":1}`)
	case "nopair":
		return query("GetPrices", `{"currency_pair_ids":["`+p+`","nopair"]}`)
	}
	panic("request " + r.K + r.X)
}

// vwCode is code with data after it.
type vwCode struct {
	*asm
	labels []string
	data   [][]byte
}

func (a *vwCode) add(data []byte) string {
	l := fmt.Sprint("data", len(a.data))
	a.labels, a.data = append(a.labels, l), append(a.data, data)
	return l
}

func (a *vwCode) end() []byte {
	for i, l := range a.labels {
		a.mark(l).op(a.data[i]...)
	}
	return a.bytes()
}

func push3(a *asm, v int) *asm { return a.op(0x62, byte(v>>16), byte(v>>8), byte(v)) }

// ask emits a request and leaves in memory whether it was answered, and how.
func (e *vwEnv) ask(a *vwCode, req []byte, how string) {
	a.push(len(req)).pushLabel(a.add(req)).push(0)
	a.op(opCODECOPY).push(0).push(0).push(len(req)).push(0)
	if how != "static" {
		a.push(0)
	}
	a.push(0xf1)
	if how == "poor" {
		a.push(50)
	} else {
		push3(a.asm, vwGas)
	}
	a.op(map[bool]byte{true: opSTATICCALL, false: opCALL}[how == "static"])
	a.push(0).op(opMSTORE8).op(opRETSIZE).push(0).push(1).op(opRETCOPY)
}

// program is the code that makes the requests and logs the answers.
func (e *vwEnv) program(prog []vwAsk) []byte {
	a := &vwCode{asm: newAsm()}
	for _, x := range prog {
		req := e.request(x)
		if x.How != "frame" {
			e.ask(a, req, x.How)
			a.op(opRETSIZE).push(1).op(opADD).push(0).op(0xa0)
			continue
		}
		sub := &vwCode{asm: newAsm()}
		e.ask(sub, req, "call")
		sub.op(opRETSIZE).push(1).op(opADD).push(0).op(opREVERT)
		code := sub.end()
		a.push(len(code)).pushLabel(a.add(code)).push(0).op(opCODECOPY).push(len(code)).push(0).push(0).op(opCREATE, opPOP)
		a.op(opRETSIZE).push(0).push(0).op(opRETCOPY).op(opRETSIZE).push(0).op(0xa0)
	}
	a.op(opSTOP)
	return a.end()
}

// told reads an answer, in the words of the specification.
func (e *vwEnv) told(a vwAsk, data []byte) string {
	if len(data) == 0 {
		return "no answer"
	}
	if data[0] == 0 {
		return "fail"
	}
	method := map[string]string{"blocked": "is_blocked_address", "module": "is_module_address", "tocosmos": "to_cosmos_address", "toevm": "to_evm_address",
		"todenom": "to_denom", "toerc20": "to_erc20", "price": "query_cosmos", "prices": "query_cosmos", "pairs": "query_cosmos", "bad": "query_cosmos"}[a.R.K]
	out, err := cosmosABI.Unpack(method, data[1:])
	if err != nil || len(out) != 1 {
		return fmt.Sprintf("answer %x", data)
	}
	if method != "query_cosmos" {
		return fmt.Sprint(out[0])
	}
	s := out[0].(string)
	type price struct {
		Price struct {
			Price string `json:"price"`
		} `json:"price"`
		Nonce, Decimals, ID string
	}
	var p price
	var all struct {
		Prices []price `json:"prices"`
		Pairs  []struct{ Base, Quote string }
	}
	tell := func(p price) string {
		return fmt.Sprintf("%s nonce %s id %s decimals %s", p.Price.Price, p.Nonce, p.ID, p.Decimals)
	}
	switch a.R.K {
	case "price":
		if json.Unmarshal([]byte(s), &p) != nil {
			return s
		}
		return tell(p)
	case "prices":
		if json.Unmarshal([]byte(s), &all) != nil {
			return s
		}
		l := []string{}
		for _, p := range all.Prices {
			l = append(l, tell(p))
		}
		return strings.Join(l, ", ")
	case "pairs":
		var x struct {
			L []struct{ Base, Quote string } `json:"currency_pairs"`
		}
		if json.Unmarshal([]byte(s), &x) != nil {
			return s
		}
		l := []string{}
		for _, p := range x.L {
			l = append(l, p.Base+"/"+p.Quote)
		}
		sort.Strings(l)
		return strings.Join(l, ", ")
	}
	return s
}

func (e *vwEnv) want(a vwAsk) string {
	if !a.Ans.Ok {
		return "fail"
	}
	l := []string{}
	switch a.R.K {
	case "tocosmos":
		return sdk.AccAddress(e.who[a.Ans.X].Bytes()).String()
	case "toevm":
		return e.who[a.Ans.X].Hex()
	case "todenom":
		if w, ok := strings.CutPrefix(a.Ans.X, "evm."); ok {
			return "evm/" + e.who[w].Hex()[2:]
		}
		return a.Ans.X
	case "toerc20":
		if d, ok := strings.CutPrefix(a.Ans.X, "tok."); ok {
			return e.tok[d].Hex()
		}
		return e.who[a.Ans.X].Hex()
	case "price", "prices":
		for _, p := range a.Ans.Ps {
			l = append(l, fmt.Sprintf("%d nonce %d id %d decimals 8", p.V, p.Nonce, p.Id))
		}
	case "pairs":
		l = append(l, a.Ans.Ns...)
		sort.Strings(l)
	default:
		return a.Ans.X
	}
	return strings.Join(l, ", ")
}

// compare compares what a program has logged with what it should have been told.
func (e *vwEnv) compare(prog []vwAsk, logs []evmtypes.Log) error {
	if len(logs) != len(prog) {
		return fmt.Errorf("%d answers of %d", len(logs), len(prog))
	}
	for i, a := range prog {
		if w, g := e.want(a), e.told(a, hexutil.MustDecode(logs[i].Data)); w != g {
			return fmt.Errorf("request %d, %v: specification %s, code %s", i, a, w, g)
		}
	}
	return nil
}

// query runs a program on the state of a height.
func (e *vwEnv) query(h int64, prog []vwAsk) (err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("panic: %v", x)
		}
	}()
	ctx, err := e.c.app.CreateQueryContext(h, false)
	if err != nil {
		return err
	}
	res, err := evmkeeper.NewQueryServer(e.c.app.EVMKeeper).Call(ctx, &evmtypes.QueryCallRequest{Sender: e.c.faucet.acc().String(), Input: hexutil.Encode(e.program(prog)), Value: math.ZeroInt()})
	if err != nil {
		return err
	}
	if res.Error != "" {
		return fmt.Errorf("the program fails: %s", res.Error)
	}
	return e.compare(prog, res.Logs)
}

// txs runs programs in the transactions of a block.
func (e *vwEnv) txs(progs [][]vwAsk) error {
	c := e.c
	var raw [][]byte
	for i, p := range progs {
		m := &evmtypes.MsgCreate{Sender: c.faucet.acc().String(), Code: hexutil.Encode(e.program(p)), Value: math.ZeroInt()}
		raw = append(raw, c.encode(c.sign(cosTx{msgs: []sdk.Msg{m}, signers: []key{c.faucet}, seqs: []uint64{c.seq(c.faucet.acc()) + uint64(i)}, gas: 50_000_000}).GetTx()))
	}
	for i, r := range c.block(raw).TxResults {
		if r.Code != 0 {
			return fmt.Errorf("the program fails: %s", r.Log)
		}
		var d sdk.TxMsgData
		var m evmtypes.MsgCreateResponse
		if err := d.Unmarshal(r.Data); err != nil || len(d.MsgResponses) != 1 || m.Unmarshal(d.MsgResponses[0].Value) != nil {
			return fmt.Errorf("response %x", r.Data)
		}
		if err := e.compare(progs[i], m.Logs); err != nil {
			return err
		}
	}
	return nil
}

func vwRun(t *testing.T, se any, line []byte, r *rep) {
	e := se.(*vwEnv)
	var steps []vwStep
	if err := json.Unmarshal(line, &steps); err != nil {
		t.Fatal(err)
	}
	e.fresh()
	c := e.c
	for i, s := range steps {
		r.step = i
		r.res.Steps++
		var err error
		switch s.A {
		case "price":
			cp := must(connecttypes.CurrencyPairFromString(s.P))
			err = e.change(func(ctx sdk.Context) error {
				if s.New {
					return c.app.OracleKeeper.CreateCurrencyPair(ctx, cp)
				}
				return c.app.OracleKeeper.SetPriceForCurrencyPair(ctx, cp, oracletypes.QuotePrice{Price: math.NewInt(s.V), BlockTimestamp: ctx.BlockTime(), BlockHeight: uint64(ctx.BlockHeight())})
			})
			r.count(fmt.Sprint("price.", s.New))
		case "mint":
			err = e.change(func(ctx sdk.Context) error {
				return c.app.EVMKeeper.ERC20Keeper().MintCoins(ctx, c.faucet.acc(), sdk.NewCoins(sdk.NewInt64Coin(s.D, 5)))
			})
			if err == nil {
				e.tok[s.D] = must(evmtypes.DenomToContractAddr(c.ctx(), c.app.EVMKeeper, s.D))
			}
			r.count("mint")
		case "run":
			for _, a := range s.Prog {
				r.count(fmt.Sprintf("%s.%v", a.R.K, a.Ans.Ok))
				r.count("how." + a.How)
			}
			if s.By == "tx" {
				err = e.txs([][]vwAsk{s.Prog})
			} else {
				err = e.query(e.at[s.I-1], s.Prog)
			}
			r.count(fmt.Sprintf("run.%s.%v", s.By, s.I == len(e.at)))
		case "storm":
			err = e.storm(s.Progs)
			r.count("storm")
		}
		r.eq(fmt.Sprintf("%s %+v: %v", s.A, s.P+s.D+s.By, err), s.Ok, err == nil)
	}
}

// storm runs programs many times at the same time, while they also run in blocks.
func (e *vwEnv) storm(progs [][]vwAsk) error {
	errs := make(chan error, len(progs)+1)
	var wg sync.WaitGroup
	h := e.c.height
	for _, p := range progs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for range vwRounds {
				if err := e.query(h, p); err != nil {
					errs <- fmt.Errorf("in a query, among others: %w", err)
					return
				}
			}
		}()
	}
	for range 2 {
		if err := e.txs(progs); err != nil {
			errs <- fmt.Errorf("in a block, among queries: %w", err)
			break
		}
	}
	wg.Wait()
	close(errs)
	return <-errs
}

func init() { families["views"] = family{vwSetup, vwRun} }
