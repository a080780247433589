package zzverif

// Driver for spec/EVMFrames.tla: every transaction of a behaviour becomes one
// real message (or query) whose script makes the puppets do exactly the
// recorded operations; outputs, logs and the whole projected state are compared.

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"testing"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/crypto"

	"github.com/initia-labs/minievm/x/evm/contracts/erc20"
	"github.com/initia-labs/minievm/x/evm/contracts/erc20_factory"
	"github.com/initia-labs/minievm/x/evm/contracts/i_cosmos"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

var (
	cosmosABI  = mustABI(i_cosmos.ICosmosMetaData.GetAbi())
	factoryABI = mustABI(erc20_factory.Erc20FactoryMetaData.GetAbi())
	erc20ABI   = mustABI(erc20.Erc20MetaData.GetAbi())
)

func mustABI(a *abi.ABI, err error) *abi.ABI {
	if err != nil {
		panic(err)
	}
	return a
}

func pack(a *abi.ABI, m string, args ...any) []byte {
	b, err := a.Pack(m, args...)
	if err != nil {
		panic(err)
	}
	return b
}

type fOp struct {
	O    string `json:"o"`
	K    int    `json:"k"`
	V    int    `json:"v"`
	S    int    `json:"s"`
	T    string `json:"t"`
	From string `json:"from"`
	Kind string `json:"kind"`
	KK   string `json:"kk"`
	Body bool   `json:"body"`
}

type fLog struct {
	K string `json:"k"`
	F string `json:"f"`
	T string `json:"t"`
	V int    `json:"v"`
}

type fTx struct {
	Kind  string   `json:"kind"`
	From  string   `json:"from"`
	To    string   `json:"to"`
	Value int      `json:"value"`
	Ops   []fOp    `json:"ops"`
	OK    bool     `json:"ok"`
	Out   []string `json:"out"`
	Logs  []fLog   `json:"logs"`
	Post  struct {
		St    fn[fn[int]] `json:"st"`
		Bal   fn[int]     `json:"bal"`
		Code  []string    `json:"code"`
		Nonce fn[int]     `json:"nonce"`
		Tok   fn[int]     `json:"tok"`
		NTok  int         `json:"ntok"`
		Burnt int         `json:"burnt"`
		Seen  []string    `json:"seen"`
	} `json:"post"`
}

type framesEnv struct {
	*env
	names    map[string]common.Address
	factory  common.Address
	f0       uint64
	tok      common.Address
	feeTok   common.Address
	tokDenom string
	supply   *big.Int
	nERC20   int
	init     []byte
	rt       []byte
}

const framesInitBal = 20

func framesSetup(t *testing.T) any {
	e := &framesEnv{env: newEnv(t), names: map[string]common.Address{}, init: puppetInit(nil), rt: puppetRuntime()}
	deployer := userAddr(1)
	for i, n := range []string{"U", "V", "W"} {
		a := userAddr(10 + i)
		e.names[n] = evmAddr(a)
		e.fund(a, "stake", framesInitBal)
	}
	for i, n := range []string{"R1", "R2"} {
		e.names[n] = evmAddr(userAddr(20 + i))
	}
	for _, n := range []string{"A", "B", "C"} {
		e.names[n] = e.deploy(deployer, e.init)
		e.fund(e.names[n].Bytes(), "stake", framesInitBal)
	}
	var err error
	if e.factory, err = e.k.GetERC20FactoryAddr(e.ctx); err != nil {
		panic(err)
	}
	if e.feeTok, err = evmtypes.DenomToContractAddr(e.ctx, e.k, "stake"); err != nil {
		panic(err)
	}
	// A creates the token and mints one to every puppet
	A := e.names["A"]
	res, err := e.call(e.ctx, deployer, A, (&script{}).call(kCall, true, 0, e.factory, 0, pack(factoryABI, "createERC20", "tok", "tok", uint8(6))).b, 0)
	if err != nil {
		panic(err)
	}
	e.tok = common.BigToAddress(words(res.Result)[1])
	s := &script{}
	for _, n := range []string{"A", "B", "C"} {
		s.call(kCall, true, 0, e.tok, 0, pack(erc20ABI, "mint", e.names[n], big.NewInt(1)))
	}
	if _, err := e.call(e.ctx, deployer, A, s.b, 0); err != nil {
		panic(err)
	}
	if e.tokDenom, err = evmtypes.ContractAddrToDenom(e.ctx, e.k, e.tok); err != nil {
		panic(err)
	}
	e.f0 = e.nonceOf(e.ctx, e.factory)
	e.supply = e.app.BankKeeper.GetSupply(e.ctx, "stake").Amount.BigInt()
	e.nERC20 = e.countERC20(e.ctx)
	return e
}

func (e *env) nonceOf(ctx sdk.Context, a common.Address) uint64 {
	if !e.app.AccountKeeper.HasAccount(ctx, a.Bytes()) {
		return 0
	}
	n, err := e.app.AccountKeeper.GetSequence(ctx, a.Bytes())
	if err != nil {
		panic(err)
	}
	return n
}

func (e *env) countERC20(ctx sdk.Context) int {
	n := 0
	if err := e.k.ERC20s.Walk(ctx, nil, func([]byte) (bool, error) { n++; return false, nil }); err != nil {
		panic(err)
	}
	return n
}

func (e *framesEnv) addr(n string) common.Address {
	if a, ok := e.names[n]; ok {
		return a
	}
	i := strings.LastIndexAny(n, ".@")
	if i < 0 {
		panic("name " + n)
	}
	k, err := strconv.Atoi(n[i+1:])
	if err != nil {
		panic(err)
	}
	var a common.Address
	switch {
	case n[:i] == "T":
		a = crypto.CreateAddress(e.factory, e.f0+uint64(k))
	case n[i] == '.':
		a = crypto.CreateAddress(e.addr(n[:i]), uint64(k))
	default:
		a = crypto.CreateAddress2(e.addr(n[:i]), common.BigToHash(big.NewInt(int64(k))), crypto.Keccak256(e.init))
	}
	e.names[n] = a
	return a
}

func sendJSON(from, to common.Address, denom string, n int) string {
	b, _ := json.Marshal(map[string]any{"@type": "/cosmos.bank.v1beta1.MsgSend", "from_address": bech(from.Bytes()), "to_address": bech(to.Bytes()),
		"amount": []any{map[string]any{"denom": denom, "amount": fmt.Sprint(n)}}})
	return string(b)
}

func callJSON(from, to common.Address, input []byte) string {
	b, _ := json.Marshal(map[string]any{"@type": "/minievm.evm.v1.MsgCall", "sender": bech(from.Bytes()), "contract_addr": to.Hex(),
		"input": hexutil.Encode(input), "value": "0", "access_list": []any{}})
	return string(b)
}

const tokGas, cosmosGas, factoryGas = 1_000_000, 1_000_000, 6_000_000

// compile turns the operations of one frame, starting at ops[i], into a script;
// it returns the index after the frame's last operation.
func (e *framesEnv) compile(ops []fOp, i int, static bool) ([]byte, int) {
	s := &script{}
	for {
		op := ops[i]
		i++
		switch op.O {
		case "ret":
			return s.b, i
		case "revert":
			return s.revert().b, i
		case "invalid":
			return s.invalid().b, i
		case "destruct":
			return s.destruct(e.addr(op.T)).b, i
		case "sstore":
			s.sstore(op.K, op.V)
			if static {
				return s.b, i
			}
		case "tstore":
			s.tstore(op.K, op.V)
			if static {
				return s.b, i
			}
		case "tcopy":
			s.tcopy(op.K)
			if static {
				return s.b, i
			}
		case "log":
			s.log(op.V)
			if static {
				return s.b, i
			}
		case "sload":
			s.sload(op.K)
		case "tload":
			s.tload(op.K)
		case "balance":
			s.balance(e.addr(op.T))
		case "codesize":
			s.codesize(e.addr(op.T))
		case "who":
			s.raw(psADDRESS).raw(psCALLER)
		case "call":
			kind := map[string]int{"call": kCall, "static": kStatic, "delegate": kDelegate}[op.Kind]
			var body []byte
			if op.Body {
				body, i = e.compile(ops, i, static || op.Kind == "static")
			}
			s.call(kind, false, 0, e.addr(op.T), op.V, body)
			if static && op.V != 0 {
				return s.b, i
			}
		case "create":
			var body []byte
			if op.Body {
				body, i = e.compile(ops, i, false)
			}
			s.create(op.V, puppetInit(body))
			if static {
				return s.b, i
			}
		case "create2":
			s.create2(op.V, op.S, e.init)
			if static {
				return s.b, i
			}
		case "tokmint":
			s.call(kCall, false, tokGas, e.tok, 0, pack(erc20ABI, "mint", e.addr(op.T), big.NewInt(1)))
		case "toksend":
			s.call(kCall, false, tokGas, e.tok, 0, pack(erc20ABI, "transfer", e.addr(op.T), big.NewInt(1)))
		case "newtok":
			s.call(kCall, false, factoryGas, e.factory, 0, pack(factoryABI, "createERC20", "new", "new", uint8(6)))
		case "execsend", "execforeign":
			s.call(kCall, false, cosmosGas, evmtypes.CosmosPrecompileAddress, 0, pack(cosmosABI, "execute_cosmos", sendJSON(e.addr(op.From), e.addr(op.T), "stake", op.V)))
		case "execkind":
			kind := map[string]int{"static": kStatic, "delegate": kDelegate}[op.Kind]
			s.call(kind, false, cosmosGas, evmtypes.CosmosPrecompileAddress, 0, pack(cosmosABI, "execute_cosmos", sendJSON(e.addr(op.From), e.addr(op.T), "stake", op.V)))
		case "execcall":
			in := (&script{}).sstore(op.K, op.V)
			if op.KK == "tcall" {
				in = (&script{}).tcopy(op.K)
			}
			s.call(kCall, false, cosmosGas, evmtypes.CosmosPrecompileAddress, 0, pack(cosmosABI, "execute_cosmos", callJSON(e.addr(op.From), e.addr(op.T), in.b)))
		default:
			panic("op " + op.O)
		}
	}
}

// expected output bytes of a specification output
func (e *framesEnv) output(out []string) string {
	var b []byte
	for _, o := range out {
		if n, err := strconv.Atoi(o); err == nil {
			b = append(b, w(n)...)
		} else if o == "CODE" {
			b = append(b, w(len(e.rt))...)
		} else {
			b = append(b, w(e.addr(o))...)
		}
	}
	return hexutil.Encode(b)
}

func (e *framesEnv) eqOut(r *rep, x *fTx, got string) {
	r.res.Checks++
	want := e.output(x.Out)
	if want == got {
		return
	}
	ws := words(got)
	for i := 0; i < len(ws) || i < len(x.Out); i++ {
		wa, ga := "-", "-"
		if i < len(x.Out) {
			wa = x.Out[i]
		}
		if i < len(ws) {
			ga = common.BigToHash(ws[i]).Hex()
		}
		if i >= len(ws) || i >= len(x.Out) || e.output(x.Out[i:i+1]) != ga {
			r.differ("output word %d: specification %s, code %s (specification %v)", i, wa, ga, x.Out)
		}
	}
	r.differ("output: specification %v, code %s", x.Out, got)
}

func (e *framesEnv) nameOf(a common.Address, known []string) string {
	for _, n := range known {
		if e.addr(n) == a {
			return n
		}
	}
	return a.Hex()
}

var ownershipTopic = crypto.Keccak256Hash([]byte("OwnershipTransferred(address,address)"))
var transferTopic = crypto.Keccak256Hash([]byte("Transfer(address,address,uint256)"))

// projectLogs keeps the puppets' own logs, transfers of native value, and
// token transfers, in order.
func (e *framesEnv) projectLogs(logs []evmtypes.Log, known []string) []string {
	out := []string{}
	for _, l := range logs {
		a := common.HexToAddress(l.Address)
		switch {
		case a == e.feeTok:
			if len(l.Topics) != 3 || common.HexToHash(l.Topics[0]) != transferTopic {
				continue
			}
			f, t := common.HexToAddress(l.Topics[1]), common.HexToAddress(l.Topics[2])
			if f == (common.Address{}) || t == (common.Address{}) {
				continue
			}
			out = append(out, fmt.Sprintf("x %s %s %s", e.nameOf(f, known), e.nameOf(t, known), new(big.Int).SetBytes(hexutil.MustDecode(l.Data))))
		case a == e.tok:
			if len(l.Topics) != 3 || common.HexToHash(l.Topics[0]) != transferTopic {
				continue
			}
			f, t := common.HexToAddress(l.Topics[1]), common.HexToAddress(l.Topics[2])
			from := e.nameOf(f, known)
			if f == (common.Address{}) {
				from = ""
			}
			out = append(out, fmt.Sprintf("t %s %s %s", from, e.nameOf(t, known), new(big.Int).SetBytes(hexutil.MustDecode(l.Data))))
		case a == e.factory:
			out = append(out, "n   1")
		case common.HexToHash(l.Topics[0]) == ownershipTopic: // of a new token
		default:
			if len(l.Topics) != 1 || l.Data != l.Topics[0] {
				out = append(out, fmt.Sprintf("odd %v", l))
				continue
			}
			n := e.nameOf(a, known)
			if strings.HasPrefix(n, "0x") {
				continue
			}
			out = append(out, fmt.Sprintf("l %s  %s", n, common.HexToHash(l.Topics[0]).Big()))
		}
	}
	return out
}

func (e *framesEnv) wantLogs(logs []fLog) []string {
	out := []string{}
	for _, l := range logs {
		out = append(out, fmt.Sprintf("%s %s %s %d", l.K, l.F, l.T, l.V))
	}
	return out
}

// eventLogs returns the logs carried by the events, in order.
func eventLogs(evs sdk.Events) []evmtypes.Log {
	var out []evmtypes.Log
	for _, ev := range evs {
		if ev.Type != evmtypes.EventTypeEVM {
			continue
		}
		for _, a := range ev.Attributes {
			if a.Key != evmtypes.AttributeKeyLog {
				continue
			}
			var l evmtypes.Log
			if err := json.Unmarshal([]byte(a.Value), &l); err != nil {
				panic(err)
			}
			out = append(out, l)
		}
	}
	return out
}

// state projects the real state.
func (e *framesEnv) compareState(r *rep, c *env, x *fTx, known []string) {
	p := &x.Post
	code := map[string]bool{}
	for _, n := range p.Code {
		code[n] = true
	}
	tokSum := 0
	for _, n := range known {
		a := e.addr(n)
		puppet := n[0] != 'U' && n[0] != 'V' && n[0] != 'R' || strings.ContainsAny(n, ".@")
		if puppet {
			for k := 1; k <= 2; k++ {
				r.eq(fmt.Sprintf("storage of %s at %d", n, k), p.St[n][strconv.Itoa(k)], c.sload(a, k))
			}
		}
		r.eq("balance of "+n, p.Bal[n], c.app.BankKeeper.GetBalance(c.ctx, a.Bytes(), "stake").Amount)
		r.eq("token balance of "+n, p.Tok[n], c.app.BankKeeper.GetBalance(c.ctx, a.Bytes(), e.tokDenom).Amount)
		r.eq("nonce of "+n, p.Nonce[n], c.nonceOf(c.ctx, a))
		res, err := evmkeeper.NewQueryServer(c.k).Code(c.ctx, &evmtypes.QueryCodeRequest{ContractAddr: a.Hex()})
		if err != nil {
			panic(err)
		}
		want := "0x"
		if code[n] {
			want = hexutil.Encode(e.rt)
		}
		if res.Code != want {
			r.differ("code of %s: specification %v, code has %d bytes", n, code[n], len(res.Code)/2-1)
		}
		tokSum += p.Tok[n]
		// the listing agrees with the single balances
		all := c.app.BankKeeper.GetAllBalances(c.ctx, a.Bytes())
		r.eq("listed balance of "+n, p.Bal[n], all.AmountOf("stake"))
		r.eq("listed token balance of "+n, p.Tok[n], all.AmountOf(e.tokDenom))
	}
	r.eq("native supply", new(big.Int).Sub(e.supply, big.NewInt(int64(p.Burnt))), c.app.BankKeeper.GetSupply(c.ctx, "stake").Amount)
	r.eq("token supply", tokSum, c.app.BankKeeper.GetSupply(c.ctx, e.tokDenom).Amount)
	r.eq("registered tokens", p.NTok, e.countERC20(c.ctx)-e.nERC20)
	for i := 0; i < p.NTok; i++ {
		a := e.addr(fmt.Sprintf("T.%d", i))
		has, err := c.k.ERC20s.Has(c.ctx, a.Bytes())
		if err != nil || !has {
			r.differ("token %d of the factory is not registered", i)
		}
	}
	r.eq("factory nonce", int(e.f0)+p.NTok, c.nonceOf(c.ctx, e.factory))
}

func framesRun(t *testing.T, s any, line []byte, r *rep) {
	base := s.(*framesEnv)
	var txs []fTx
	if err := json.Unmarshal(line, &txs); err != nil {
		panic(err)
	}
	e := *base
	e.env = base.env.branch()
	for i := range txs {
		r.step = i
		r.res.Steps++
		x := &txs[i]
		known := append([]string{"U", "V", "A", "B", "C", "R1", "R2"}, x.Post.Seen...)
		sort.Strings(known)
		if x.Kind == "reimport" {
			r.count("reimport.true")
			if d := e.env.reimport(); d != "" {
				r.differ("%s", d)
			}
			e.compareState(r, e.env, x, known)
			continue
		}
		body, _ := e.compile(x.Ops, 0, false)
		for _, o := range x.Ops {
			r.count("op." + o.O)
		}
		r.count("tx." + x.Kind + "." + fmt.Sprint(x.OK))
		c := e.env.branch()
		ctx, write := e.ctx.CacheContext()
		c.ctx = ctx.WithGasMeter(storetypes.NewGasMeter(1_000_000_000_000_000)).WithEventManager(sdk.NewEventManager())
		from, to := e.addr(x.From), e.addr(x.To)
		var err error
		var logs []evmtypes.Log
		switch x.Kind {
		case "call":
			var res *evmtypes.MsgCallResponse
			res, err = c.call(c.ctx, from.Bytes(), to, body, int64(x.Value))
			if err == nil {
				logs = res.Logs
				if x.OK {
					e.eqOut(r, x, res.Result)
				}
			}
		case "create":
			var res *evmtypes.MsgCreateResponse
			res, err = c.ms.Create(c.ctx, &evmtypes.MsgCreate{Sender: bech(from.Bytes()), Code: hexutil.Encode(puppetInit(body)), Value: math.NewInt(int64(x.Value))})
			if err == nil {
				logs = res.Logs
				if x.OK {
					r.eq("created address", to.Hex(), res.ContractAddr)
				}
			}
		case "query", "qcreate":
			req := &evmtypes.QueryCallRequest{Sender: bech(from.Bytes()), ContractAddr: to.Hex(), Input: hexutil.Encode(body), Value: math.NewInt(int64(x.Value))}
			if x.Kind == "qcreate" {
				req.ContractAddr = ""
				req.Input = hexutil.Encode(puppetInit(body))
			}
			var res *evmtypes.QueryCallResponse
			res, err = evmkeeper.NewQueryServer(c.k).Call(c.ctx, req)
			if err == nil && res.Error != "" {
				err = fmt.Errorf("%s", res.Error)
			}
			if err == nil {
				logs = res.Logs
				if x.OK && x.Kind == "query" {
					e.eqOut(r, x, res.Response)
				}
			}
		default:
			panic("kind " + x.Kind)
		}
		if x.OK != (err == nil) {
			r.differ("%s succeeds: specification %v, code %v (%v)", x.Kind, x.OK, err == nil, err)
		}
		query := strings.HasPrefix(x.Kind, "q")
		if err == nil {
			r.eq("logs", e.wantLogs(x.Logs), e.projectLogs(logs, known))
			if !query {
				ev := eventLogs(c.ctx.EventManager().Events())
				if len(ev) < len(logs) {
					r.differ("events carry %d logs, the response %d", len(ev), len(logs))
				}
				for j := range logs {
					r.eq("log in the events", logs[j], ev[j])
				}
			}
		}
		// a query is compared before its context is dropped: it must not have
		// written anything
		if err == nil || query {
			write()
		}
		e.compareState(r, e.env, x, known)
	}
}

func init() { families["frames"] = family{framesSetup, framesRun} }
