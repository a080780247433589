package zzverif

// Driver for spec/ChainParams.tla: parameters, and what contracts see.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"
	"time"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/query"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/crypto"
	"golang.org/x/crypto/sha3"

	custombanktypes "github.com/initia-labs/initia/x/bank/types"

	bankkeeper "github.com/initia-labs/minievm/x/bank/keeper"
	evmante "github.com/initia-labs/minievm/x/evm/ante"
	"github.com/initia-labs/minievm/x/evm/contracts/erc20"
	"github.com/initia-labs/minievm/x/evm/contracts/initia_erc20"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

type pName struct {
	A string `json:"a"`
	S string `json:"s"`
}

type pParams struct {
	Pubs   []pName `json:"pubs"`
	Allow  bool    `json:"allow"`
	Ercs   []pName `json:"ercs"`
	Denom  string  `json:"denom"`
	Ratio  int64   `json:"ratio"`
	Retain uint64  `json:"retain"`
	Eips   []int64 `json:"eips"`
}

type pScaled struct {
	M int64 `json:"m"`
	E int64 `json:"e"`
}

func (s pScaled) big() *big.Int {
	return new(big.Int).Mul(big.NewInt(s.M), new(big.Int).Exp(big.NewInt(10), big.NewInt(s.E), nil))
}

type paStep struct {
	Op struct {
		A   string  `json:"a"`
		K   int     `json:"k"`
		DT  int     `json:"dt"`
		W   string  `json:"w"`
		T   string  `json:"t"`
		V   int64   `json:"v"`
		Via string  `json:"via"`
		GP  pScaled `json:"gp"`
		P   pParams `json:"p"`
		How string  `json:"how"`
		S   string  `json:"s"`
		Z   uint64  `json:"z"`
		C   string  `json:"c"`
		M   int64   `json:"m"`
	} `json:"op"`
	OK   bool `json:"ok"`
	Post struct {
		H     int64         `json:"h"`
		Now   int64         `json:"now"`
		Par   pParams       `json:"par"`
		Bal   fn[fn[int64]] `json:"bal"`
		Made  fn[int]       `json:"made"`
		Price fn[pScaled]   `json:"price"`
		Meta  fn[int]       `json:"meta"`
		Base  pScaled       `json:"base"`
	} `json:"post"`
	X struct {
		Asked    asked   `json:"asked"`
		GasPrice pScaled `json:"gasprice"`
	} `json:"x"`
}

// asked: height -> visible; TLC prints a function over 1..n as an array
type asked map[string]bool

func (a *asked) UnmarshalJSON(b []byte) error { return (*fn[bool])(a).UnmarshalJSON(b) }

type paramEnv struct {
	*env
	acc   map[string]sdk.AccAddress
	den   map[string]string
	look  common.Address // tells what it runs in
	proxy common.Address // calls look
	addrs []common.Address
	sup   map[string]string
	h     int64
	now   int64
}

const maxAsked = 12

func lookCode() []byte {
	c := []byte{}
	at := func(op byte, off int) { c = append(c, op, 0x61, byte(off>>8), byte(off), 0x52) }
	for i, op := range []byte{0x43, 0x42, 0x46, 0x44, 0x32, 0x33, 0x41, 0x48, 0x3a} {
		at(op, 32*i)
	}
	for i := 0; i < maxAsked; i++ {
		c = append(c, 0x61, byte(32*i>>8), byte(32*i), 0x35) // calldata word
		at(0x40, 32*(9+i))
	}
	n := 32 * (9 + maxAsked)
	return append(c, 0x61, byte(n>>8), byte(n), 0x5f, 0xf3)
}

// initOf is init code for given code
func initOf(code []byte) []byte {
	return append([]byte{0x61, byte(len(code) >> 8), byte(len(code)), 0x80, 0x60, 0x0b, 0x5f, 0x39, 0x5f, 0xf3, 0x00}, code...)
}

func hashOf(height int64) common.Hash {
	return crypto.Keccak256Hash([]byte(fmt.Sprintf("block %d", height)))
}

func paramSetup(t *testing.T) any {
	e := &paramEnv{env: newEnv(t), acc: map[string]sdk.AccAddress{}, den: map[string]string{}, sup: map[string]string{}}
	e.acc["U1"], e.acc["U2"] = userAddr(1), userAddr(2)
	e.acc["LO"] = bytes.Repeat([]byte{0xbb}, 32)
	e.acc["P"] = e.deploy(userAddr(3), puppetInit(nil)).Bytes()
	e.look = e.deploy(userAddr(3), initOf(lookCode()))
	e.proxy = e.deploy(userAddr(3), initOf(append(append([]byte{0x36, 0x5f, 0x5f, 0x37, 0x5f, 0x5f, 0x36, 0x5f, 0x5f, 0x73}, e.look.Bytes()...),
		0x5a, 0xf1, 0x50, 0x3d, 0x5f, 0x5f, 0x3e, 0x3d, 0x5f, 0xf3)))
	evm := func(a common.Address) string { return "evm/" + a.Hex()[2:] }
	e.den["stake"], e.den["ubar"], e.den[""], e.den["unknown"] = "stake", "ubar", "", "unknown"
	e.den["evm.none"] = "evm/00000000000000000000000000000000deadbeef"
	e.den["evm.text"] = "evm/zz"
	e.den["evm.puppet"] = evm(evmAddr(e.acc["P"]))
	e.den["evm.revert"] = evm(e.deploy(userAddr(3), initOf([]byte{0x5f, 0x5f, 0xfd})))
	e.den["evm.plain"] = evm(e.deploy(userAddr(3), append(hexutil.MustDecode(initia_erc20.InitiaErc20Bin), argsOf(initiaABI, "plain", "plain", uint8(6))...)))
	for n, d := range map[string]uint8{"K6": 6, "K17": 17} {
		e.den[n] = evm(e.deploy(userAddr(3), append(hexutil.MustDecode(erc20.Erc20Bin), argsOf(initiaABI, n, n, d)...)))
	}
	for _, d := range []string{"stake", "ubar", "K6", "K17"} {
		for _, a := range []string{"U1", "U2", "LO", "P"} {
			if d[0] == 'K' {
				if _, err := e.call(e.ctx, userAddr(3), common.HexToAddress(e.den[d][4:]), pack(erc20ABI, "mint", evmAddr(e.acc[a]), big.NewInt(5)), 0); err != nil {
					panic(err)
				}
				continue
			}
			e.fund(e.acc[a], e.den[d], 5)
		}
		e.sup[d] = e.app.BankKeeper.GetSupply(e.ctx, e.den[d]).Amount.String()
	}
	return e
}

// name: how an address is written
func (e *paramEnv) name(n pName) string {
	s := e.acc[n.A].String()
	switch n.S {
	case "low":
	case "up":
		s = strings.ToUpper(s)
	case "mixed":
		s = strings.ToUpper(s[:1]) + s[1:]
	case "hex":
		s = evmAddr(e.acc[n.A]).Hex()
	case "short":
		s = evmAddr(e.acc[n.A]).Hex()[:40]
	case "text":
		s = "someone"
	case "none":
		s = ""
	default:
		panic("spelling " + n.S)
	}
	return s
}

func (e *paramEnv) params(p *pParams) evmtypes.Params {
	out := evmtypes.Params{AllowCustomERC20: p.Allow, FeeDenom: e.den[p.Denom], NumRetainBlockHashes: p.Retain, ExtraEIPs: p.Eips}
	for _, n := range p.Pubs {
		out.AllowedPublishers = append(out.AllowedPublishers, e.name(n))
	}
	for _, n := range p.Ercs {
		out.AllowedCustomERC20s = append(out.AllowedCustomERC20s, e.name(n))
	}
	if p.Ratio != 7777 {
		out.GasRefundRatio = math.LegacyNewDecWithPrec(p.Ratio, 3)
	}
	return out
}

// the context of the running block
func (e *paramEnv) block() {
	e.ctx = e.ctx.WithBlockHeight(e.h).WithBlockTime(time.Unix(e.now, 0)).WithHeaderHash(nil)
	if e.h > 1 {
		h := hashOf(e.h - 1)
		e.ctx = e.ctx.WithHeaderHash(h[:])
	}
}

func (e *paramEnv) do(c *env, x *paStep, r *rep) (err error) {
	op := &x.Op
	switch op.A {
	case "look":
		input, hs := e.ask(x)
		caller, origin := e.acc[op.W], evmAddr(e.acc[op.W])
		var out []*big.Int
		switch op.Via {
		case "static":
			b, err := c.k.EVMStaticCall(c.ctx, origin, e.look, input, nil)
			if err != nil {
				return err
			}
			out = words(hexutil.Encode(b))
		default:
			to := e.look
			if op.Via == "nested" {
				to = e.proxy
			}
			if op.GP.M > 0 {
				c.ctx = c.ctx.WithValue(evmante.ContextKeyGasPrices, sdk.DecCoins{sdk.NewDecCoinFromDec(e.den[x.Post.Par.Denom], math.LegacyNewDecWithPrec(op.GP.M, op.GP.E))})
			}
			res, err := c.call(c.ctx, caller, to, input, 0)
			if err != nil {
				return err
			}
			out = words(res.Result)
		}
		if len(out) != 9+maxAsked {
			r.differ("looking returned %d words", len(out))
		}
		hx := func(v *big.Int) string { return common.BigToHash(v).Hex() }
		by := origin
		if op.Via == "nested" {
			by = e.proxy
		}
		random := common.Hash{}
		if e.h > 1 {
			random = hashOf(e.h - 1)
		}
		d := sha3.NewLegacyKeccak256()
		d.Write([]byte(c.ctx.ChainID()))
		id := new(big.Int).Mod(new(big.Int).SetBytes(d.Sum(nil)[:8]), big.NewInt(4503599627370476))
		r.eq("the number of the block", e.h, out[0])
		r.eq("the time of the block", e.now, out[1])
		r.eq("the chain", id, out[2])
		r.eq("the random number", random.Hex(), hx(out[3]))
		r.eq("the origin", origin.Hex(), common.BigToAddress(out[4]).Hex())
		r.eq("the caller", by.Hex(), common.BigToAddress(out[5]).Hex())
		r.eq("the coinbase", 0, out[6])
		r.eq("the base fee", x.Post.Base.big(), out[7])
		r.eq("the gas price", x.X.GasPrice.big(), out[8])
		for i, h := range hs {
			want := common.Hash{}
			if x.X.Asked[fmt.Sprint(h)] {
				want = hashOf(h)
				r.count("seen")
			} else {
				r.count("unseen")
			}
			r.eq(fmt.Sprintf("the hash of block %d seen in block %d", h, e.h), want.Hex(), hx(out[9+i]))
		}
	case "update":
		auth := c.k.GetAuthority()
		if op.W != "AU" {
			auth = e.acc[op.W].String()
		}
		defer func() {
			if x := recover(); x != nil {
				err = fmt.Errorf("panic: %v", x)
			}
		}()
		_, err = c.ms.UpdateParams(c.ctx, &evmtypes.MsgUpdateParams{Authority: auth, Params: e.params(&op.P)})
	case "create":
		code := hexutil.Encode([]byte{0x60, 0x01, 0x5f, 0xf3})
		sender := e.name(pName{op.W, op.S})
		if op.W == "P" {
			m := map[string]any{"@type": "/minievm.evm.v1.MsgCreate", "sender": sender, "code": code, "value": "0", "access_list": []any{}}
			if op.How == "create2" {
				m["@type"], m["salt"] = "/minievm.evm.v1.MsgCreate2", fmt.Sprint(op.Z)
			}
			b, _ := json.Marshal(m)
			_, err = c.call(c.ctx, e.acc["U1"], evmAddr(e.acc["P"]),
				(&script{}).call(kCall, true, 0, evmtypes.CosmosPrecompileAddress, 0, pack(cosmosABI, "execute_cosmos", string(b))).b, 0)
			return err
		}
		var a string
		if op.How == "create" {
			var res *evmtypes.MsgCreateResponse
			if res, err = c.ms.Create(c.ctx, &evmtypes.MsgCreate{Sender: sender, Code: code, Value: math.ZeroInt()}); err == nil {
				a = res.ContractAddr
			}
		} else {
			var res *evmtypes.MsgCreate2Response
			if res, err = c.ms.Create2(c.ctx, &evmtypes.MsgCreate2{Sender: sender, Code: code, Salt: op.Z, Value: math.ZeroInt()}); err == nil {
				a = res.ContractAddr
			}
		}
		if err == nil {
			q, qerr := evmkeeper.NewQueryServer(c.k).Code(c.ctx, &evmtypes.QueryCodeRequest{ContractAddr: a})
			if qerr != nil {
				r.differ("code of the created contract: %v", qerr)
			}
			r.eq("code of the created contract", "0x00", q.Code)
		}
	case "pay":
		_, err = c.call(c.ctx, e.acc[op.W], evmAddr(e.acc[op.T]), nil, op.V)
	case "price":
		p, perr := c.app.OPChildKeeper.GetParams(c.ctx)
		if perr != nil {
			panic(perr)
		}
		g := sdk.DecCoins{}
		for d, m := range x.Post.Price {
			if m.M > 0 {
				g = append(g, sdk.NewDecCoinFromDec(e.den[d], math.LegacyNewDecWithPrec(m.M, m.E)))
			}
		}
		p.MinGasPrices = g.Sort()
		if err := c.app.OPChildKeeper.SetParams(c.ctx, p); err != nil {
			panic(err)
		}
	case "describe":
		auth := c.app.BankKeeper.GetAuthority()
		if op.W != "AU" {
			auth = e.acc[op.W].String()
		}
		_, err = bankkeeper.NewCustomMsgServerImpl(c.app.BankKeeper).SetDenomMetadata(c.ctx, &custombanktypes.MsgSetDenomMetadata{Authority: auth, Metadata: e.description(op.C, int(op.M))})
	default:
		panic("op " + op.A)
	}
	return err
}

// description of a coin: 1 to 3 are valid, the others break a rule each.
func (e *paramEnv) description(coin string, n int) banktypes.Metadata {
	d := e.den[coin]
	m := banktypes.Metadata{Name: fmt.Sprint(coin, " name ", n), Symbol: fmt.Sprint("S", n), Base: d, Display: d, Description: fmt.Sprint("text ", n),
		DenomUnits: []*banktypes.DenomUnit{{Denom: d}}, URI: fmt.Sprint("https://", n), URIHash: fmt.Sprint(n)}
	unit := func(name string, x uint32, aliases ...string) {
		m.DenomUnits = append(m.DenomUnits, &banktypes.DenomUnit{Denom: name, Exponent: x, Aliases: aliases})
	}
	switch n {
	case 1:
	case 2:
		unit("mid", 3, "a", "b")
		unit("big", 6)
		m.Display = "big"
	case 3:
		unit("big", 18)
	case 4:
		m.Name = " "
	case 5:
		m.Symbol = ""
	case 6:
		m.Display = "big"
	case 7:
		unit("big", 6)
		unit("mid", 3)
	case 8:
		m.DenomUnits[0].Exponent = 1
	case 9:
		unit("big", 6, "a", "a")
	}
	return m
}

// described: what is told of a coin: the description it was given or else that of its contract.
func (e *paramEnv) described(coin string, n int) (banktypes.Metadata, bool) {
	if n > 0 {
		return e.description(coin, n), true
	}
	d := e.den[coin]
	m := banktypes.Metadata{Name: d, Symbol: d, Base: d, Display: d, DenomUnits: []*banktypes.DenomUnit{{Denom: d}}}
	switch coin {
	case "unknown":
		return m, false
	case "K6", "K17":
		m.Name, m.Symbol = coin, coin
	case "ubar":
		m.Display = "bar"
		m.DenomUnits = append(m.DenomUnits, &banktypes.DenomUnit{Denom: "bar", Exponent: 6})
	}
	return m, true
}

func (e *paramEnv) ask(x *paStep) ([]byte, []int64) {
	var hs []int64
	for s := range x.X.Asked {
		var h int64
		if _, err := fmt.Sscan(s, &h); err != nil {
			panic(err)
		}
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	if len(hs) > maxAsked {
		panic("too many heights")
	}
	var in []byte
	for _, h := range hs {
		in = append(in, w(int(h))...)
	}
	return in, hs
}

func (e *paramEnv) compare(r *rep, c *env, x *paStep) {
	q := evmkeeper.NewQueryServer(c.k)
	res, err := q.Params(c.ctx, &evmtypes.QueryParamsRequest{})
	if err != nil {
		r.differ("parameters: %v", err)
	}
	r.eq("parameters", e.params(&x.Post.Par).String(), res.Params.String())
	for d, m := range x.Post.Bal {
		for a, n := range m {
			r.eq(fmt.Sprintf("%s of %s", d, a), n, c.app.BankKeeper.GetBalance(c.ctx, e.acc[a], e.den[d]).Amount)
		}
		r.eq("supply of "+d, e.sup[d], c.app.BankKeeper.GetSupply(c.ctx, e.den[d]).Amount)
		r.eq(d+" of the standard account", 0, c.app.BankKeeper.GetBalance(c.ctx, evmtypes.StdAddress.Bytes(), e.den[d]).Amount)
	}
	var all []string
	for d, n := range x.Post.Meta {
		want, ok := e.described(d, n)
		got, err := c.app.BankKeeper.DenomMetadata(c.ctx, &banktypes.QueryDenomMetadataRequest{Denom: e.den[d]})
		got2, err2 := c.app.BankKeeper.DenomMetadataByQueryString(c.ctx, &banktypes.QueryDenomMetadataByQueryStringRequest{Denom: e.den[d]})
		r.eq("there is a description of "+d, ok, err == nil)
		r.eq("there is a description of "+d+", asked as text", ok, err2 == nil)
		if err == nil && err2 == nil {
			r.eq("description of "+d, want.String(), got.Metadata.String())
			r.eq("description of "+d+", asked as text", want.String(), got2.Metadata.String())
		}
		stored, found := c.app.BankKeeper.GetDenomMetaData(c.ctx, e.den[d])
		r.eq("description of "+d+" is kept", n > 0, found)
		r.eq("description of "+d+" is kept", n > 0, c.app.BankKeeper.HasDenomMetaData(c.ctx, e.den[d]))
		if n > 0 {
			r.eq("kept description of "+d, want.String(), stored.String())
			all = append(all, want.String())
		}
	}
	sort.Strings(all)
	lists := map[string][]string{"": {}, " by query": {}, " page by page": {}}
	for _, m := range c.app.BankKeeper.GetAllDenomMetaData(c.ctx) {
		lists[""] = append(lists[""], m.String())
	}
	page := func(kind string, p *query.PageRequest) []byte {
		res, err := c.app.BankKeeper.DenomsMetadata(c.ctx, &banktypes.QueryDenomsMetadataRequest{Pagination: p})
		if err != nil {
			r.differ("descriptions: %v", err)
			return nil
		}
		for _, m := range res.Metadatas {
			lists[kind] = append(lists[kind], m.String())
		}
		return res.Pagination.NextKey
	}
	page(" by query", nil)
	for next, i := []byte(nil), 0; i == 0 || (len(next) > 0 && i < 50); i++ {
		next = page(" page by page", &query.PageRequest{Key: next, Limit: 1})
	}
	if len(all) > 1 {
		r.count("metapages")
	}
	for kind, l := range lists {
		sort.Strings(l)
		r.eq("all descriptions"+kind, fmt.Sprint(all), fmt.Sprint(l))
	}
	r.eq("nonce of P", 1+x.Post.Made["P"], c.nonceOf(c.ctx, evmAddr(e.acc["P"])))
	base, err := c.k.BaseFee(c.ctx)
	if err != nil {
		r.differ("base fee: %v", err)
	}
	r.eq("base fee", x.Post.Base.big(), base)
}

func paramRun(t *testing.T, s any, line []byte, r *rep) {
	base := s.(*paramEnv)
	var steps []paStep
	if err := json.Unmarshal(line, &steps); err != nil {
		panic(err)
	}
	e := *base
	e.env = base.env.branch()
	e.ctx = e.ctx.WithChainID(fmt.Sprintf("chain-%d", len(line)%7))
	e.h, e.now = 1, 100
	e.block()
	for i := range steps {
		r.step = i
		r.res.Steps++
		x := &steps[i]
		r.count(x.Op.A + "." + fmt.Sprint(x.OK))
		if x.Op.A == "blocks" {
			for j := 0; j < x.Op.K; j++ {
				e.h++
				e.now += int64(x.Op.DT)
				e.block()
				if _, err := e.app.PreBlocker(e.ctx, &abci.RequestFinalizeBlock{Height: e.h}); err != nil {
					r.differ("block %d: %v", e.h, err)
				}
			}
			r.eq("blocks pass", x.OK, true)
			r.eq("height", x.Post.H, e.h)
			r.eq("time", x.Post.Now, e.now)
			continue
		}
		if x.Op.A == "reimport" {
			id := e.ctx.ChainID()
			if d := e.env.reimport(); d != "" {
				r.differ("%s", d)
			}
			r.eq("export and import succeed", x.OK, true)
			e.ctx = e.ctx.WithChainID(id)
			e.block()
			e.compare(r, e.env, x)
			continue
		}
		if x.Op.A == "create" {
			r.count(x.Op.How + "." + x.Op.S + "." + fmt.Sprint(x.OK))
			r.count(x.Op.How + "." + x.Op.W + "." + fmt.Sprint(x.OK))
		}
		if x.Op.A == "update" {
			r.count("update." + x.Op.W + "." + fmt.Sprint(x.OK))
			r.count("update." + x.Op.P.Denom + "." + fmt.Sprint(x.OK))
		}
		if x.Op.A == "look" {
			r.count(x.Op.Via)
		}
		c := e.env.branch()
		ctx, write := e.ctx.CacheContext()
		c.ctx = ctx.WithGasMeter(storetypes.NewGasMeter(1_000_000_000_000_000)).WithEventManager(sdk.NewEventManager())
		err := e.do(c, x, r)
		if x.OK != (err == nil) {
			r.differ("%+v succeeds: specification %v, code %v (%v)", x.Op, x.OK, err == nil, err)
		}
		if err == nil {
			write()
		}
		e.compare(r, e.env, x)
	}
}

func init() { families["chainparams"] = family{paramSetup, paramRun} }
