package zzverif

// Driver for spec/Collections.tla: NFT classes and tokens.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"testing"

	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"

	erc721 "github.com/initia-labs/minievm/x/evm/contracts/ics721_erc721"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

var nftABI = mustABI(erc721.Ics721Erc721MetaData.GetAbi())

type cOp struct {
	A   string   `json:"a"`
	C   string   `json:"c"`
	U   string   `json:"u"`
	F   string   `json:"f"`
	T   string   `json:"t"`
	W   string   `json:"w"`
	ID  string   `json:"id"`
	IDs []string `json:"ids"`
	Us  []string `json:"us"`
	On  bool     `json:"on"`
}

type cStep struct {
	Op   cOp  `json:"op"`
	OK   bool `json:"ok"`
	Post struct {
		Made fn[int]    `json:"made"`
		URI  fn[string] `json:"uri"`
		Toks []struct {
			C    string `json:"c"`
			ID   string `json:"id"`
			Own  string `json:"own"`
			URI  string `json:"uri"`
			Appr string `json:"appr"`
		} `json:"toks"`
		Ops [][]string `json:"ops"`
	} `json:"post"`
}

type collEnv struct {
	*env
	acc  map[string]sdk.AccAddress
	x1   common.Address
	con  map[string]common.Address // contracts of the classes seen
	seen map[string]map[string]bool
}

func collSetup(t *testing.T) any {
	e := &collEnv{env: newEnv(t), acc: map[string]sdk.AccAddress{}}
	e.acc["U1"], e.acc["U2"] = userAddr(1), userAddr(2)
	e.acc["LO"] = bytes.Repeat([]byte{0xbb}, 32)
	e.acc["P"] = e.deploy(userAddr(3), puppetInit(nil)).Bytes()
	e.acc["N"] = make([]byte, 20)
	e.x1 = e.deploy(e.acc["U1"], append(hexutil.MustDecode(erc721.Ics721Erc721Bin), argsOf(nftABI, "x1", "x1")...))
	return e
}

// class: the class id of a specification class
func (e *collEnv) class(c string) string {
	if c == "X1" {
		return "evm/" + e.x1.Hex()[2:]
	}
	return c
}

func (e *collEnv) act(c *env, f string, to common.Address, input []byte) error {
	var err error
	if f == "P" {
		_, err = c.call(c.ctx, e.acc["U1"], evmAddr(e.acc["P"]), (&script{}).call(kCall, true, 0, to, 0, input).b, 0)
	} else {
		_, err = c.call(c.ctx, e.acc[f], to, input, 0)
	}
	return err
}

func tokenInt(class, id string) *big.Int {
	n, ok := evmtypes.TokenIdToBigInt(class, id)
	if !ok {
		panic("token " + id)
	}
	return n
}

func (e *collEnv) do(c *env, op *cOp) error {
	k := c.k.ERC721Keeper()
	id := e.class(op.C)
	a := func(n string) common.Address { return evmAddr(e.acc[n]) }
	num := func() *big.Int { return tokenInt(id, op.ID) }
	switch op.A {
	case "class":
		return k.CreateOrUpdateClass(c.ctx, id, op.U, "data")
	case "mints":
		return k.Mints(c.ctx, e.acc[op.T], id, op.IDs, op.Us, make([]string, len(op.IDs)))
	case "transfers":
		return k.Transfers(c.ctx, e.acc[op.F], e.acc[op.T], id, op.IDs)
	case "burns":
		return k.Burns(c.ctx, e.acc[op.F], id, op.IDs)
	}
	con := e.con[op.C]
	switch op.A {
	case "transfer":
		return e.act(c, op.W, con, pack(nftABI, "transferFrom", a(op.F), a(op.T), num()))
	case "safetransfer":
		return e.act(c, op.W, con, pack(nftABI, "safeTransferFrom", a(op.F), a(op.T), num()))
	case "burn":
		return e.act(c, op.W, con, pack(nftABI, "burn", num()))
	case "mint":
		return e.act(c, op.W, con, pack(nftABI, "mint", a(op.T), num(), op.U, "origin"))
	case "approve":
		return e.act(c, op.W, con, pack(nftABI, "approve", a(op.T), num()))
	case "operator":
		return e.act(c, op.W, con, pack(nftABI, "setApprovalForAll", a(op.T), op.On))
	}
	panic("op " + op.A)
}

func (e *collEnv) view(c *env, to common.Address, m string, args ...any) (any, error) {
	b, err := c.k.EVMStaticCall(c.ctx, evmtypes.NullAddress, to, pack(nftABI, m, args...), nil)
	if err != nil {
		return nil, err
	}
	out, err := nftABI.Unpack(m, b)
	if err != nil {
		panic(err)
	}
	return out[0], nil
}

func (e *collEnv) compare(r *rep, c *env, s *cStep) {
	p := &s.Post
	k := c.k.ERC721Keeper()
	// classes
	listed := map[string]bool{}
	if err := c.k.ERC721ContractAddrsByClassId.Walk(c.ctx, nil, func(id string, _ []byte) (bool, error) { listed[id] = true; return false, nil }); err != nil {
		panic(err)
	}
	want := map[string]bool{}
	taken := map[common.Address]string{}
	for cl := range p.Made {
		id := e.class(cl)
		if cl != "X1" {
			want[id] = true
		}
		a, err := evmtypes.ContractAddressFromClassId(c.ctx, c.k, id)
		if err != nil {
			r.differ("contract of class %s: %v", cl, err)
		}
		if o, ok := taken[a]; ok {
			r.differ("classes %s and %s share a contract", cl, o)
		}
		taken[a] = cl
		if old, ok := e.con[cl]; ok {
			r.eq("contract of class "+cl, old, a)
		}
		e.con[cl] = a
		back, err := evmtypes.ClassIdFromCollectionAddress(c.ctx, c.k, a)
		if err != nil {
			r.differ("class of contract %s: %v", a, err)
		}
		r.eq("class of the contract of "+cl, id, back)
		name, uri, _, err := k.GetClassInfo(c.ctx, id)
		if err != nil {
			r.differ("information on class %s: %v", cl, err)
		}
		if cl == "X1" {
			r.eq("name of class X1", "x1", name)
		} else {
			r.eq("name of class "+cl, id, name)
		}
		r.eq("uri of class "+cl, p.URI[cl], uri)
	}
	r.eq("known classes", want, listed)
	// tokens
	type own struct{ own, uri, appr string }
	toks := map[string]map[string]own{}
	count := map[string]map[string]int{}
	for _, t := range p.Toks {
		if toks[t.C] == nil {
			toks[t.C], count[t.C] = map[string]own{}, map[string]int{}
		}
		toks[t.C][t.ID] = own{t.Own, t.URI, t.Appr}
		count[t.C][t.Own]++
		if e.seen[t.C] == nil {
			e.seen[t.C] = map[string]bool{}
		}
		e.seen[t.C][t.ID] = true
	}
	for cl := range p.Made {
		id, con := e.class(cl), e.con[cl]
		for tid := range e.seen[cl] {
			w, exists := toks[cl][tid]
			got, err := c.k.ERC721Keeper().(*evmkeeper.ERC721Keeper).OwnerOf(c.ctx, tid, id)
			r.eq(fmt.Sprintf("existence of %s in %s", tid, cl), exists, err == nil)
			direct, err := e.view(c, con, "ownerOf", tokenInt(id, tid))
			r.eq(fmt.Sprintf("existence of %s in the contract of %s", tid, cl), exists, err == nil)
			if !exists {
				continue
			}
			r.eq(fmt.Sprintf("owner of %s in %s", tid, cl), evmAddr(e.acc[w.own]), got)
			r.eq(fmt.Sprintf("owner of %s in the contract of %s", tid, cl), evmAddr(e.acc[w.own]), direct)
			appr, err := e.view(c, con, "getApproved", tokenInt(id, tid))
			if err != nil {
				r.differ("getApproved: %v", err)
			}
			r.eq(fmt.Sprintf("approved for %s in %s", tid, cl), evmAddr(e.acc[w.appr]), appr)
			uris, _, err := k.GetTokenInfos(c.ctx, id, []string{tid})
			if err != nil {
				r.differ("information on %s in %s: %v", tid, cl, err)
			}
			r.eq(fmt.Sprintf("uri of %s in %s", tid, cl), []string{w.uri}, uris)
			if cl != "X1" {
				o, err := e.view(c, con, "tokenOriginId", tokenInt(id, tid))
				if err != nil {
					r.differ("tokenOriginId: %v", err)
				}
				r.eq(fmt.Sprintf("origin of %s in %s", tid, cl), tokenInt(id, tid), tokenInt(id, o.(string)))
			}
		}
		for n, a := range e.acc {
			if n == "N" {
				continue
			}
			got, err := c.k.ERC721Keeper().(*evmkeeper.ERC721Keeper).BalanceOf(c.ctx, a, id)
			if err != nil {
				r.differ("balance: %v", err)
			}
			r.eq(fmt.Sprintf("number of tokens of %s in %s", n, cl), count[cl][n], got)
		}
	}
	ops := map[string]bool{}
	for _, o := range p.Ops {
		ops[fmt.Sprint(o)] = true
	}
	for cl := range p.Made {
		for n := range e.acc {
			for m := range e.acc {
				if n == "N" || m == "N" {
					continue
				}
				got, err := e.view(c, e.con[cl], "isApprovedForAll", evmAddr(e.acc[n]), evmAddr(e.acc[m]))
				if err != nil {
					r.differ("isApprovedForAll: %v", err)
				}
				r.eq(fmt.Sprintf("%s is an operator of %s in %s", m, n, cl), ops[fmt.Sprint([]string{cl, n, m})], got)
			}
		}
	}
}

func collRun(t *testing.T, s any, line []byte, r *rep) {
	base := s.(*collEnv)
	var steps []cStep
	if err := json.Unmarshal(line, &steps); err != nil {
		panic(err)
	}
	e := *base
	e.env = base.env.branch()
	e.con = map[string]common.Address{"X1": e.x1}
	e.seen = map[string]map[string]bool{}
	for i := range steps {
		r.step = i
		r.res.Steps++
		x := &steps[i]
		if x.Op.A == "reimport" {
			r.count("reimport.true")
			if d := e.env.reimport(); d != "" {
				r.differ("%s", d)
			}
			r.eq("export and import succeed", x.OK, true)
			e.compare(r, e.env, x)
			continue
		}
		c := e.env.branch()
		ctx, write := e.ctx.CacheContext()
		c.ctx = ctx.WithGasMeter(storetypes.NewGasMeter(1_000_000_000_000_000)).WithEventManager(sdk.NewEventManager())
		err := e.do(c, &x.Op)
		r.count(x.Op.A + "." + fmt.Sprint(x.OK))
		if l := len(x.Op.IDs); l > 1 {
			r.count(x.Op.A + ".batch." + fmt.Sprint(x.OK))
		}
		if x.OK != (err == nil) {
			r.differ("%+v succeeds: specification %v, code %v (%v)", x.Op, x.OK, err == nil, err)
		}
		if err == nil {
			write()
			e.compare(r, e.env, x)
		}
	}
}

func init() { families["collections"] = family{collSetup, collRun} }
