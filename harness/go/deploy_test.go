package zzverif

// Driver for spec/Deploy.tla: deployments of contracts.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"testing"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/crypto"

	bankkeeper "github.com/initia-labs/minievm/x/bank/keeper"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

type dpStep struct {
	Op struct {
		A   string `json:"a"`
		W   string `json:"w"`
		How string `json:"how"`
		P   string `json:"p"`
		V   int64  `json:"v"`
		S   uint64 `json:"s"`
		ACL bool   `json:"acl"`
		X   string `json:"x"`
		Via string `json:"via"`
		K   int    `json:"k"`
	} `json:"op"`
	OK   bool   `json:"ok"`
	Made string `json:"made"`
	Post struct {
		Nonce fn[uint64] `json:"nonce"`
		At    fn[struct {
			Code  string `json:"code"`
			Store int    `json:"store"`
			Nonce int    `json:"nonce"`
		}] `json:"at"`
		Bal fn[int64] `json:"bal"`
	} `json:"post"`
}

type deployEnv struct {
	*env
	acc  map[string]sdk.AccAddress
	base map[string]uint64 // nonces at the beginning
	seq  uint64            // of LO's own account
	num  map[common.Address]uint64
}

var deployHeir = evmAddr(userAddr(90))

// deployCode: keeps the number it is called with, or destructs itself
func deployCode(p string) []byte {
	a := newAsm().op(opCALLDATASIZE, opISZERO).jumpi("stop").op(0x5f, 0x35, opDUP1).push(0xdead).op(opEQ).jumpi("kill").op(0x5f, opSSTORE, opSTOP)
	return a.label("kill").op(0x73).op(deployHeir.Bytes()...).op(opSELFDESTRUCT).label("stop").op(opSTOP).op(p[0]).bytes()
}

func deployInit(p string) []byte {
	rt, a := deployCode(p), newAsm()
	switch p {
	case "V":
		return a.push(0).push(0).op(opREVERT).bytes()
	case "I":
		return a.op(opINVALID).bytes()
	case "E":
		return a.op(opSTOP).bytes()
	case "D":
		// a place where nothing is kept, not even by one that was destructed before
		return a.push(0).op(opSLOAD).jumpi("kept").push(7).push(0).op(opSSTORE).op(0x73).op(deployHeir.Bytes()...).op(opSELFDESTRUCT).
			label("kept").op(opINVALID).bytes()
	case "X":
		return a.push(0xef).push(0).op(opMSTORE8).push(1).push(0).op(opRETURN).bytes()
	case "G":
		return a.push(24577).push(0).op(opRETURN).bytes()
	case "S":
		a.push(7).push(0).op(opSSTORE)
	case "O":
		c := deployInit("A")
		a.push(len(c)).pushLabel("child").push(0).op(opCODECOPY).push(len(c)).push(0).push(0).op(opCREATE, opPOP).mark("child0")
		a.push(len(rt)).pushLabel("rt").push(0).op(opCODECOPY).push(len(rt)).push(0).op(opRETURN)
		return a.mark("child").op(c...).mark("rt").op(rt...).bytes()
	}
	return a.push(len(rt)).pushLabel("rt").push(0).op(opCODECOPY).push(len(rt)).push(0).op(opRETURN).mark("rt").op(rt...).bytes()
}

// deployFactory: creates with the salt, the value and the program that it is called with; without salt for 0xffff
func deployFactory() []byte {
	a := newAsm().push(64).op(opCALLDATASIZE, opSUB).push(64).push(0).op(opCALLDATACOPY)
	a.push(0xffff).push(0).op(0x35, opEQ).jumpi("create")
	a.push(0).op(0x35).push(64).op(opCALLDATASIZE, opSUB).push(0).push(32).op(0x35, opCREATE2).jump("end")
	a.label("create").push(64).op(opCALLDATASIZE, opSUB).push(0).push(32).op(0x35, opCREATE)
	return a.label("end").push(0).op(opMSTORE).push(32).push(0).op(opRETURN).bytes()
}

func deploySetup(t *testing.T) any {
	e := &deployEnv{env: newEnv(t), acc: map[string]sdk.AccAddress{}, base: map[string]uint64{}}
	e.acc["U1"], e.acc["U2"], e.acc["W"], e.acc["LO"], e.acc["Z"] = userAddr(1), userAddr(2), userAddr(5), bytes.Repeat([]byte{0xbb}, 32), deployHeir.Bytes()
	e.acc["M"] = e.deploy(userAddr(3), puppetInit(nil)).Bytes()
	e.acc["F"] = e.deploy(userAddr(3), initOf(deployFactory())).Bytes()
	for _, a := range []string{"U1", "U2", "LO", "M", "F"} {
		e.fund(e.acc[a], "stake", 6)
		e.base[a] = e.nonceOf(e.ctx, evmAddr(e.acc[a]))
	}
	e.fund(e.acc["W"], "stake", 20)
	if acc := e.app.AccountKeeper.GetAccount(e.ctx, e.acc["LO"]); acc != nil {
		e.seq = acc.GetSequence()
	}
	return e
}

// place is the address of a place
func (e *deployEnv) place(x string) common.Address {
	if p, ok := strings.CutPrefix(x, "k/"); ok {
		return crypto.CreateAddress(e.place(p), 1)
	}
	s := strings.Split(x, "/")
	k, err := strconv.ParseUint(s[2], 10, 64)
	if err != nil {
		panic(err)
	}
	w := evmAddr(e.acc[s[1]])
	if s[0] == "c" {
		return crypto.CreateAddress(w, e.base[s[1]]+k)
	}
	salt := [32]byte{}
	big.NewInt(int64(k)).FillBytes(salt[:])
	return crypto.CreateAddress2(w, salt, crypto.Keccak256(deployInit(s[3])))
}

func (e *deployEnv) holder(x string) common.Address {
	if a, ok := e.acc[x]; ok {
		return evmAddr(a)
	}
	return e.place(x)
}

func (e *deployEnv) do(c *env, x *dpStep, r *rep) error {
	op := &x.Op
	switch op.A {
	case "make":
		if op.W == "F" {
			salt := int(op.S)
			if op.How == "create" {
				salt = 0xffff
			}
			code := deployInit(op.P)
			if op.P == "none" || op.P == "bad" {
				code = []byte{0xfe, 0x01}
			}
			res, err := c.call(c.ctx, e.acc["W"], evmAddr(e.acc["F"]), append(append(w(salt), w(int(op.V))...), code...), 0)
			if err != nil {
				return err
			}
			want := common.Address{}
			if x.Made != "" {
				want = e.place(x.Made)
			}
			r.eq("what the creation answers", want.Hex(), common.BigToAddress(words(res.Result)[0]).Hex())
			return nil
		}
		code := hexutil.Encode(deployInit(op.P))
		switch op.P {
		case "none":
			code = ""
		case "bad":
			code = code[:len(code)-1]
		}
		var acl []evmtypes.AccessTuple
		if op.ACL {
			acl = []evmtypes.AccessTuple{{Address: evmAddr(e.acc["U2"]).Hex(), StorageKeys: []string{common.Hash{}.Hex(), common.Hash{31: 5}.Hex()}}, {Address: e.place(op.X).Hex()}}
		}
		sender := e.acc[op.W].String()
		if op.W == "M" {
			m := map[string]any{"@type": "/minievm.evm.v1.MsgCreate", "sender": sender, "code": code, "value": fmt.Sprint(op.V), "access_list": []any{}}
			if op.ACL {
				m["access_list"] = []any{map[string]any{"address": acl[0].Address, "storage_keys": acl[0].StorageKeys}}
			}
			if op.How == "create2" {
				m["@type"], m["salt"] = "/minievm.evm.v1.MsgCreate2", fmt.Sprint(op.S)
			}
			b, _ := json.Marshal(m)
			_, err := c.call(c.ctx, e.acc["W"], evmAddr(e.acc["M"]),
				(&script{}).call(kCall, true, 0, evmtypes.CosmosPrecompileAddress, 0, pack(cosmosABI, "execute_cosmos", string(b))).b, 0)
			return err
		}
		var a, result string
		if op.How == "create" {
			next, err := c.k.NextContractAddress(c.ctx, evmAddr(e.acc[op.W]))
			if err != nil {
				r.differ("next contract address: %v", err)
			}
			r.eq("the next contract address", e.place(op.X).Hex(), next.Hex())
			res, err := c.ms.Create(c.ctx, &evmtypes.MsgCreate{Sender: sender, Code: code, Value: math.NewInt(op.V), AccessList: acl})
			if err != nil {
				return err
			}
			a, result = res.ContractAddr, res.Result
		} else {
			res, err := c.ms.Create2(c.ctx, &evmtypes.MsgCreate2{Sender: sender, Code: code, Salt: op.S, Value: math.NewInt(op.V), AccessList: acl})
			if err != nil {
				return err
			}
			a, result = res.ContractAddr, res.Result
		}
		if x.Made != "" {
			r.eq("the address of the new contract", e.place(x.Made).Hex(), common.HexToAddress(a).Hex())
			want := "0x"
			if op.P != "E" && op.P != "D" {
				want = hexutil.Encode(deployCode(op.P))
			}
			r.eq("the code that the response tells", want, result)
		}
		return nil
	case "pay":
		to := e.place(op.X)
		if op.Via == "bank" {
			m := &banktypes.MsgSend{FromAddress: e.acc["W"].String(), ToAddress: sdk.AccAddress(to.Bytes()).String(), Amount: sdk.Coins{sdk.NewInt64Coin("stake", op.V)}}
			_, err := bankkeeper.NewMsgServerImpl(*c.app.BankKeeper).Send(c.ctx, m)
			return err
		}
		_, err := c.call(c.ctx, e.acc["W"], to, nil, op.V)
		return err
	case "poke":
		_, err := c.call(c.ctx, e.acc["W"], e.place(op.X), w(op.K), 0)
		return err
	case "kill":
		_, err := c.call(c.ctx, e.acc["W"], e.place(op.X), w(0xdead), 0)
		return err
	}
	panic("op " + op.A)
}

func (e *deployEnv) compare(r *rep, x *dpStep) {
	q := evmkeeper.NewQueryServer(e.k)
	for m, n := range x.Post.Nonce {
		r.eq("nonce of "+m, e.base[m]+n, e.nonceOf(e.ctx, evmAddr(e.acc[m])))
	}
	if n, used := x.Post.Nonce["LO"]; used && n > 0 {
		r.eq("sequence of LO", e.seq+n, e.app.AccountKeeper.GetAccount(e.ctx, e.acc["LO"]).GetSequence())
	}
	for h, n := range x.Post.Bal {
		r.eq("coins of "+h, n, e.app.BankKeeper.GetBalance(e.ctx, e.holder(h).Bytes(), "stake").Amount)
	}
	for p, s := range x.Post.At {
		a := e.place(p)
		res, err := q.Code(e.ctx, &evmtypes.QueryCodeRequest{ContractAddr: a.Hex()})
		want := "0x"
		if s.Code != "" {
			want = hexutil.Encode(deployCode(s.Code))
			if err != nil {
				r.differ("code of %s: %v", p, err)
			}
		}
		got := "0x"
		if err == nil && res.Code != "" {
			got = res.Code
		}
		r.eq("code of "+p, want, got)
		r.eq("number kept by "+p, s.Store, e.sload(a, 0))
		acc := e.app.AccountKeeper.GetAccount(e.ctx, a.Bytes())
		if acc == nil {
			r.eq("nonce of "+p, s.Nonce, 0)
			delete(e.num, a)
			continue
		}
		r.eq("nonce of "+p, s.Nonce, acc.GetSequence())
		_, isContract := acc.(*evmtypes.ContractAccount)
		r.eq(p+" is a contract account", s.Nonce > 0, isContract)
		if n, known := e.num[a]; known {
			r.eq("number of the account "+p, n, acc.GetAccountNumber())
		}
		e.num[a] = acc.GetAccountNumber()
	}
	seen := map[uint64]common.Address{}
	for a, n := range e.num {
		if b, twice := seen[n]; twice {
			r.differ("accounts %s and %s have the same number %d", a, b, n)
		}
		seen[n] = a
	}
}

func deployRun(t *testing.T, s any, line []byte, r *rep) {
	base := s.(*deployEnv)
	var steps []dpStep
	if err := json.Unmarshal(line, &steps); err != nil {
		panic(err)
	}
	e := *base
	e.env = base.env.branch()
	e.num = map[common.Address]uint64{}
	for i := range steps {
		r.step = i
		r.res.Steps++
		x := &steps[i]
		if x.Op.A == "reimport" {
			r.count("reimport")
			d := e.env.reimport()
			if d != "" {
				r.differ("%s", d)
			}
			r.eq("export and import succeed", x.OK, d == "")
			e.compare(r, x)
			continue
		}
		done := x.OK
		if x.Op.A == "make" {
			done = x.Made != ""
			r.count(x.Op.W + "." + x.Op.How + "." + fmt.Sprint(done))
			r.count(x.Op.P + "." + fmt.Sprint(done))
			if x.Op.ACL {
				r.count("acl." + fmt.Sprint(done))
			}
			if x.Op.P == "D" && done {
				delete(e.num, e.place(x.Op.X))
			}
		} else {
			r.count(x.Op.A + x.Op.Via + "." + fmt.Sprint(x.OK))
		}
		c := e.env.branch()
		ctx, write := e.ctx.CacheContext()
		c.ctx = ctx.WithGasMeter(storetypes.NewGasMeter(1_000_000_000_000)).WithEventManager(sdk.NewEventManager())
		err := e.do(c, x, r)
		if x.OK != (err == nil) {
			r.differ("%+v succeeds: specification %v, code %v (%v)", x.Op, x.OK, err == nil, err)
		}
		if err == nil {
			write()
		}
		e.compare(r, x)
	}
}

func init() { families["deploy"] = family{deploySetup, deployRun} }
