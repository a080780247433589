package zzverif

// Driver for spec/IbcHooks.tla: packets over IBC and the EVM hooks.
//
// Both ends of the channels are on this chain, over its connection to itself.
// The far end plays the other chain: its packets and acknowledgements are
// written into the store directly, and delivered by the messages of relayers.

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"testing"
	"time"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/address"
	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
	clienttypes "github.com/cosmos/ibc-go/v8/modules/core/02-client/types"
	channeltypes "github.com/cosmos/ibc-go/v8/modules/core/04-channel/types"
	ibcexported "github.com/cosmos/ibc-go/v8/modules/core/exported"
	localhost "github.com/cosmos/ibc-go/v8/modules/light-clients/09-localhost"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/crypto"

	hookstypes "github.com/initia-labs/initia/x/ibc-hooks/types"
	nfttypes "github.com/initia-labs/initia/x/ibc/nft-transfer/types"

	erc721 "github.com/initia-labs/minievm/x/evm/contracts/ics721_erc721"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

type iMemo struct {
	K     string `json:"k"`
	C     string `json:"c"`
	Style string `json:"style"`
	Recv  string `json:"recv"`
	Mode  string `json:"mode"`
	Val   int64  `json:"val"`
	Claim bool   `json:"claim"`
	To    string `json:"to"`
	ID    uint64 `json:"id"`
}

type iOp struct {
	A     string   `json:"a"`
	NFT   bool     `json:"nft"`
	Ch    string   `json:"ch"`
	From  string   `json:"from"`
	W     string   `json:"w"`
	D     string   `json:"d"`
	V     any      `json:"v"`
	IDs   []string `json:"ids"`
	Memo  iMemo    `json:"memo"`
	I     int      `json:"i"`
	How   string   `json:"how"`
	Again bool     `json:"again"`
	C     string   `json:"c"`
	On    bool     `json:"on"`
}

func (o *iOp) amt() int64 { return int64(o.V.(float64)) }

type iCall struct {
	K   string `json:"k"`
	Who string `json:"who"`
	Val int64  `json:"val"`
	ID  int64  `json:"id"`
	OK  bool   `json:"ok"`
}

type iStep struct {
	Op   iOp  `json:"op"`
	OK   bool `json:"ok"`
	Post struct {
		Bal   map[string]map[string]int64            `json:"bal"`
		NFT   map[string]map[string]string           `json:"nft"`
		Alw   map[string]map[string]map[string]int64 `json:"alw"`
		App   map[string]map[string]string           `json:"app"`
		Calls []iCall                                `json:"calls"`
		ACL   map[string]string                      `json:"acl"`
		Dflt  bool                                   `json:"dflt"`
	} `json:"post"`
}

type ibcEnv struct {
	*env
	acc     map[string]sdk.AccAddress
	x1, c1  common.Address
	near    map[string]string // port/channel name -> channel of this chain
	far     map[string]string // and its other end
	nextIn  map[string]uint64
	relayer sdk.AccAddress
	last    *channeltypes.MsgRecvPacket
	packets []channeltypes.Packet
}

const ibcGas = 20_000_000

// recorder is a contract that stores every call it gets. A call beginning with
// the number 1 goes on with calls to make: an address and 100 bytes each.
func recorder() []byte {
	const opMUL, opCALLVALUE, opCALLDATALOAD = 0x02, 0x34, 0x35
	a := newAsm()
	slot := func(i int) { a.push(mPTR).op(opMLOAD).push(i).op(opADD, opSSTORE) } // base at mPTR
	a.push(0).op(opSLOAD).push(1).op(opADD, opDUP1).push(0).op(opSSTORE)
	a.push(16).op(opMUL).push(mPTR).op(opMSTORE)
	a.op(opCALLER)
	slot(0)
	a.op(opCALLVALUE)
	slot(1)
	a.op(opCALLDATASIZE)
	slot(2)
	for i, off := range []int{0, 4, 36} {
		a.push(off).op(opCALLDATALOAD)
		slot(3 + i)
	}
	a.push(0).op(opCALLDATALOAD).push(1).op(opEQ, opISZERO).jumpi("end")
	a.push(32).push(mEND).op(opMSTORE)
	a.label("loop")
	a.op(opCALLDATASIZE).push(mEND).op(opMLOAD, opLT, opISZERO).jumpi("end")
	a.push(100).push(mEND).op(opMLOAD).push(32).op(opADD).push(mPROG).op(opCALLDATACOPY)
	a.push(0).push(0).push(100).push(mPROG).push(0).push(mEND).op(opMLOAD, opCALLDATALOAD, opGAS, opCALL).op(opISZERO).jumpi("fail")
	a.push(132).push(mEND).op(opMLOAD, opADD).push(mEND).op(opMSTORE).jump("loop")
	a.label("fail").push(0).push(0).op(opREVERT)
	a.label("end").op(0)
	return deployer(a.bytes())
}

// deployer is init code that installs a runtime.
func deployer(rt []byte) []byte {
	a := newAsm()
	a.push(len(rt)).op(opDUP1).pushLabel("rt").push(0).op(opCODECOPY).push(0).op(opRETURN).mark("rt")
	return append(a.bytes(), rt...)
}

func ibcSetup(t *testing.T) any {
	e := &ibcEnv{env: newEnv(t), acc: map[string]sdk.AccAddress{}, near: map[string]string{}, far: map[string]string{}, nextIn: map[string]uint64{}, relayer: userAddr(9)}
	e.ctx = e.ctx.WithGasMeter(storetypes.NewInfiniteGasMeter())
	e.acc["U1"], e.acc["U2"] = userAddr(1), userAddr(2)
	e.acc["R"] = e.deploy(userAddr(3), recorder()).Bytes()
	e.acc["X"] = e.deploy(userAddr(3), deployer(newAsm().push(0).push(0).op(opREVERT).bytes())).Bytes()
	e.acc["Z"] = e.deploy(userAddr(3), deployer(newAsm().op(opINVALID).bytes())).Bytes()
	e.acc["L"] = e.deploy(userAddr(3), deployer(newAsm().label("l").jump("l").bytes())).Bytes()
	// calls R, and then requests a message that fails afterwards
	q := crypto.CreateAddress(evmAddr(userAddr(3)), must(e.app.AccountKeeper.GetSequence(e.ctx, userAddr(3))))
	fails := pack(cosmosABI, "execute_cosmos", sendJSON(q, evmAddr(e.acc["U1"]), "stake", 1_000_000))
	a := newAsm().push(0).push(0).push(0).push(0).push(0).op(0x73).op(e.acc["R"]...).op(opGAS, opCALL, opPOP)
	a.push(len(fails)).pushLabel("msg").push(0).op(opCODECOPY).push(0).push(0).push(len(fails)).push(0).push(0).push(0xf1).op(opGAS, opCALL, opISZERO).jumpi("no").op(opSTOP)
	e.acc["Q"] = e.deploy(userAddr(3), deployer(a.label("no").push(0).push(0).op(opREVERT).mark("msg").op(fails...).bytes())).Bytes()
	if q != evmAddr(e.acc["Q"]) {
		panic("the address of Q")
	}
	e.acc["E"] = userAddr(77)
	for _, u := range []string{"U1", "U2"} {
		e.fund(e.acc[u], "stake", 20)
	}
	// a token of a user
	f := must(e.k.GetERC20FactoryAddr(e.ctx))
	res := must(e.call(e.ctx, e.acc["U1"], f, pack(factoryABI, "createERC20", "c1", "c1", uint8(6)), 0))
	e.c1 = common.BigToAddress(words(res.Result)[0])
	for _, u := range []string{"U1", "U2"} {
		must(e.call(e.ctx, e.acc["U1"], e.c1, pack(erc20ABI, "mint", evmAddr(e.acc[u]), big.NewInt(20)), 0))
	}
	e.x1 = e.deploy(e.acc["U1"], append(hexutil.MustDecode(erc721.Ics721Erc721Bin), argsOf(nftABI, "x1", "x1")...))
	for i := int64(1); i <= 3; i++ {
		if _, err := e.call(e.ctx, e.acc["U1"], e.x1, pack(nftABI, "mint", evmAddr(e.acc["U1"]), big.NewInt(i), "uri", fmt.Sprint(i)), 0); err != nil {
			panic(err)
		}
	}
	// other channels come first, so that the numbers of the two ends differ
	for _, port := range []string{"transfer", "nft-transfer"} {
		for _, ch := range []string{"A", "B"} {
			e.open(port, ch)
		}
	}
	for _, ch := range []string{"A", "B"} {
		for _, s := range []string{"F1", "F2", "L1"} {
			for port, suffix := range map[string]string{"transfer": "", "nft-transfer": "n"} {
				e.acc[ch+suffix+"/"+s] = sdk.AccAddress(address.Hash("ibc-evm-hook-intermediary", []byte(e.near[port+ch]+"/"+e.sender(s))))
			}
		}
		e.acc["esc"+ch] = transfertypes.GetEscrowAddress("transfer", e.near["transfer"+ch])
		e.acc["esc"+ch+"#"] = nfttypes.GetEscrowAddress("nft-transfer", e.near["nft-transfer"+ch])
	}
	return e
}

// open connects two channels of this chain.
func (e *ibcEnv) open(port, ch string) {
	version := map[string]string{"transfer": transfertypes.Version, "nft-transfer": nfttypes.Version}[port]
	hops := []string{ibcexported.LocalhostConnectionID}
	h, pr, who := clienttypes.NewHeight(0, 1), localhost.SentinelProof, bech(e.relayer)
	id := func(evs []abci.Event) string { return attr(evs, "channel_open_", "channel_id") }
	far := id(e.msg(e.ctx, channeltypes.NewMsgChannelOpenInit(port, version, channeltypes.UNORDERED, hops, port, who)))
	near := id(e.msg(e.ctx, channeltypes.NewMsgChannelOpenTry(port, version, channeltypes.UNORDERED, hops, port, far, version, pr, h, who)))
	e.msg(e.ctx, channeltypes.NewMsgChannelOpenAck(port, far, near, version, pr, h, who))
	e.msg(e.ctx, channeltypes.NewMsgChannelOpenConfirm(port, near, pr, h, who))
	e.near[port+ch], e.far[port+ch] = near, far
}

func attr(evs []abci.Event, typ, key string) string {
	for _, ev := range evs {
		if strings.HasPrefix(ev.Type, typ) {
			for _, a := range ev.Attributes {
				if a.Key == key {
					return a.Value
				}
			}
		}
	}
	return ""
}

func (e *ibcEnv) try(ctx sdk.Context, m sdk.Msg) ([]abci.Event, error) {
	res, err := e.app.MsgServiceRouter().Handler(m)(ctx, m)
	if err != nil {
		return nil, err
	}
	return res.Events, nil
}

func (e *ibcEnv) msg(ctx sdk.Context, m sdk.Msg) []abci.Event {
	evs, err := e.try(ctx, m)
	if err != nil {
		panic(fmt.Sprintf("%T: %v", m, err))
	}
	return evs
}

// sender: how the other chain spells its accounts
func (e *ibcEnv) sender(s string) string {
	if s == "L1" {
		return bech(e.acc["U1"])
	}
	return "cosmos1" + strings.ToLower(s)
}

func ibcPort(nft bool) string {
	if nft {
		return "nft-transfer"
	}
	return "transfer"
}

// trace: the full name of an asset of this chain
func (e *ibcEnv) trace(nft bool, d string) string {
	p := ibcPort(nft)
	switch d {
	case "stake":
		return d
	case "C1":
		return "evm/" + e.c1.Hex()[2:]
	case "X1":
		return "evm/" + strings.ToLower(e.x1.Hex()[2:])
	case "fA", "fB":
		return p + "/" + e.near[p+d[1:]] + "/foo"
	case "nA", "nB":
		return p + "/" + e.near[p+d[1:]] + "/fcls"
	}
	panic("asset " + d)
}

// local: the name of an asset on this chain
func (e *ibcEnv) local(nft bool, d string) string {
	if d == "stake" || d == "C1" || d == "X1" {
		return e.trace(nft, d)
	}
	if nft {
		return nfttypes.ParseClassTrace(e.trace(nft, d)).IBCClassId()
	}
	return transfertypes.ParseDenomTrace(e.trace(nft, d)).IBCDenom()
}

// wire: the name of an asset in a packet of the other chain
func (e *ibcEnv) wire(o *iOp) string {
	if o.D == "foo" || o.D == "fcls" {
		return o.D
	}
	p := ibcPort(o.NFT)
	return p + "/" + e.far[p+o.Ch] + "/" + e.trace(o.NFT, o.D)
}

func (e *ibcEnv) who(nft bool, n string) sdk.AccAddress {
	if a, ok := e.acc[n+"#"]; ok && nft {
		return a
	}
	a, ok := e.acc[n]
	if !ok {
		panic("account " + n)
	}
	return a
}

func (e *ibcEnv) spell(c, style string) string {
	a := evmAddr(e.acc[c])
	switch style {
	case "hex":
		return a.Hex()
	case "lower":
		return strings.ToLower(a.Hex())
	}
	return bech(a.Bytes())
}

func js(v any) string { return string(must(json.Marshal(v))) }

type obj = map[string]any

// memo builds the memo and the receiver of an incoming packet.
func (e *ibcEnv) memo(c *env, o *iOp) (string, string) {
	m := &o.Memo
	to := m.To
	if a, ok := e.acc[m.To]; ok {
		to = bech(a)
	}
	con := e.spell(m.C, m.Style)
	switch m.K {
	case "none":
		return "", to
	case "text":
		return "evm", to
	case "json":
		return js(obj{"wasm": obj{"contract": con}, "Evm": obj{"message": obj{"contract_addr": con, "input": "0x"}}}), to
	case "array":
		return js([]any{obj{"evm": obj{"message": obj{"contract_addr": con, "input": "0x"}}}}), to
	case "cbonly":
		return js(obj{"evm": obj{"async_callback": obj{"id": 5, "contract_address": con}}}), to
	case "badmsg":
		return js(obj{"evm": obj{"message": "call"}}), con
	case "badfield":
		return js(obj{"evm": obj{"message": obj{"contract_addr": con, "input": 7}}}), con
	case "badevm":
		return js(obj{"evm": "call"}), con
	case "badaddr":
		return js(obj{"evm": obj{"message": obj{"contract_addr": "nowhere", "input": "0x"}}}), "nowhere"
	}
	input := w(0)
	if m.Mode != "note" {
		me, r := evmAddr(e.acc[o.Ch+map[bool]string{true: "n"}[o.NFT]+"/"+o.From]), evmAddr(e.acc["R"])
		input = w(1)
		pull := func(tok common.Address, n *big.Int) {
			input = append(append(input, w(tok)...), pack(erc20ABI, "transferFrom", me, r, n)...)
		}
		d := map[string]string{"foo": "f" + o.Ch, "fcls": "n" + o.Ch}[o.D]
		if d == "" {
			d = o.D
		}
		name := e.local(o.NFT, d)
		if o.NFT {
			for _, id := range o.IDs {
				pull(e.contract(c, d), tokenInt(name, id))
			}
		} else {
			n := o.amt()
			if m.Mode == "over" {
				n++
			}
			// the contract of a denom comes with its first coins
			tok, err := evmtypes.DenomToContractAddr(c.ctx, c.k, name)
			if err != nil {
				b := c.branch()
				if err = b.k.ERC20Keeper().CreateERC20(b.ctx, name, 0); err == nil {
					tok, err = b.k.GetContractAddrByDenom(b.ctx, name)
				}
				if err != nil {
					panic(err)
				}
			}
			pull(tok, big.NewInt(n))
		}
	}
	call := obj{"contract_addr": con, "input": hexutil.Encode(input)}
	if m.K == "badinput" {
		call["input"] = "0xzz"
	}
	if m.Claim {
		call["sender"] = bech(e.acc["U1"])
		call["value"] = "0"
	}
	if m.Val != 0 {
		call["value"] = fmt.Sprint(m.Val)
	}
	switch m.Recv {
	case "other":
		con = e.spell(m.C, map[string]string{"hex": "bech", "lower": "hex", "bech": "hex"}[m.Style])
	case "user":
		con = bech(e.acc["U1"])
	}
	memo := obj{"message": call}
	if m.K == "callcb" {
		memo["async_callback"] = obj{"id": 5, "contract_address": e.spell("R", "hex")}
	}
	return js(obj{"evm": memo}), con
}

// contract of a class, even of one that does not exist yet.
func (e *ibcEnv) contract(c *env, class string) common.Address {
	if class == "X1" {
		return e.x1
	}
	a, err := evmtypes.ContractAddressFromClassId(c.ctx, c.k, e.local(true, class))
	if err != nil {
		return e.future(c)
	}
	return a
}

// future: the next contract that the chain itself makes
func (e *ibcEnv) future(c *env) common.Address {
	n := uint64(0)
	if acc := c.app.AccountKeeper.GetAccount(c.ctx, evmtypes.StdAddress.Bytes()); acc != nil {
		n = acc.GetSequence()
	}
	return crypto.CreateAddress(evmtypes.StdAddress, n)
}

func (e *ibcEnv) outMemo(m *iMemo) string {
	cb := obj{"id": m.ID, "contract_address": e.spell(m.C, m.Style)}
	call := obj{"contract_addr": e.spell("R", "hex"), "input": "0x"}
	switch m.K {
	case "none":
		return ""
	case "text":
		return "{"
	case "cb":
		return js(obj{"evm": obj{"async_callback": cb}})
	case "both":
		return js(obj{"evm": obj{"async_callback": cb, "message": call}})
	case "call":
		return js(obj{"evm": obj{"message": call}})
	case "cbbad":
		cb["id"] = -1
		return js(obj{"evm": obj{"async_callback": cb}})
	}
	panic("memo " + m.K)
}

var ibcExpiry = uint64(time.Unix(1_700_000_000, 0).Add(time.Hour).UnixNano())

// attempt also takes in that a contract burns all gas of the transaction.
func (e *ibcEnv) attempt(c *env, o *iOp) (ok, burnt bool, err error) {
	defer func() {
		if x := recover(); x != nil {
			if _, oog := x.(storetypes.ErrorOutOfGas); !oog {
				panic(x)
			}
			ok, burnt, err = false, true, fmt.Errorf("%v", x)
		}
	}()
	ok, err = e.do(c, o)
	return
}

func (e *ibcEnv) do(c *env, o *iOp) (bool, error) {
	port := ibcPort(o.NFT)
	near, far := e.near[port+o.Ch], e.far[port+o.Ch]
	ch := c.app.IBCKeeper.ChannelKeeper
	h := clienttypes.NewHeight(0, 1)
	switch o.A {
	case "recv":
		memo, to := e.memo(c, o)
		var data []byte
		if o.NFT {
			n := len(o.IDs)
			d := nfttypes.NewNonFungibleTokenPacketData(e.wire(o), "class uri", "", o.IDs, make([]string, n), make([]string, n), e.sender(o.From), to, memo)
			data = d.GetBytes(port)
		} else {
			d := transfertypes.NewFungibleTokenPacketData(e.wire(o), fmt.Sprint(o.amt()), e.sender(o.From), to, memo)
			data = d.GetBytes()
		}
		seq := e.nextIn[port+o.Ch] + 1000
		e.nextIn[port+o.Ch]++
		p := channeltypes.NewPacket(data, seq, port, far, port, near, clienttypes.ZeroHeight(), ibcExpiry)
		ch.SetPacketCommitment(c.ctx, port, far, seq, channeltypes.CommitPacket(c.app.AppCodec(), p))
		m := channeltypes.NewMsgRecvPacket(p, localhost.SentinelProof, h, bech(e.relayer))
		evs := e.msg(c.ctx, m)
		e.last = m
		ack := must(hex.DecodeString(attr(evs, "write_acknowledgement", "packet_ack_hex")))
		if bz, found := ch.GetPacketAcknowledgement(c.ctx, port, near, seq); !found || !bytes.Equal(bz, channeltypes.CommitAcknowledgement(ack)) {
			panic("no acknowledgement")
		}
		var a channeltypes.Acknowledgement
		if err := transfertypes.ModuleCdc.UnmarshalJSON(ack, &a); err != nil {
			panic(err)
		}
		return a.Success(), fmt.Errorf("%s", ack)
	case "replay":
		if e.last == nil {
			return true, nil
		}
		e.msg(c.ctx, e.last)
		return true, nil
	case "send":
		var m sdk.Msg
		who := bech(e.acc[o.W])
		if o.NFT {
			m = nfttypes.NewMsgTransfer(port, near, e.local(true, o.D), o.IDs, who, "cosmos1receiver", clienttypes.ZeroHeight(), ibcExpiry, e.outMemo(&o.Memo))
		} else {
			m = transfertypes.NewMsgTransfer(port, near, sdk.Coin{Denom: e.local(false, o.D), Amount: math.NewInt(o.amt())}, who, "cosmos1receiver", clienttypes.ZeroHeight(), ibcExpiry, e.outMemo(&o.Memo))
		}
		evs, err := e.try(c.ctx, m)
		if err != nil {
			return false, err
		}
		var seq uint64
		fmt.Sscan(attr(evs, "send_packet", "packet_sequence"), &seq)
		data := must(hex.DecodeString(attr(evs, "send_packet", "packet_data_hex")))
		e.packets = append(e.packets, channeltypes.NewPacket(data, seq, port, near, port, far, clienttypes.ZeroHeight(), ibcExpiry))
		return true, nil
	case "settle":
		p := e.packets[o.I-1]
		var m sdk.Msg
		if o.How == "timeout" {
			c.ctx = c.ctx.WithBlockTime(time.Unix(0, int64(ibcExpiry)).Add(time.Second))
			m = channeltypes.NewMsgTimeout(p, p.Sequence, localhost.SentinelProof, h, bech(e.relayer))
		} else {
			ack := channeltypes.NewResultAcknowledgement([]byte{1})
			if o.How == "error" {
				ack = channeltypes.NewErrorAcknowledgement(fmt.Errorf("refused"))
			}
			ch.SetPacketAcknowledgement(c.ctx, p.DestinationPort, p.DestinationChannel, p.Sequence, channeltypes.CommitAcknowledgement(ack.Acknowledgement()))
			m = channeltypes.NewMsgAcknowledgement(p, ack.Acknowledgement(), localhost.SentinelProof, h, bech(e.relayer))
		}
		_, err := e.try(c.ctx, m)
		return err == nil, err
	case "permit":
		_, err := e.try(c.ctx, &hookstypes.MsgUpdateACL{Authority: e.auth(o.W), Address: bech(e.acc[o.C]), Allowed: o.V == "yes"})
		return err == nil, err
	case "default":
		_, err := e.try(c.ctx, &hookstypes.MsgUpdateParams{Authority: e.auth(o.W), Params: hookstypes.Params{DefaultAllowed: o.On}})
		return err == nil, err
	}
	panic("op " + o.A)
}

func (e *ibcEnv) auth(w string) string {
	if w == "gov" {
		return e.app.IBCHooksKeeper.GetAuthority()
	}
	return bech(e.acc[w])
}

func (e *ibcEnv) compare(r *rep, c *env, s *iStep, last bool) {
	p := &s.Post
	for d, bal := range p.Bal {
		name := e.local(false, d)
		sum := int64(0)
		for n, v := range bal {
			r.eq(fmt.Sprintf("%s of %s", d, n), v, c.app.BankKeeper.GetBalance(c.ctx, e.acc[n], name).Amount)
			sum += v
		}
		if d != "stake" && c.app.BankKeeper.HasSupply(c.ctx, name) {
			r.eq("supply of "+d, sum, c.app.BankKeeper.GetSupply(c.ctx, name).Amount)
		}
	}
	for d, by := range p.Alw {
		tok, err := evmtypes.DenomToContractAddr(c.ctx, c.k, e.local(false, d))
		if err != nil || (!last && (s.Op.A != "recv" || s.Op.NFT)) {
			continue
		}
		for who, m := range by {
			for con, v := range m {
				if v == 0 && !last && who != s.Op.Ch+"/"+s.Op.From {
					continue
				}
				out := must(c.k.EVMStaticCall(c.ctx, evmtypes.StdAddress, tok, pack(erc20ABI, "allowance", evmAddr(e.acc[who]), evmAddr(e.acc[con])), nil))
				r.eq(fmt.Sprintf("what %s may take of %s of %s", con, d, who), v, new(big.Int).SetBytes(out))
			}
		}
	}
	for cl, toks := range p.NFT {
		id := e.local(true, cl)
		a, err := evmtypes.ContractAddressFromClassId(c.ctx, c.k, id)
		for tid, n := range toks {
			want, got := "nobody", "nobody"
			if n != "nobody" {
				want = evmAddr(e.who(true, n)).Hex()
			}
			if err == nil {
				if b, err := c.k.EVMStaticCall(c.ctx, evmtypes.NullAddress, a, pack(nftABI, "ownerOf", tokenInt(id, tid)), nil); err == nil {
					got = common.BytesToAddress(b).Hex()
				}
			}
			r.eq(fmt.Sprintf("owner of %s in %s", tid, cl), want, got)
			if got != "nobody" {
				var want common.Address
				if n := p.App[cl][tid]; n != "nobody" {
					want = evmAddr(e.acc[n])
				}
				b := must(c.k.EVMStaticCall(c.ctx, evmtypes.NullAddress, a, pack(nftABI, "getApproved", tokenInt(id, tid)), nil))
				r.eq(fmt.Sprintf("who may take %s in %s", tid, cl), want, common.BytesToAddress(b))
			}
		}
	}
	R := evmAddr(e.acc["R"])
	r.eq("number of calls", len(p.Calls), e.word(c, R, 0).Big())
	for i, call := range p.Calls {
		b := 16 * (i + 1)
		get := func(k int) *big.Int { return e.word(c, R, b+k).Big() }
		what := fmt.Sprintf("call %d: ", i)
		r.eq(what+"caller", evmAddr(e.who(false, call.Who)), common.BigToAddress(get(0)))
		r.eq(what+"value", call.Val, get(1))
		var input []byte
		switch call.K {
		case "call":
			if !call.OK {
				r.differ("%sno call", what)
			}
			if get(3).Cmp(big.NewInt(1)) > 0 {
				r.differ("%sinput: code %x", what, get(3))
			}
			continue
		case "ack":
			input = append(crypto.Keccak256([]byte("ibc_ack(uint64,bool)"))[:4], append(w(int(call.ID)), w(map[bool]int{true: 1}[call.OK])...)...)
		case "timeout":
			input = append(crypto.Keccak256([]byte("ibc_timeout(uint64)"))[:4], w(int(call.ID))...)
		}
		r.eq(what+"length of input", len(input), get(2))
		input = append(input, make([]byte, 68)...)
		r.eq(what+"selector and argument", hex.EncodeToString(input[:36]), hex.EncodeToString(append(e.word(c, R, b+3).Bytes()[:4], e.word(c, R, b+4).Bytes()...)))
		r.eq(what+"second argument", new(big.Int).SetBytes(input[36:68]), get(5))
	}
	for n, v := range p.ACL {
		got, err := c.app.IBCHooksKeeper.GetAllowed(c.ctx, e.acc[n])
		if err != nil {
			panic(err)
		}
		r.eq("permission of "+n, v == "yes" || (v == "unset" && p.Dflt), got)
	}
}

func (e *ibcEnv) word(c *env, a common.Address, k int) common.Hash {
	res, err := evmkeeper.NewQueryServer(c.k).State(c.ctx, &evmtypes.QueryStateRequest{ContractAddr: a.Hex(), Key: common.BytesToHash(w(k)).Hex()})
	if err != nil {
		panic(err)
	}
	return common.HexToHash(res.Value)
}

func ibcRun(t *testing.T, s any, line []byte, r *rep) {
	base := s.(*ibcEnv)
	var steps []iStep
	if err := json.Unmarshal(line, &steps); err != nil {
		panic(err)
	}
	e := *base
	e.env = base.env.branch()
	e.nextIn = map[string]uint64{}
	for i := range steps {
		r.step = i
		r.res.Steps++
		x := &steps[i]
		if i == 0 {
			// the permissions before the first step, as far as it did not set them
			for n, v := range x.Post.ACL {
				if v == "yes" && !(x.Op.A == "permit" && x.Op.C == n && x.OK) {
					must(0, e.app.IBCHooksKeeper.SetAllowed(e.ctx, e.acc[n], true))
				}
			}
		}
		c := e.env.branch()
		ctx, write := e.ctx.CacheContext()
		c.ctx = ctx.WithGasMeter(storetypes.NewGasMeter(ibcGas)).WithEventManager(sdk.NewEventManager())
		ok, burnt, err := e.attempt(c, &x.Op)
		k := x.Op.A
		if x.Op.NFT {
			k = "n" + k
		}
		r.count(k + "." + fmt.Sprint(x.OK))
		switch x.Op.A {
		case "recv":
			r.count(k + "." + x.Op.Memo.K + "." + fmt.Sprint(x.OK))
			if x.Op.Memo.K == "call" {
				r.count(k + ".call." + x.Op.Memo.Mode + "." + x.Op.Memo.Style + "." + fmt.Sprint(x.OK))
			}
		case "settle":
			r.count("settle." + x.Op.How + "." + map[bool]string{true: "again", false: "first"}[x.Op.Again])
		}
		if x.OK != ok {
			r.differ("%+v succeeds: specification %v, code %v (%v)", x.Op, x.OK, ok, err)
		}
		if ok || x.Op.A == "recv" && !burnt {
			write()
		}
		e.compare(r, e.env, x, i == len(steps)-1)
	}
}

func init() { families["ibchooks"] = family{ibcSetup, ibcRun} }
