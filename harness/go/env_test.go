package zzverif

import (
	"context"
	"encoding/json"
	"fmt"
	"math/big"
	"testing"
	"time"

	"cosmossdk.io/math"
	tmproto "github.com/cometbft/cometbft/proto/tendermint/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/holiman/uint256"

	"github.com/initia-labs/minievm/app"
	evmkeeper "github.com/initia-labs/minievm/x/evm/keeper"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

// env is a real application plus a context on its (uncommitted) state.
type env struct {
	t   *testing.T
	app *app.MinitiaApp
	ctx sdk.Context
	k   *evmkeeper.Keeper
	ms  evmtypes.MsgServer
}

func newEnv(t *testing.T) *env {
	a := app.SetupWithGenesisAccounts(nil, nil)
	e := &env{t: t, app: a, k: a.EVMKeeper, ms: evmkeeper.NewMsgServerImpl(a.EVMKeeper)}
	e.ctx = a.NewUncachedContext(false, tmproto.Header{Height: 2, Time: time.Unix(1_700_000_000, 0), ChainID: ""})
	e.ctx, _ = e.ctx.CacheContext()
	return e
}

// at returns the same environment on a branched context.
func (e *env) branch() *env {
	c := *e
	c.ctx, _ = e.ctx.CacheContext()
	return &c
}

func userAddr(i int) sdk.AccAddress {
	b := make([]byte, 20)
	b[0], b[18], b[19] = 0xaa, byte(i>>8), byte(i)
	return b
}
func evmAddr(a sdk.AccAddress) common.Address { return common.BytesToAddress(a) }

func bech(a []byte) string { return sdk.AccAddress(a).String() }

// fund mints native tokens to addr.
func (e *env) fund(addr sdk.AccAddress, denom string, amt int64) {
	coins := sdk.NewCoins(sdk.NewInt64Coin(denom, amt))
	if err := e.k.ERC20Keeper().MintCoins(e.ctx, addr, coins); err != nil {
		panic(fmt.Sprintf("fund: %v", err))
	}
}

func (e *env) deploy(from sdk.AccAddress, code []byte) common.Address {
	_, addr, _, err := e.k.EVMCreate(e.ctx, evmAddr(from), code, uint256.NewInt(0), nil)
	if err != nil {
		panic(fmt.Sprintf("deploy: %v", err))
	}
	return addr
}

// call sends MsgCall through the real message server.
func (e *env) call(ctx context.Context, from sdk.AccAddress, to common.Address, input []byte, value int64) (*evmtypes.MsgCallResponse, error) {
	return e.ms.Call(ctx, &evmtypes.MsgCall{
		Sender:       from.String(),
		ContractAddr: to.Hex(),
		Input:        hexutil.Encode(input),
		Value:        math.NewInt(value),
	})
}

func words(hexRes string) []*big.Int {
	b := hexutil.MustDecode(hexRes)
	var out []*big.Int
	for i := 0; i+32 <= len(b); i += 32 {
		out = append(out, new(big.Int).SetBytes(b[i:i+32]))
	}
	return out
}

// sload reads a storage slot through the public query server.
func (e *env) sload(a common.Address, k int) int {
	res, err := evmkeeper.NewQueryServer(e.k).State(e.ctx, &evmtypes.QueryStateRequest{ContractAddr: a.Hex(), Key: common.BytesToHash(w(k)).Hex()})
	if err != nil {
		panic(err)
	}
	return int(common.HexToHash(res.Value).Big().Int64())
}

func bigInt(n int64) *big.Int { return big.NewInt(n) }

// reimport exports the whole state, starts another application from the
// export and goes on there.
var reimportApps []*app.MinitiaApp

func (e *env) reimport() (diff string) {
	defer func() {
		if x := recover(); x != nil {
			diff = fmt.Sprintf("export and import: %v", x)
		}
	}()
	if reimportApps == nil {
		for i := 0; i < 2; i++ {
			reimportApps = append(reimportApps, newApp(&chainOpt{}))
		}
	}
	export := func(c *env) (map[string]json.RawMessage, error) {
		x, err := c.app.ModuleManager.ExportGenesisForModules(c.ctx, c.app.AppCodec(), nil)
		if err != nil {
			return nil, err
		}
		b, err := json.Marshal(x)
		if err != nil {
			return nil, err
		}
		var out map[string]json.RawMessage
		return out, json.Unmarshal(b, &out)
	}
	g, err := export(e)
	if err != nil {
		return fmt.Sprintf("export: %v", err)
	}
	a := reimportApps[0]
	if a == e.app {
		a = reimportApps[1]
	}
	ctx := a.NewUncachedContext(false, e.ctx.BlockHeader())
	ctx, _ = ctx.CacheContext()
	if _, err := a.ModuleManager.InitGenesis(ctx, a.AppCodec(), g); err != nil {
		return fmt.Sprintf("import: %v", err)
	}
	n := &env{t: e.t, app: a, ctx: ctx, k: a.EVMKeeper, ms: evmkeeper.NewMsgServerImpl(a.EVMKeeper)}
	h, err := export(n)
	if err != nil {
		return fmt.Sprintf("export after import: %v", err)
	}
	for m, b := range g {
		if m == "ibc" { // the client of the chain itself follows its height
			continue
		}
		if string(b) != string(h[m]) {
			return fmt.Sprintf("state of module %s changed by export and import: %s", m, firstDiff(b, h[m]))
		}
	}
	*e = *n
	return ""
}

func firstDiff(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(x []byte) string { return string(x[max(0, i-60):min(len(x), i+60)]) }
	return fmt.Sprintf("%q became %q", cut(a), cut(b))
}
