package zzverif

// A real chain, driven through ABCI: genesis, CheckTx, FinalizeBlock, Commit.

import (
	"context"
	"encoding/json"
	"fmt"
	"math/big"
	"sync"
	"testing"
	"time"

	"cosmossdk.io/log"
	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	tmproto "github.com/cometbft/cometbft/proto/tendermint/types"
	tmtypes "github.com/cometbft/cometbft/types"
	dbm "github.com/cosmos/cosmos-db"
	"github.com/cosmos/cosmos-sdk/baseapp"
	"github.com/cosmos/cosmos-sdk/client"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	cryptocodec "github.com/cosmos/cosmos-sdk/crypto/codec"
	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	kmultisig "github.com/cosmos/cosmos-sdk/crypto/keys/multisig"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256r1"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	"github.com/cosmos/cosmos-sdk/crypto/types/multisig"
	servertypes "github.com/cosmos/cosmos-sdk/server/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	authsign "github.com/cosmos/cosmos-sdk/x/auth/signing"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	coretypes "github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/holiman/uint256"

	opchildtypes "github.com/initia-labs/OPinit/x/opchild/types"
	"github.com/initia-labs/initia/crypto/ethsecp256k1"

	"github.com/initia-labs/minievm/app"
	evmconfig "github.com/initia-labs/minievm/x/evm/config"
	evmtypes "github.com/initia-labs/minievm/x/evm/types"
)

const chainID = "minimove-7"

// key: a private key or, instead, those of three members of whom two must sign.
type key struct {
	p  cryptotypes.PrivKey
	ms []cryptotypes.PrivKey
}

func (k key) pub() cryptotypes.PubKey {
	if k.p != nil {
		return k.p.PubKey()
	}
	var ps []cryptotypes.PubKey
	for _, m := range k.ms {
		ps = append(ps, m.PubKey())
	}
	return kmultisig.NewLegacyAminoPubKey(2, ps)
}

// keyOf derives a key from a seed.
func keyOf(seed string) key {
	return key{p: &ethsecp256k1.PrivKey{Key: crypto.Keccak256([]byte(seed))}}
}

// longKey makes a key of an address of 32 bytes.
func longKey() key { return key{p: must(secp256r1.GenPrivKey())} }

// multiKey makes a key of three members.
func multiKey(seed string) key {
	k := key{}
	for i := 0; i < 3; i++ {
		k.ms = append(k.ms, &secp256k1.PrivKey{Key: crypto.Keccak256([]byte(fmt.Sprint(seed, "member", i)))})
	}
	return k
}

func (k key) acc() sdk.AccAddress { return sdk.AccAddress(k.pub().Address()) }
func (k key) evm() common.Address { return common.BytesToAddress(k.pub().Address()) }

// txConfig is made once, as it comes from an application made for it.
var txConfig = sync.OnceValue(func() client.TxConfig { return app.MakeEncodingConfig().TxConfig })

type chain struct {
	t      *testing.T
	app    *app.MinitiaApp
	txCfg  client.TxConfig
	height int64
	faucet key
	admin  key
}

type chainOpt struct {
	db, idb, kdb dbm.DB
	genesis      func(a *app.MinitiaApp, g map[string]json.RawMessage)
	evmcfg       evmconfig.EVMConfig
	appOpts      servertypes.AppOptions
	minGas       int64 // the least gas price of transactions in the pool
}

// newApp opens an application on databases.
func newApp(o *chainOpt) *app.MinitiaApp {
	if o.db == nil {
		o.db, o.idb, o.kdb = dbm.NewMemDB(), dbm.NewMemDB(), dbm.NewMemDB()
	}
	if o.evmcfg == (evmconfig.EVMConfig{}) {
		o.evmcfg = evmconfig.DefaultEVMConfig()
	}
	if o.appOpts == nil {
		o.appOpts = app.EmptyAppOptions{}
	}
	return app.NewMinitiaApp(log.NewNopLogger(), o.db, o.idb, o.kdb, nil, true, o.evmcfg, o.appOpts, baseapp.SetChainID(chainID))
}

const faucetCoins = 1_000_000_000_000_000_000

func newChain(t *testing.T, o chainOpt) *chain { return newChainOn(t, &o) }

// newChainOn starts a chain; its databases are in o afterwards.
func newChainOn(t *testing.T, o *chainOpt) *chain {
	a := newApp(o)
	c := &chain{t: t, app: a, txCfg: txConfig(), faucet: keyOf("faucet"), admin: keyOf("admin")}
	g := app.NewDefaultGenesisState(a.AppCodec(), a.BasicModuleManager, sdk.DefaultBondDenom)
	accs := []authtypes.GenesisAccount{
		authtypes.NewBaseAccount(c.faucet.acc(), nil, 0, 0),
		authtypes.NewBaseAccount(c.admin.acc(), nil, 1, 0),
	}
	g[authtypes.ModuleName] = a.AppCodec().MustMarshalJSON(authtypes.NewGenesisState(authtypes.DefaultParams(), accs))
	privVal := ed25519.GenPrivKeyFromSecret([]byte("validator"))
	pubKey := must(cryptocodec.ToTmPubKeyInterface(privVal.PubKey())) //nolint:staticcheck
	val := tmtypes.NewValidator(pubKey, 1)
	pkAny := must(codectypes.NewAnyWithValue(privVal.PubKey()))
	var og opchildtypes.GenesisState
	a.AppCodec().MustUnmarshalJSON(g[opchildtypes.ModuleName], &og)
	og.Params.Admin = c.admin.acc().String()
	if o.minGas > 0 {
		og.Params.MinGasPrices = sdk.NewDecCoins(sdk.NewInt64DecCoin("stake", o.minGas))
	}
	og.Params.BridgeExecutors = []string{c.admin.acc().String()}
	g[opchildtypes.ModuleName] = a.AppCodec().MustMarshalJSON(opchildtypes.NewGenesisState(og.Params, []opchildtypes.Validator{{
		Moniker: "v", OperatorAddress: sdk.ValAddress(val.Address).String(), ConsensusPubkey: pkAny, ConsPower: 1,
	}}, nil))
	bg := banktypes.NewGenesisState(banktypes.DefaultGenesisState().Params, []banktypes.Balance{
		{Address: c.faucet.acc().String(), Coins: sdk.NewCoins(sdk.NewInt64Coin("stake", faucetCoins), sdk.NewInt64Coin("zother", faucetCoins))},
	}, sdk.NewCoins(), []banktypes.Metadata{}, []banktypes.SendEnabled{})
	g[banktypes.ModuleName] = a.AppCodec().MustMarshalJSON(bg)
	if o.genesis != nil {
		o.genesis(a, g)
	}
	cp := &tmproto.ConsensusParams{
		Block:     &tmproto.BlockParams{MaxBytes: 8000000, MaxGas: 1234000000},
		Evidence:  &tmproto.EvidenceParams{MaxAgeNumBlocks: 302400, MaxAgeDuration: 504 * time.Hour, MaxBytes: 10000},
		Validator: &tmproto.ValidatorParams{PubKeyTypes: []string{tmtypes.ABCIPubKeyTypeEd25519}},
	}
	if _, err := a.InitChain(&abci.RequestInitChain{ChainId: chainID, Validators: []abci.ValidatorUpdate{}, ConsensusParams: cp, AppStateBytes: must(json.Marshal(g))}); err != nil {
		panic(err)
	}
	c.block(nil)
	return c
}

func blockTime(h int64) time.Time { return time.Unix(1_700_000_000+h, 0).UTC() }
func blockHash(h int64) []byte    { return crypto.Keccak256([]byte(fmt.Sprint("block", h))) }

// finalize executes a block without committing it.
func (c *chain) finalize(txs [][]byte) *abci.ResponseFinalizeBlock {
	res, err := c.app.FinalizeBlock(&abci.RequestFinalizeBlock{Height: c.height + 1, Time: blockTime(c.height + 1), Hash: blockHash(c.height + 1), Txs: txs})
	if err != nil {
		panic(err)
	}
	return res
}

func (c *chain) commit() {
	if _, err := c.app.Commit(); err != nil {
		panic(err)
	}
	c.height++
}

func (c *chain) block(txs [][]byte) *abci.ResponseFinalizeBlock {
	r := c.finalize(txs)
	c.commit()
	return r
}

// reborn exports the state of the application and goes on with a new chain that
// starts from the export.
func (c *chain) reborn() error {
	x, err := c.app.ExportAppStateAndValidators(false, nil, nil)
	if err != nil {
		return fmt.Errorf("export: %w", err)
	}
	if x.Height != c.height+1 {
		return fmt.Errorf("export of height %d at height %d", x.Height, c.height)
	}
	a := newApp(&chainOpt{})
	var vals []abci.ValidatorUpdate
	for _, v := range x.Validators {
		vals = append(vals, tmtypes.TM2PB.NewValidatorUpdate(v.PubKey, v.Power))
	}
	if len(vals) == 0 {
		return fmt.Errorf("no validator exported")
	}
	if _, err := a.InitChain(&abci.RequestInitChain{ChainId: chainID, InitialHeight: x.Height, Validators: vals, ConsensusParams: &x.ConsensusParams, AppStateBytes: x.AppState, Time: blockTime(x.Height)}); err != nil {
		return fmt.Errorf("import: %w", err)
	}
	closeCaches(c.app)
	c.app = a
	c.block(nil)
	return nil
}

// ctx reads the committed state.
func (c *chain) ctx() sdk.Context {
	ctx := c.app.NewUncachedContext(false, tmproto.Header{Height: c.height, Time: blockTime(c.height), ChainID: chainID})
	ctx, _ = ctx.CacheContext()
	return ctx
}

// hashesSeen is what contracts see as the hashes of the last 300 blocks and the next.
func (c *chain) hashesSeen(ctx sdk.Context) string {
	ctx, _ = ctx.CacheContext()
	var code []byte
	lo := max(0, c.height-300)
	n := int(c.height + 2 - lo)
	for i := 0; i < n; i++ {
		h := int(lo) + i
		code = append(code, 0x61, byte(h>>8), byte(h), 0x40, 0x61, byte(32*i>>8), byte(32*i), 0x52)
	}
	code = append(code, 0x61, byte(32*n>>8), byte(32*n), 0x5f, 0xf3)
	ret, _, _, err := c.app.EVMKeeper.EVMCreate(ctx, common.HexToAddress("0xabcd"), code, uint256.NewInt(0), nil)
	if err != nil {
		return err.Error()
	}
	return hexutil.Encode(ret)
}

func wantHashes(height int64) string {
	lo := max(0, height-300)
	out := make([]byte, 32*(height+2-lo))
	for i := max(1, height-256); i < height; i++ {
		copy(out[32*(i-lo):], blockHash(i+1))
	}
	return hexutil.Encode(out)
}

func (c *chain) seq(a sdk.AccAddress) uint64 {
	acc := c.app.AccountKeeper.GetAccount(c.ctx(), a)
	if acc == nil {
		return 0
	}
	return acc.GetSequence()
}

func (c *chain) balance(a sdk.AccAddress, denom string) math.Int {
	return c.app.BankKeeper.GetBalance(c.ctx(), a, denom).Amount
}

type cosTx struct {
	msgs    []sdk.Msg
	signers []key
	seqs    []uint64
	gas     uint64
	fee     sdk.Coins
	granter sdk.AccAddress
	memo    string
	chainID string
	accNum  uint64 // added to the account numbers signed
	mode    signing.SignMode
	members []int // who of the members of a key of several signs: 1, 2, 3
}

// signature is that of key k: of what each says that is to sign.
func (x *cosTx) signature(k key, each func(cryptotypes.PrivKey) []byte) signing.SignatureData {
	if k.p != nil {
		return &signing.SingleSignatureData{SignMode: x.mode, Signature: each(k.p)}
	}
	d := multisig.NewMultisig(len(k.ms))
	for _, i := range x.members {
		d.BitArray.SetIndex(i-1, true)
		d.Signatures = append(d.Signatures, &signing.SingleSignatureData{SignMode: x.mode, Signature: each(k.ms[i-1])})
	}
	return d
}

// sign builds and signs a cosmos transaction, in direct mode unless it says otherwise.
func (c *chain) sign(x cosTx) client.TxBuilder {
	b := c.txCfg.NewTxBuilder()
	if err := b.SetMsgs(x.msgs...); err != nil {
		panic(err)
	}
	b.SetGasLimit(x.gas)
	b.SetFeeAmount(x.fee)
	b.SetMemo(x.memo)
	if x.granter != nil {
		b.SetFeeGranter(x.granter)
	}
	id := x.chainID
	if id == "" {
		id = chainID
	}
	if x.mode == signing.SignMode_SIGN_MODE_UNSPECIFIED {
		x.mode = signing.SignMode_SIGN_MODE_DIRECT
	}
	all := func(f func(i int, k key) func(cryptotypes.PrivKey) []byte) {
		var sigs []signing.SignatureV2
		for i, k := range x.signers {
			sigs = append(sigs, signing.SignatureV2{PubKey: k.pub(), Data: x.signature(k, f(i, k)), Sequence: x.seqs[i]})
		}
		if err := b.SetSignatures(sigs...); err != nil {
			panic(err)
		}
	}
	all(func(int, key) func(cryptotypes.PrivKey) []byte {
		return func(cryptotypes.PrivKey) []byte { return nil }
	})
	all(func(i int, k key) func(cryptotypes.PrivKey) []byte {
		n := uint64(0)
		if acc := c.app.AccountKeeper.GetAccount(c.ctx(), k.acc()); acc != nil {
			n = acc.GetAccountNumber()
		}
		mode := x.mode
		if mode == signing.SignMode_SIGN_MODE_EIP_191 { //nolint:staticcheck
			mode = signing.SignMode_SIGN_MODE_LEGACY_AMINO_JSON
		}
		text := must(authsign.GetSignBytesAdapter(context.Background(), c.txCfg.SignModeHandler(), mode, authsign.SignerData{
			Address: k.acc().String(), ChainID: id, AccountNumber: n + x.accNum, Sequence: x.seqs[i], PubKey: k.pub(),
		}, b.GetTx()))
		if mode != x.mode { // the same text as a message of a wallet
			text = append([]byte(fmt.Sprintf("\x19Ethereum Signed Message:\n%d", len(text))), text...)
		}
		return func(p cryptotypes.PrivKey) []byte { return must(p.Sign(text)) }
	})
	return b
}

func (c *chain) encode(tx sdk.Tx) []byte { return must(c.txCfg.TxEncoder()(tx)) }

// run executes the messages of one signer in a block of their own.
func (c *chain) run(k key, msgs ...sdk.Msg) *abci.ExecTxResult {
	b := c.sign(cosTx{msgs: msgs, signers: []key{k}, seqs: []uint64{c.seq(k.acc())}, gas: 100_000_000})
	r := c.block([][]byte{c.encode(b.GetTx())}).TxResults[0]
	if r.Code != 0 {
		panic("setup transaction: " + r.Log)
	}
	return r
}

func ethChainID() *big.Int { return evmtypes.ConvertCosmosChainIDToEthereumChainID(chainID) }

func (c *chain) signEth(k key, id *big.Int, data coretypes.TxData) *coretypes.Transaction {
	p := must(crypto.ToECDSA(k.p.Bytes()))
	return must(coretypes.SignNewTx(p, coretypes.LatestSignerForChainID(id), data))
}
