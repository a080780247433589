From d7949a1c612ccf4f1cf4520df423638d92ab1976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 01/36] fix: keep the resumed snapshot when reverting, so its
 writes are committed

---
 x/evm/state/statedb.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/x/evm/state/statedb.go b/x/evm/state/statedb.go
index 4eb7926..6b29c03 100644
--- a/x/evm/state/statedb.go
+++ b/x/evm/state/statedb.go
@@ -585,8 +585,9 @@ func (s *StateDB) RevertToSnapshot(i int) {
 	snap := s.snaps[i]
 	s.ctx = snap.ctx
 
-	// clear the snapshots after the given id
-	s.snaps = s.snaps[:i]
+	// clear the snapshots after the given id, but keep the snapshot itself
+	// because the state continues on top of it and it must be committed.
+	s.snaps = s.snaps[:i+1]
 }
 
 // Prepare handles the preparatory steps for executing a state transition with.
-- 
2.43.0


From a0ab0dcc6d1e36bfe8cde742437a3fd051ab1179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 02/36] fix: isolate transient storage per contract

---
 x/evm/state/statedb.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/evm/state/statedb.go b/x/evm/state/statedb.go
index 6b29c03..bd0ce9c 100644
--- a/x/evm/state/statedb.go
+++ b/x/evm/state/statedb.go
@@ -540,14 +540,14 @@ func (s *StateDB) SetTransientState(addr common.Address, key, value common.Hash)
 		return
 	}
 
-	if err := s.transientVMStore.Set(s.ctx, collections.Join(s.execIndex, key[:]), value[:]); err != nil {
+	if err := s.transientVMStore.Set(s.ctx, collections.Join(s.execIndex, stateKey(addr, key)), value[:]); err != nil {
 		panic(err)
 	}
 }
 
 // GetTransientState gets transient storage for a given account.
 func (s *StateDB) GetTransientState(addr common.Address, key common.Hash) common.Hash {
-	data, err := s.transientVMStore.Get(s.ctx, collections.Join(s.execIndex, key[:]))
+	data, err := s.transientVMStore.Get(s.ctx, collections.Join(s.execIndex, stateKey(addr, key)))
 	if err != nil && errors.Is(err, collections.ErrNotFound) {
 		return common.Hash{}
 	} else if err != nil {
-- 
2.43.0


From 3b56df2c700347d0863477450d3745247bff70f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 03/36] fix: revert precompile effects and cosmos messages of
 reverted call frames

---
 x/evm/keeper/context.go |  7 ++++---
 x/evm/state/snapshot.go | 27 ++++++++++++++++++++++++++-
 x/evm/state/statedb.go  | 32 +++++++++++++++++++++++++++++++-
 3 files changed, 61 insertions(+), 5 deletions(-)

diff --git a/x/evm/keeper/context.go b/x/evm/keeper/context.go
index a010cd5..5fd521e 100644
--- a/x/evm/keeper/context.go
+++ b/x/evm/keeper/context.go
@@ -160,6 +160,9 @@ func (k Keeper) CreateEVM(ctx context.Context, caller common.Address, tracer *tr
 		return ctx, nil, err
 	}
 
+	// set cosmos messages to context
+	ctx = sdk.UnwrapSDKContext(ctx).WithValue(types.CONTEXT_KEY_COSMOS_MESSAGES, &[]sdk.Msg{})
+
 	evm := &vm.EVM{}
 	blockContext, err := k.buildBlockContext(ctx, evm, fee)
 	if err != nil {
@@ -179,15 +182,13 @@ func (k Keeper) CreateEVM(ctx context.Context, caller common.Address, tracer *tr
 		ExtraEips: extraEIPs,
 	}
 
-	// set cosmos messages to context
-	ctx = sdk.UnwrapSDKContext(ctx).WithValue(types.CONTEXT_KEY_COSMOS_MESSAGES, &[]sdk.Msg{})
 	*evm = *vm.NewEVMWithPrecompiles(
 		blockContext,
 		txContext,
 		stateDB,
 		types.DefaultChainConfig(ctx),
 		vmConfig,
-		k.precompiles.toMap(ctx),
+		k.precompiles.toMap(stateDB.Context()),
 	)
 
 	if tracer != nil {
diff --git a/x/evm/state/snapshot.go b/x/evm/state/snapshot.go
index de8f266..1b33897 100644
--- a/x/evm/state/snapshot.go
+++ b/x/evm/state/snapshot.go
@@ -2,6 +2,7 @@ package state
 
 import (
 	"context"
+	"time"
 
 	sdk "github.com/cosmos/cosmos-sdk/types"
 )
@@ -9,17 +10,41 @@ import (
 type Snapshot struct {
 	ctx    sdk.Context
 	commit func()
+
+	// number of cosmos messages requested before this snapshot
+	numMessages int
 }
 
-func NewSnapshot(ctx context.Context) *Snapshot {
+func NewSnapshot(ctx context.Context, numMessages int) *Snapshot {
 	sdkCtx := sdk.UnwrapSDKContext(ctx)
 	cacheCtx, commit := sdkCtx.CacheContext()
 	return &Snapshot{
 		ctx:    cacheCtx,
 		commit: commit,
+
+		numMessages: numMessages,
 	}
 }
 
 func (s *Snapshot) Commit() {
 	s.commit()
 }
+
+var _ context.Context = snapshotContext{}
+
+// snapshotContext is a context.Context which resolves to the current snapshot
+// context of the stateDB.
+type snapshotContext struct {
+	s *StateDB
+}
+
+func (c snapshotContext) Deadline() (time.Time, bool) { return c.s.ctx.Deadline() }
+func (c snapshotContext) Done() <-chan struct{}       { return c.s.ctx.Done() }
+func (c snapshotContext) Err() error                  { return c.s.ctx.Err() }
+func (c snapshotContext) Value(key any) any {
+	if key == sdk.SdkContextKey {
+		return c.s.ctx
+	}
+
+	return c.s.ctx.Value(key)
+}
diff --git a/x/evm/state/statedb.go b/x/evm/state/statedb.go
index bd0ce9c..313e636 100644
--- a/x/evm/state/statedb.go
+++ b/x/evm/state/statedb.go
@@ -1,6 +1,7 @@
 package state
 
 import (
+	"context"
 	"errors"
 	"fmt"
 	"math/big"
@@ -563,7 +564,7 @@ func (s *StateDB) Snapshot() int {
 	sid := len(s.snaps) - 1
 
 	// create a new snapshot
-	snap := NewSnapshot(s.ctx)
+	snap := NewSnapshot(s.ctx, len(s.cosmosMessages()))
 	s.snaps = append(s.snaps, snap)
 
 	// use the new snapshot context
@@ -575,6 +576,11 @@ func (s *StateDB) Snapshot() int {
 
 // RevertToSnapshot reverts the state to the snapshot with the given id
 func (s *StateDB) RevertToSnapshot(i int) {
+	// drop the cosmos messages requested after the given snapshot
+	if next := i + 1; next < len(s.snaps) {
+		s.truncateCosmosMessages(s.snaps[next].numMessages)
+	}
+
 	if i == -1 {
 		s.ctx = s.initialCtx
 		s.snaps = s.snaps[:0]
@@ -590,6 +596,30 @@ func (s *StateDB) RevertToSnapshot(i int) {
 	s.snaps = s.snaps[:i+1]
 }
 
+// Context returns a context which always refers to the current snapshot, so that
+// stateful precompiles read and write the same state as the running call frame.
+func (s *StateDB) Context() context.Context {
+	return snapshotContext{s}
+}
+
+// cosmosMessages returns the cosmos messages requested so far.
+func (s *StateDB) cosmosMessages() []sdk.Msg {
+	messages, ok := s.initialCtx.Value(evmtypes.CONTEXT_KEY_COSMOS_MESSAGES).(*[]sdk.Msg)
+	if !ok {
+		return nil
+	}
+
+	return *messages
+}
+
+// truncateCosmosMessages keeps only the first n requested cosmos messages.
+func (s *StateDB) truncateCosmosMessages(n int) {
+	messages, ok := s.initialCtx.Value(evmtypes.CONTEXT_KEY_COSMOS_MESSAGES).(*[]sdk.Msg)
+	if ok && n < len(*messages) {
+		*messages = (*messages)[:n]
+	}
+}
+
 // Prepare handles the preparatory steps for executing a state transition with.
 // This method must be invoked before state transition.
 //
-- 
2.43.0


From 089f33d51b09bbe98c02bfb72f7956a0ac5ab7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:01 +0000
Subject: [PATCH 04/36] fix: create module accounts at genesis, so that nobody
 can occupy their addresses

---
 app/app.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/app/app.go b/app/app.go
index be76d43..59168ff 100644
--- a/app/app.go
+++ b/app/app.go
@@ -6,6 +6,7 @@ import (
 	"net/http"
 	"os"
 	"path/filepath"
+	"slices"
 	"strings"
 
 	"github.com/gorilla/mux"
@@ -411,7 +412,23 @@ func (app *MinitiaApp) InitChainer(ctx sdk.Context, req *abci.RequestInitChain)
 	if err := app.UpgradeKeeper.SetModuleVersionMap(ctx, app.ModuleManager.GetVersionMap()); err != nil {
 		tmos.Exit(err.Error())
 	}
-	return app.ModuleManager.InitGenesis(ctx, app.appCodec, genesisState)
+	res, err := app.ModuleManager.InitGenesis(ctx, app.appCodec, genesisState)
+	if err != nil {
+		return nil, err
+	}
+
+	// create all module accounts, before anyone can make a base account at
+	// one of their addresses, which would disable the module.
+	modules := make([]string, 0, len(maccPerms))
+	for module := range maccPerms {
+		modules = append(modules, module)
+	}
+	slices.Sort(modules)
+	for _, module := range modules {
+		app.AccountKeeper.GetModuleAccount(ctx, module)
+	}
+
+	return res, nil
 }
 
 // LoadHeight loads a particular height
-- 
2.43.0


From e271fdf2c4b7f37aa508348991f2cdeaa35d44b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 05/36] fix: burn only the named coin of a contract, not the
 whole amount again

---
 x/evm/keeper/erc20.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/evm/keeper/erc20.go b/x/evm/keeper/erc20.go
index 813c143..7ef9ad7 100644
--- a/x/evm/keeper/erc20.go
+++ b/x/evm/keeper/erc20.go
@@ -66,7 +66,7 @@ func (k ERC20Keeper) BurnCoins(ctx context.Context, addr sdk.AccAddress, amount
 		// if a coin is not generated from 0x1, then send the coin to community pool
 		// because we don't have burn capability.
 		if types.IsERC20Denom(coin.Denom) {
-			if err := k.communityPoolKeeper.FundCommunityPool(ctx, amount, evmAddr.Bytes()); err != nil {
+			if err := k.communityPoolKeeper.FundCommunityPool(ctx, sdk.NewCoins(coin), evmAddr.Bytes()); err != nil {
 				return err
 			}
 
-- 
2.43.0


From 5123dca14c1e17354a346897bb813c3a538c26b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:39 +0000
Subject: [PATCH 06/36] fix: use up the sequence of evm callers when their tx
 fails

---
 app/ante/ante.go               |  6 ++--
 app/ante/sequence.go           | 56 ++++++++++++++++++++++++++++++++
 app/ante/sigverify.go          |  5 ++-
 app/app.go                     |  1 -
 app/posthandler/posthandler.go |  3 --
 app/posthandler/sequence.go    | 59 ----------------------------------
 x/evm/keeper/msg_server.go     | 36 +++++++++++++++++++++
 x/evm/types/keys.go            |  4 +++
 8 files changed, 102 insertions(+), 68 deletions(-)
 create mode 100644 app/ante/sequence.go
 delete mode 100644 app/posthandler/sequence.go

diff --git a/app/ante/ante.go b/app/ante/ante.go
index 027611b..9dcd06c 100644
--- a/app/ante/ante.go
+++ b/app/ante/ante.go
@@ -97,7 +97,8 @@ func NewAnteHandler(options HandlerOptions) (sdk.AnteHandler, error) {
 		ante.NewValidateSigCountDecorator(options.AccountKeeper),
 		ante.NewSigGasConsumeDecorator(options.AccountKeeper, sigGasConsumer),
 		NewSigVerificationDecorator(options.AccountKeeper, options.EVMKeeper, options.SignModeHandler),
-		NewIncrementSequenceDecorator(options.AccountKeeper),
+		ante.NewIncrementSequenceDecorator(options.AccountKeeper),
+		NewEVMSequenceDecorator(options.AccountKeeper),
 		ibcante.NewRedundantRelayDecorator(options.IBCkeeper),
 		auctionante.NewAuctionDecorator(options.AuctionKeeper, options.TxEncoder, options.MevLane),
 	}
@@ -111,6 +112,7 @@ func CreateAnteHandlerForOPinit(ak ante.AccountKeeper, ek *evmkeeper.Keeper, sig
 		ante.NewValidateSigCountDecorator(ak),
 		ante.NewSigGasConsumeDecorator(ak, ante.DefaultSigVerificationGasConsumer),
 		NewSigVerificationDecorator(ak, ek, signModeHandler),
-		NewIncrementSequenceDecorator(ak),
+		ante.NewIncrementSequenceDecorator(ak),
+		NewEVMSequenceDecorator(ak),
 	)
 }
diff --git a/app/ante/sequence.go b/app/ante/sequence.go
new file mode 100644
index 0000000..ad67610
--- /dev/null
+++ b/app/ante/sequence.go
@@ -0,0 +1,56 @@
+package ante
+
+import (
+	sdk "github.com/cosmos/cosmos-sdk/types"
+	authante "github.com/cosmos/cosmos-sdk/x/auth/ante"
+
+	evmtypes "github.com/initia-labs/minievm/x/evm/types"
+)
+
+// EVMSequenceDecorator hands the sequence increments of EVM callers over to the execution.
+//
+// The sequences of all signers are incremented in the ante handler, so that they are used up
+// even if the tx fails. EVM messages increment the sequence of their caller internally, so the
+// first EVM message of each caller has to take back the increment of the ante handler. The
+// decorator leaves the set of the callers, whose increment is not taken back yet, in the context.
+//
+// CONTRACT: the sequences are incremented before this decorator runs.
+type EVMSequenceDecorator struct {
+	ak authante.AccountKeeper
+}
+
+func NewEVMSequenceDecorator(ak authante.AccountKeeper) EVMSequenceDecorator {
+	return EVMSequenceDecorator{
+		ak: ak,
+	}
+}
+
+func (esd EVMSequenceDecorator) AnteHandle(ctx sdk.Context, tx sdk.Tx, simulate bool, next sdk.AnteHandler) (sdk.Context, error) {
+	if simulate || ctx.ExecMode() == sdk.ExecModeFinalize {
+		incremented := make(map[string]struct{})
+		for _, msg := range tx.GetMsgs() {
+			var caller string
+			switch msg := msg.(type) {
+			case *evmtypes.MsgCreate:
+				caller = msg.Sender
+			case *evmtypes.MsgCreate2:
+				caller = msg.Sender
+			case *evmtypes.MsgCall:
+				caller = msg.Sender
+			default:
+				continue
+			}
+
+			callerAccAddr, err := esd.ak.AddressCodec().StringToBytes(caller)
+			if err != nil {
+				return ctx, err
+			}
+
+			incremented[string(callerAccAddr)] = struct{}{}
+		}
+
+		ctx = ctx.WithValue(evmtypes.CONTEXT_KEY_INCREMENTED_SEQUENCES, incremented)
+	}
+
+	return next(ctx, tx, simulate)
+}
diff --git a/app/ante/sigverify.go b/app/ante/sigverify.go
index 0b4a464..9dbd9b9 100644
--- a/app/ante/sigverify.go
+++ b/app/ante/sigverify.go
@@ -210,7 +210,8 @@ func consumeMultisignatureVerificationGas(
 // client. It is recommended to instead use multiple messages in a tx.
 //
 // NOTE: When we execute evm messages, it whould handle sequence number increment internally,
-// so we need to decrease sequence number if it is used in EVM.
+// so we need to decrease sequence number if it is used in EVM. The decreased sequence number is
+// not increased again if the tx fails, so ante handlers use EVMSequenceDecorator instead.
 type IncrementSequenceDecorator struct {
 	ak authante.AccountKeeper
 }
@@ -244,8 +245,6 @@ func (isd IncrementSequenceDecorator) AnteHandle(ctx sdk.Context, tx sdk.Tx, sim
 
 	// decrement sequence of all signers which is used in EVM
 	// when we execute evm messages, it whould handle sequence number increment.
-	//
-	// NOTE: Need to revert it if a tx failed. See ../posthandler/sequence.go
 	if simulate || ctx.ExecMode() == sdk.ExecModeFinalize {
 		signerMap := make(map[string]bool)
 		for _, msg := range tx.GetMsgs() {
diff --git a/app/app.go b/app/app.go
index 59168ff..19db50f 100644
--- a/app/app.go
+++ b/app/app.go
@@ -368,7 +368,6 @@ func (app *MinitiaApp) SetCheckTx(handler blockchecktx.CheckTx) {
 
 func (app *MinitiaApp) setPostHandler() {
 	app.SetPostHandler(posthandler.NewPostHandler(
-		app.AccountKeeper,
 		app.EVMKeeper,
 	))
 }
diff --git a/app/posthandler/posthandler.go b/app/posthandler/posthandler.go
index bd180e0..ec78649 100644
--- a/app/posthandler/posthandler.go
+++ b/app/posthandler/posthandler.go
@@ -5,18 +5,15 @@ import (
 
 	"cosmossdk.io/math"
 	sdk "github.com/cosmos/cosmos-sdk/types"
-	authante "github.com/cosmos/cosmos-sdk/x/auth/ante"
 
 	evmtypes "github.com/initia-labs/minievm/x/evm/types"
 )
 
 // NewPostHandler returns a new sdk.PostHandler that is composed of the sdk.ChainPostDecorators
 func NewPostHandler(
-	ak authante.AccountKeeper,
 	ek EVMKeeper,
 ) sdk.PostHandler {
 	return sdk.ChainPostDecorators(
-		NewSequenceIncrementDecorator(ak),
 		NewGasRefundDecorator(ek),
 	)
 }
diff --git a/app/posthandler/sequence.go b/app/posthandler/sequence.go
deleted file mode 100644
index aa79d46..0000000
--- a/app/posthandler/sequence.go
+++ /dev/null
@@ -1,59 +0,0 @@
-package posthandler
-
-import (
-	sdk "github.com/cosmos/cosmos-sdk/types"
-	authante "github.com/cosmos/cosmos-sdk/x/auth/ante"
-	evmtypes "github.com/initia-labs/minievm/x/evm/types"
-)
-
-var _ sdk.PostDecorator = &SequenceIncrementDecorator{}
-
-type SequenceIncrementDecorator struct {
-	ak authante.AccountKeeper
-}
-
-func NewSequenceIncrementDecorator(ak authante.AccountKeeper) sdk.PostDecorator {
-	return &SequenceIncrementDecorator{
-		ak,
-	}
-}
-
-// If a transaction fails, we need to revert the sequence decrement for EVM messages that were executed in the ante handler.
-// This is necessary because the sequence increment in EVM was reverted due to the failure.
-func (sid *SequenceIncrementDecorator) PostHandle(ctx sdk.Context, tx sdk.Tx, simulate, success bool, next sdk.PostHandler) (newCtx sdk.Context, err error) {
-	if !success && ctx.ExecMode() == sdk.ExecModeFinalize {
-		signerMap := make(map[string]bool)
-		for _, msg := range tx.GetMsgs() {
-			var caller string
-			switch msg := msg.(type) {
-			case *evmtypes.MsgCreate:
-				caller = msg.Sender
-			case *evmtypes.MsgCreate2:
-				caller = msg.Sender
-			case *evmtypes.MsgCall:
-				caller = msg.Sender
-			default:
-				continue
-			}
-
-			if _, ok := signerMap[caller]; ok {
-				continue
-			}
-			signerMap[caller] = true
-
-			callerAccAddr, err := sid.ak.AddressCodec().StringToBytes(caller)
-			if err != nil {
-				return ctx, err
-			}
-
-			acc := sid.ak.GetAccount(ctx, callerAccAddr)
-			if err := acc.SetSequence(acc.GetSequence() + 1); err != nil {
-				panic(err)
-			}
-
-			sid.ak.SetAccount(ctx, acc)
-		}
-	}
-
-	return next(ctx, tx, simulate, success)
-}
diff --git a/x/evm/keeper/msg_server.go b/x/evm/keeper/msg_server.go
index 26dffd4..49c8722 100644
--- a/x/evm/keeper/msg_server.go
+++ b/x/evm/keeper/msg_server.go
@@ -31,6 +31,11 @@ func (ms *msgServerImpl) Create(ctx context.Context, msg *types.MsgCreate) (*typ
 		return nil, err
 	}
 
+	// the execution increments the sequence of the caller
+	if err := ms.takeBackSequence(ctx, sender); err != nil {
+		return nil, err
+	}
+
 	// argument validation
 	caller, err := ms.convertToEVMAddress(ctx, sender, true)
 	if err != nil {
@@ -90,6 +95,11 @@ func (ms *msgServerImpl) Create2(ctx context.Context, msg *types.MsgCreate2) (*t
 		return nil, err
 	}
 
+	// the execution increments the sequence of the caller
+	if err := ms.takeBackSequence(ctx, sender); err != nil {
+		return nil, err
+	}
+
 	// argument validation
 	caller, err := ms.convertToEVMAddress(ctx, sender, true)
 	if err != nil {
@@ -142,6 +152,27 @@ func (ms *msgServerImpl) Create2(ctx context.Context, msg *types.MsgCreate2) (*t
 	}, nil
 }
 
+// takeBackSequence takes back the sequence increment of the ante handler, because the evm
+// messages increment the sequence of their caller internally. If the tx fails, it is reverted
+// like the other state changes and the increment of the ante handler remains.
+func (ms *msgServerImpl) takeBackSequence(ctx context.Context, caller sdk.AccAddress) error {
+	incremented, ok := sdk.UnwrapSDKContext(ctx).Value(types.CONTEXT_KEY_INCREMENTED_SEQUENCES).(map[string]struct{})
+	if !ok {
+		return nil
+	}
+	if _, found := incremented[string(caller)]; !found {
+		return nil
+	}
+	delete(incremented, string(caller))
+
+	senderAcc := ms.accountKeeper.GetAccount(ctx, caller)
+	if err := senderAcc.SetSequence(senderAcc.GetSequence() - 1); err != nil {
+		return err
+	}
+	ms.accountKeeper.SetAccount(ctx, senderAcc)
+	return nil
+}
+
 // increaseNonce increases the nonce of the given account.
 func (ms *msgServerImpl) increaseNonce(ctx context.Context, caller sdk.AccAddress) error {
 	senderAcc := ms.accountKeeper.GetAccount(ctx, caller)
@@ -162,6 +193,11 @@ func (ms *msgServerImpl) Call(ctx context.Context, msg *types.MsgCall) (*types.M
 		return nil, err
 	}
 
+	// the execution increments the sequence of the caller
+	if err := ms.takeBackSequence(ctx, sender); err != nil {
+		return nil, err
+	}
+
 	// increase nonce before execution like evm does
 	//
 	// NOTE: evm only increases nonce at Call not Create, so we should do the same.
diff --git a/x/evm/types/keys.go b/x/evm/types/keys.go
index 8c6aa2b..e2f7585 100644
--- a/x/evm/types/keys.go
+++ b/x/evm/types/keys.go
@@ -51,4 +51,8 @@ type ContextKey int
 const (
 	// CONTEXT_KEY_COSMOS_MESSAGES is a context key for cosmos messages
 	CONTEXT_KEY_COSMOS_MESSAGES ContextKey = iota
+
+	// CONTEXT_KEY_INCREMENTED_SEQUENCES is a context key for the evm callers whose sequence
+	// was incremented in the ante handler and is not taken back yet
+	CONTEXT_KEY_INCREMENTED_SEQUENCES
 )
-- 
2.43.0


From b1254eb2bd3e4d91468f250cc478133a961a0cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:39 +0000
Subject: [PATCH 07/36] fix: accept ethereum signatures only for the fee,
 value, access list and message they imply

---
 x/evm/keeper/txutils.go | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/x/evm/keeper/txutils.go b/x/evm/keeper/txutils.go
index 81d526a..684acae 100644
--- a/x/evm/keeper/txutils.go
+++ b/x/evm/keeper/txutils.go
@@ -225,10 +225,6 @@ func (u *TxUtils) ConvertCosmosTxToEthereumTx(ctx context.Context, sdkTx sdk.Tx)
 		return nil, nil, err
 	}
 
-	if len(fees) > 0 && fees[0].Denom != params.FeeDenom {
-		return nil, nil, nil
-	}
-
 	var tx *coretypes.Transaction
 
 	msg := msgs[0]
@@ -271,9 +267,20 @@ func (u *TxUtils) ConvertCosmosTxToEthereumTx(ctx context.Context, sdkTx sdk.Tx)
 		return nil, nil, err
 	}
 
+	// the fee is implied by the signed gas and gas fee cap
+	feeAmount := big.NewInt(0)
+	if len(fees) > 1 || (len(fees) == 1 && (fees[0].Denom != params.FeeDenom || fees[0].Amount.IsNil())) {
+		return nil, nil, nil
+	} else if len(fees) == 1 {
+		feeAmount = fees[0].Amount.BigInt()
+	}
+	if feeAmount.Cmp(computeGasFeeAmount(gasFeeCap, gas, decimals)) != 0 {
+		return nil, nil, nil
+	}
+
 	var to *common.Address
 	var input []byte
-	var value *big.Int
+	var value, msgValue *big.Int
 	var accessList coretypes.AccessList
 	switch typeUrl {
 	case "/minievm.evm.v1.MsgCall":
@@ -293,7 +300,8 @@ func (u *TxUtils) ConvertCosmosTxToEthereumTx(ctx context.Context, sdkTx sdk.Tx)
 		// When ethereum tx is converted into cosmos tx by ConvertEthereumTxToCosmosTx,
 		// the value is converted to cosmos fee unit from wei.
 		// So we need to convert it back to wei to get original ethereum tx and verify signature.
-		value = types.ToEthersUint(decimals, callMsg.Value.BigInt())
+		msgValue = callMsg.Value.BigInt()
+		value = types.ToEthersUint(decimals, msgValue)
 		accessList = types.ConvertCosmosAccessListToEth(callMsg.AccessList)
 
 	case "/minievm.evm.v1.MsgCreate":
@@ -306,10 +314,16 @@ func (u *TxUtils) ConvertCosmosTxToEthereumTx(ctx context.Context, sdkTx sdk.Tx)
 		to = nil
 		input = data
 		// Same as above (MsgCall)
-		value = types.ToEthersUint(decimals, createMsg.Value.BigInt())
+		msgValue = createMsg.Value.BigInt()
+		value = types.ToEthersUint(decimals, msgValue)
 		accessList = types.ConvertCosmosAccessListToEth(createMsg.AccessList)
-	case "/minievm.evm.v1.MsgCreate2":
-		// create2 is not supported
+	default:
+		// other messages, including create2, are not supported
+		return nil, nil, nil
+	}
+
+	// the signed value should be converted back to the value of the message
+	if types.FromEthersUnit(decimals, value).Cmp(msgValue) != 0 {
 		return nil, nil, nil
 	}
 
@@ -319,6 +333,11 @@ func (u *TxUtils) ConvertCosmosTxToEthereumTx(ctx context.Context, sdkTx sdk.Tx)
 	var txData coretypes.TxData
 	switch md.Type {
 	case coretypes.LegacyTxType:
+		// legacy txs have no access list to be signed
+		if len(accessList) > 0 {
+			return nil, nil, nil
+		}
+
 		txData = &coretypes.LegacyTx{
 			Nonce:    sig.Sequence,
 			Gas:      gas,
-- 
2.43.0


From 9bece4e3bc5236c9d7fda37fcdb0b80fb2206a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:31 +0000
Subject: [PATCH 08/36] fix: apply the access list of call messages

---
 x/evm/keeper/msg_server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/evm/keeper/msg_server.go b/x/evm/keeper/msg_server.go
index 49c8722..b72c813 100644
--- a/x/evm/keeper/msg_server.go
+++ b/x/evm/keeper/msg_server.go
@@ -224,7 +224,8 @@ func (ms *msgServerImpl) Call(ctx context.Context, msg *types.MsgCall) (*types.M
 		return nil, types.ErrInvalidValue.Wrap("value is out of range")
 	}
 
-	retBz, logs, err := ms.EVMCall(ctx, caller, contractAddr, inputBz, value, nil)
+	accessList := types.ConvertCosmosAccessListToEth(msg.AccessList)
+	retBz, logs, err := ms.EVMCall(ctx, caller, contractAddr, inputBz, value, accessList)
 	if err != nil {
 		return nil, types.ErrEVMCallFailed.Wrap(err.Error())
 	}
-- 
2.43.0


From e11bf7987972307a4283787734fd6756cb7ccc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:31 +0000
Subject: [PATCH 09/36] fix: use up the sequence of long addresses when they
 create contracts

---
 x/evm/keeper/msg_server.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/x/evm/keeper/msg_server.go b/x/evm/keeper/msg_server.go
index b72c813..79515ca 100644
--- a/x/evm/keeper/msg_server.go
+++ b/x/evm/keeper/msg_server.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 
+	"github.com/ethereum/go-ethereum/common"
 	"github.com/ethereum/go-ethereum/common/hexutil"
 	"github.com/ethereum/go-ethereum/core/tracing"
 	"github.com/holiman/uint256"
@@ -41,6 +42,12 @@ func (ms *msgServerImpl) Create(ctx context.Context, msg *types.MsgCreate) (*typ
 	if err != nil {
 		return nil, err
 	}
+	if len(sender) != common.AddressLength {
+		// evm increases the nonce of the shorthand account, not of the sender
+		if err := ms.increaseNonce(ctx, sender); err != nil {
+			return nil, err
+		}
+	}
 	if len(msg.Code) == 0 {
 		return nil, sdkerrors.ErrInvalidRequest.Wrap("empty code bytes")
 	}
@@ -105,6 +112,12 @@ func (ms *msgServerImpl) Create2(ctx context.Context, msg *types.MsgCreate2) (*t
 	if err != nil {
 		return nil, err
 	}
+	if len(sender) != common.AddressLength {
+		// evm increases the nonce of the shorthand account, not of the sender
+		if err := ms.increaseNonce(ctx, sender); err != nil {
+			return nil, err
+		}
+	}
 	if len(msg.Code) == 0 {
 		return nil, sdkerrors.ErrInvalidRequest.Wrap("empty code bytes")
 	}
-- 
2.43.0


From 27952138b8242fc53d8a703e0708ac1284afe15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:17 +0000
Subject: [PATCH 10/36] Revert "fix: apply the access list of call messages"

This reverts commit 9bece4e3bc5236c9d7fda37fcdb0b80fb2206a0a.
---
 x/evm/keeper/msg_server.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/x/evm/keeper/msg_server.go b/x/evm/keeper/msg_server.go
index 79515ca..af942ea 100644
--- a/x/evm/keeper/msg_server.go
+++ b/x/evm/keeper/msg_server.go
@@ -237,8 +237,7 @@ func (ms *msgServerImpl) Call(ctx context.Context, msg *types.MsgCall) (*types.M
 		return nil, types.ErrInvalidValue.Wrap("value is out of range")
 	}
 
-	accessList := types.ConvertCosmosAccessListToEth(msg.AccessList)
-	retBz, logs, err := ms.EVMCall(ctx, caller, contractAddr, inputBz, value, accessList)
+	retBz, logs, err := ms.EVMCall(ctx, caller, contractAddr, inputBz, value, nil)
 	if err != nil {
 		return nil, types.ErrEVMCallFailed.Wrap(err.Error())
 	}
-- 
2.43.0


From e60f3dd492ce3388413bd5b33fdfd3ccc3ccde6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:52 +0000
Subject: [PATCH 11/36] fix: refuse packets with a malformed evm hook memo

---
 app/ibc-hooks/receive.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/app/ibc-hooks/receive.go b/app/ibc-hooks/receive.go
index e4a9fd8..f06075c 100644
--- a/app/ibc-hooks/receive.go
+++ b/app/ibc-hooks/receive.go
@@ -27,10 +27,10 @@ func (h EVMHooks) onRecvIcs20Packet(
 	data transfertypes.FungibleTokenPacketData,
 ) ibcexported.Acknowledgement {
 	isEVMRouted, hookData, err := validateAndParseMemo(data.GetMemo())
-	if !isEVMRouted || hookData.Message == nil {
-		return im.App.OnRecvPacket(ctx, packet, relayer)
-	} else if err != nil {
+	if err != nil {
 		return newEmitErrorAcknowledgement(err)
+	} else if !isEVMRouted || hookData.Message == nil {
+		return im.App.OnRecvPacket(ctx, packet, relayer)
 	}
 
 	msg := hookData.Message
@@ -111,10 +111,10 @@ func (h EVMHooks) onRecvIcs721Packet(
 	data nfttransfertypes.NonFungibleTokenPacketData,
 ) ibcexported.Acknowledgement {
 	isEVMRouted, hookData, err := validateAndParseMemo(data.GetMemo())
-	if !isEVMRouted || hookData.Message == nil {
-		return im.App.OnRecvPacket(ctx, packet, relayer)
-	} else if err != nil {
+	if err != nil {
 		return newEmitErrorAcknowledgement(err)
+	} else if !isEVMRouted || hookData.Message == nil {
+		return im.App.OnRecvPacket(ctx, packet, relayer)
 	}
 
 	msg := hookData.Message
-- 
2.43.0


From b17e91913fafab34c73483f441f1f5afc50c0ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:52 +0000
Subject: [PATCH 12/36] fix: approve the tokens of a hook call to contracts
 named in bech32

---
 app/ibc-hooks/receive.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/app/ibc-hooks/receive.go b/app/ibc-hooks/receive.go
index f06075c..7f97882 100644
--- a/app/ibc-hooks/receive.go
+++ b/app/ibc-hooks/receive.go
@@ -63,8 +63,12 @@ func (h EVMHooks) onRecvIcs20Packet(
 	}
 
 	msg.Sender = intermediateSender
+	contractAddr, err := evmtypes.ContractAddressFromString(h.ac, msg.ContractAddr)
+	if err != nil {
+		return newEmitErrorAcknowledgement(err)
+	}
 	localDenom := LocalDenom(packet, data.Denom)
-	_, err = h.approveERC20(ctx, intermediateSender, common.HexToAddress(msg.ContractAddr), localDenom, data.Amount)
+	_, err = h.approveERC20(ctx, intermediateSender, contractAddr, localDenom, data.Amount)
 	if err != nil {
 		return newEmitErrorAcknowledgement(err)
 	}
@@ -148,9 +152,13 @@ func (h EVMHooks) onRecvIcs721Packet(
 
 	// approve the transfer of the NFT to the contract
 	msg.Sender = intermediateSender
+	contractAddr, err := evmtypes.ContractAddressFromString(h.ac, msg.ContractAddr)
+	if err != nil {
+		return newEmitErrorAcknowledgement(err)
+	}
 	localClassId := LocalClassId(packet, data.ClassId)
 	for _, tokenId := range data.TokenIds {
-		_, err = h.approveERC721(ctx, intermediateSender, common.HexToAddress(msg.ContractAddr), localClassId, tokenId)
+		_, err = h.approveERC721(ctx, intermediateSender, contractAddr, localClassId, tokenId)
 		if err != nil {
 			return newEmitErrorAcknowledgement(err)
 		}
-- 
2.43.0


From 3a0c767f74c0ae3d7183611537c48dac823cb4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:06 +0000
Subject: [PATCH 13/36] fix: approve the tokens of a hook call for tokens of
 contracts of this chain

---
 app/ibc-hooks/receive.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/ibc-hooks/receive.go b/app/ibc-hooks/receive.go
index 7f97882..25100b8 100644
--- a/app/ibc-hooks/receive.go
+++ b/app/ibc-hooks/receive.go
@@ -92,7 +92,7 @@ func (h EVMHooks) approveERC20(ctx sdk.Context, intermediateSender string, contr
 		return nil, err
 	}
 
-	erc20Addr, err := h.evmKeeper.GetContractAddrByDenom(ctx, denom)
+	erc20Addr, err := evmtypes.DenomToContractAddr(ctx, h.evmKeeper, denom)
 	if err != nil {
 		return nil, err
 	}
@@ -188,7 +188,7 @@ func (h EVMHooks) approveERC721(ctx sdk.Context, intermediateSender string, cont
 		return nil, err
 	}
 
-	erc721Addr, err := h.evmKeeper.GetContractAddrByClassId(ctx, classId)
+	erc721Addr, err := evmtypes.ContractAddressFromClassId(ctx, h.evmKeeper, classId)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From e738675bca8c7f04cec3fc7dc684836d3d0b5240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:57 +0000
Subject: [PATCH 14/36] fix: do not panic on a tx without a public key while
 looking for ethereum txs

---
 x/evm/keeper/txutils.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/x/evm/keeper/txutils.go b/x/evm/keeper/txutils.go
index 684acae..8347c02 100644
--- a/x/evm/keeper/txutils.go
+++ b/x/evm/keeper/txutils.go
@@ -231,7 +231,11 @@ func (u *TxUtils) ConvertCosmosTxToEthereumTx(ctx context.Context, sdkTx sdk.Tx)
 	gas := authTx.GetGas()
 	typeUrl := sdk.MsgTypeURL(msg)
 
+	// the public key can be omitted from a tx
 	sig := sigs[0]
+	if sig.PubKey == nil {
+		return nil, nil, nil
+	}
 	cosmosSender := sig.PubKey.Address()
 	if len(cosmosSender.Bytes()) != common.AddressLength {
 		return nil, nil, nil
@@ -432,7 +436,11 @@ func (u *TxUtils) IsEthereumTx(ctx context.Context, sdkTx sdk.Tx) (bool, error)
 		return false, nil
 	}
 
+	// the public key can be omitted from a tx
 	sig := sigs[0]
+	if sig.PubKey == nil {
+		return false, nil
+	}
 	cosmosSender := sig.PubKey.Address()
 	if len(cosmosSender.Bytes()) != common.AddressLength {
 		return false, nil
-- 
2.43.0


From 6439ca6e7ea97ed22a66849b667141f15804b89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:57 +0000
Subject: [PATCH 15/36] fix: do not panic on a call or create message without a
 value

---
 x/evm/keeper/txutils.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x/evm/keeper/txutils.go b/x/evm/keeper/txutils.go
index 8347c02..1ca0ffd 100644
--- a/x/evm/keeper/txutils.go
+++ b/x/evm/keeper/txutils.go
@@ -304,6 +304,9 @@ func (u *TxUtils) ConvertCosmosTxToEthereumTx(ctx context.Context, sdkTx sdk.Tx)
 		// When ethereum tx is converted into cosmos tx by ConvertEthereumTxToCosmosTx,
 		// the value is converted to cosmos fee unit from wei.
 		// So we need to convert it back to wei to get original ethereum tx and verify signature.
+		if callMsg.Value.IsNil() {
+			return nil, nil, nil
+		}
 		msgValue = callMsg.Value.BigInt()
 		value = types.ToEthersUint(decimals, msgValue)
 		accessList = types.ConvertCosmosAccessListToEth(callMsg.AccessList)
@@ -318,6 +321,9 @@ func (u *TxUtils) ConvertCosmosTxToEthereumTx(ctx context.Context, sdkTx sdk.Tx)
 		to = nil
 		input = data
 		// Same as above (MsgCall)
+		if createMsg.Value.IsNil() {
+			return nil, nil, nil
+		}
 		msgValue = createMsg.Value.BigInt()
 		value = types.ToEthersUint(decimals, msgValue)
 		accessList = types.ConvertCosmosAccessListToEth(createMsg.AccessList)
-- 
2.43.0


From 0ce546203f0792f1c395731bfd4b440820f48e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:57 +0000
Subject: [PATCH 16/36] fix: take only txs with unsigned 256-bit amounts for
 ethereum txs

---
 x/evm/keeper/txutils.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/x/evm/keeper/txutils.go b/x/evm/keeper/txutils.go
index 1ca0ffd..b8eae78 100644
--- a/x/evm/keeper/txutils.go
+++ b/x/evm/keeper/txutils.go
@@ -337,6 +337,13 @@ func (u *TxUtils) ConvertCosmosTxToEthereumTx(ctx context.Context, sdkTx sdk.Tx)
 		return nil, nil, nil
 	}
 
+	// amounts of ethereum txs are unsigned 256-bit integers
+	for _, amount := range []*big.Int{gasFeeCap, gasTipCap, value} {
+		if amount.Sign() < 0 || amount.BitLen() > 256 {
+			return nil, nil, nil
+		}
+	}
+
 	chainID := sdk.UnwrapSDKContext(ctx).ChainID()
 	ethChainID := types.ConvertCosmosChainIDToEthereumChainID(chainID)
 
-- 
2.43.0


From c32c64b10add0d1852d00aea910a21614f6bccfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:57 +0000
Subject: [PATCH 17/36] fix: index entries larger than the cache takes, and
 delete uncached ones

---
 indexer/store.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/indexer/store.go b/indexer/store.go
index dee7636..2ebb596 100644
--- a/indexer/store.go
+++ b/indexer/store.go
@@ -78,9 +78,11 @@ func (c CacheStore) Set(key, value []byte) error {
 	storetypes.AssertValidKey(key)
 	storetypes.AssertValidValue(value)
 
-	err := c.cache.Set(string(key), value)
-	if err != nil {
-		return errors.Wrap(err, "failed to set cache")
+	// an entry too large for the cache is kept in the store only
+	if err := c.cache.Set(string(key), value); err != nil {
+		if err := c.deleteCache(key); err != nil {
+			return err
+		}
 	}
 	c.store.Set(key, value)
 
@@ -91,15 +93,23 @@ func (c CacheStore) Set(key, value []byte) error {
 func (c CacheStore) Delete(key []byte) error {
 	storetypes.AssertValidKey(key)
 
-	err := c.cache.Delete(string(key))
-	if err != nil && errors.IsOf(err, bigcache.ErrEntryNotFound) {
-		return errors.Wrap(err, "failed to delete cache")
+	if err := c.deleteCache(key); err != nil {
+		return err
 	}
 	c.store.Delete(key)
 
 	return nil
 }
 
+// deleteCache removes the key from the cache, if it is there.
+func (c CacheStore) deleteCache(key []byte) error {
+	if err := c.cache.Delete(string(key)); err != nil && !errors.IsOf(err, bigcache.ErrEntryNotFound) {
+		return errors.Wrap(err, "failed to delete cache")
+	}
+
+	return nil
+}
+
 // Iterator iterates over a domain of keys in ascending order. End is exclusive.
 // Start must be less than end, or the Iterator is invalid.
 // Iterator must be closed by caller.
-- 
2.43.0


From 4b10d2335e0ad5165607600b959af53f2567befc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:57 +0000
Subject: [PATCH 18/36] fix: index transactions by zero-based positions

---
 indexer/abci.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexer/abci.go b/indexer/abci.go
index c8b6ef0..0c2b5a0 100644
--- a/indexer/abci.go
+++ b/indexer/abci.go
@@ -77,7 +77,6 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 		gasUsed := uint64(txResult.GasUsed)
 		cumulativeGasUsed += gasUsed
 
-		txIndex++
 		ethTxs = append(ethTxs, ethTx)
 
 		// extract logs and contract address from tx results
@@ -109,6 +108,7 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 		}
 
 		receipts = append(receipts, &receipt)
+		txIndex++
 	}
 
 	chainId := types.ConvertCosmosChainIDToEthereumChainID(sdkCtx.ChainID())
-- 
2.43.0


From e9fa414789b61e4e03d3d06d17fde8a074910790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:57 +0000
Subject: [PATCH 19/36] fix: index the rest of a block after a tx that cannot
 be converted

---
 indexer/abci.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexer/abci.go b/indexer/abci.go
index 0c2b5a0..21700bd 100644
--- a/indexer/abci.go
+++ b/indexer/abci.go
@@ -51,7 +51,7 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 		ethTx, _, err := keeper.NewTxUtils(e.evmKeeper).ConvertCosmosTxToEthereumTx(sdkCtx, tx)
 		if err != nil {
 			e.logger.Error("failed to convert CosmosTx to EthTx", "err", err)
-			return err
+			continue
 		}
 		if ethTx == nil {
 			continue
-- 
2.43.0


From 2f4114c3f03f5a459843eaad3848feaa6fc5c46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:24 +0000
Subject: [PATCH 20/36] fix: report only the result of the submitted tx to its
 sender

---
 jsonrpc/backend/tx.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/jsonrpc/backend/tx.go b/jsonrpc/backend/tx.go
index e7d4bcc..b24c73d 100644
--- a/jsonrpc/backend/tx.go
+++ b/jsonrpc/backend/tx.go
@@ -95,12 +95,17 @@ func (b *JSONRPCBackend) SendTx(tx *coretypes.Transaction) error {
 
 			b.logger.Debug("broadcast queued tx", "sender", senderHex, "txSeq", accSeq)
 			res, err := b.clientCtx.BroadcastTxSync(txBytes)
+			if err == nil && res.Code != 0 {
+				err = sdkerrors.ErrInvalidRequest.Wrapf("tx failed with code: %d: raw_log: %s", res.Code, res.RawLog)
+			}
 			if err != nil {
+				// the failure of another queued tx is not the result of the submitted one
+				if accSeq != txSeq {
+					b.logger.Error("failed to broadcast queued tx", "sender", senderHex, "txSeq", accSeq, "err", err)
+					break
+				}
 				return err
 			}
-			if res.Code != 0 {
-				return sdkerrors.ErrInvalidRequest.Wrapf("tx failed with code: %d: raw_log: %s", res.Code, res.RawLog)
-			}
 		} else {
 			break
 		}
-- 
2.43.0


From 867af979d8d8335ab1f6564c9dbee6261a03bbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:24 +0000
Subject: [PATCH 21/36] fix: guard the sender mutexes against concurrent map
 access

---
 jsonrpc/backend/backend.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jsonrpc/backend/backend.go b/jsonrpc/backend/backend.go
index c5933dd..5d3cc74 100644
--- a/jsonrpc/backend/backend.go
+++ b/jsonrpc/backend/backend.go
@@ -92,11 +92,10 @@ func (b *JSONRPCBackend) acquireAccMut(senderHex string) {
 // and decrements the reference count. If the reference count reaches zero,
 // the mutex is deleted.
 func (b *JSONRPCBackend) releaseAccMut(senderHex string) {
-	accMut := b.accMuts[senderHex]
-	accMut.mut.Unlock()
-
 	// critical section for rc and delete
 	b.mut.Lock()
+	accMut := b.accMuts[senderHex]
+	accMut.mut.Unlock()
 	accMut.rc--
 	if accMut.rc == 0 {
 		delete(b.accMuts, senderHex)
-- 
2.43.0


From 7b9975792529cc2dac2622cf0592fdd8424a6172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:24 +0000
Subject: [PATCH 22/36] fix: keep new block and pending transaction filters for
 the filter timeout

---
 jsonrpc/namespaces/eth/filters/api.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonrpc/namespaces/eth/filters/api.go b/jsonrpc/namespaces/eth/filters/api.go
index 092c837..019f697 100644
--- a/jsonrpc/namespaces/eth/filters/api.go
+++ b/jsonrpc/namespaces/eth/filters/api.go
@@ -188,6 +188,8 @@ func (api *FilterAPI) NewPendingTransactionFilter(fullTx *bool) (rpc.ID, error)
 
 	api.filtersMut.Lock()
 	api.filters[id] = &filter{
+		lastUsed: time.Now(),
+
 		txs:    make([]*rpctypes.RPCTransaction, 0),
 		hashes: make([]common.Hash, 0),
 		s:      s,
@@ -241,6 +243,8 @@ func (api *FilterAPI) NewBlockFilter() (rpc.ID, error) {
 
 	api.filtersMut.Lock()
 	api.filters[id] = &filter{
+		lastUsed: time.Now(),
+
 		hashes: make([]common.Hash, 0),
 		s:      s,
 	}
-- 
2.43.0


From 2982aa0dd6fd3d2500cd2e6c7349c721616f7fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:24 +0000
Subject: [PATCH 23/36] fix: export the application state

genutil is no app module, so its presence in the genesis order made every export fail.
---
 app/modules.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/modules.go b/app/modules.go
index 1f21ae2..3760ba6 100644
--- a/app/modules.go
+++ b/app/modules.go
@@ -188,7 +188,7 @@ can do so safely.
 func orderInitBlockers() []string {
 	return []string{
 		capabilitytypes.ModuleName, authtypes.ModuleName, evmtypes.ModuleName, banktypes.ModuleName,
-		opchildtypes.ModuleName, genutiltypes.ModuleName, authz.ModuleName, group.ModuleName, crisistypes.ModuleName,
+		opchildtypes.ModuleName, authz.ModuleName, group.ModuleName, crisistypes.ModuleName,
 		upgradetypes.ModuleName, feegrant.ModuleName, consensusparamtypes.ModuleName, ibcexported.ModuleName,
 		ibctransfertypes.ModuleName, ibcnfttransfertypes.ModuleName, icatypes.ModuleName, icaauthtypes.ModuleName,
 		ibcfeetypes.ModuleName, auctiontypes.ModuleName, oracletypes.ModuleName, marketmaptypes.ModuleName,
-- 
2.43.0


From a4f02235ecc4b832349e22b766af746a9f576e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:24 +0000
Subject: [PATCH 24/36] fix: do not mint balances a second time when importing
 an exported state

---
 x/bank/keeper/send.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/x/bank/keeper/send.go b/x/bank/keeper/send.go
index edb8944..5c57000 100644
--- a/x/bank/keeper/send.go
+++ b/x/bank/keeper/send.go
@@ -164,8 +164,25 @@ func (k EVMSendKeeper) SendCoins(ctx context.Context, fromAddr sdk.AccAddress, t
 
 // initBalances sets the balance (multiple coins) for an account by address.
 // An error is returned upon failure.
+//
+// The balances of an exported state are restored by evm module together with the vm
+// store, so only the coins which the account does not hold yet are minted.
 func (k EVMSendKeeper) initBalances(ctx context.Context, addr sdk.AccAddress, balances sdk.Coins) error {
-	return k.ek.MintCoins(ctx, addr, balances)
+	missing := sdk.NewCoins()
+	for _, coin := range balances {
+		balance, err := k.ek.GetBalance(ctx, addr, coin.Denom)
+		if err != nil {
+			return err
+		}
+
+		if balance.GT(coin.Amount) {
+			return fmt.Errorf("account %s already holds more than its genesis balance %s", addr, coin)
+		}
+
+		missing = missing.Add(sdk.NewCoin(coin.Denom, coin.Amount.Sub(balance)))
+	}
+
+	return k.ek.MintCoins(ctx, addr, missing)
 }
 
 // IsSendEnabledCoins checks the coins provided and returns an ErrSendDisabled
-- 
2.43.0


From 39a5f8e4dfc3c23d0eca59e4b5645877ebae93ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:24 +0000
Subject: [PATCH 25/36] fix: leave zero coins out of the exported supply

---
 x/bank/keeper/genesis.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/bank/keeper/genesis.go b/x/bank/keeper/genesis.go
index 46694df..04d0b2d 100644
--- a/x/bank/keeper/genesis.go
+++ b/x/bank/keeper/genesis.go
@@ -54,7 +54,7 @@ func (k BaseKeeper) ExportGenesis(ctx context.Context) *types.GenesisState {
 	return types.NewGenesisState(
 		k.GetParams(ctx),
 		k.GetAccountsBalances(ctx),
-		totalSupply,
+		sdk.NewCoins(totalSupply...), // a genesis supply has no zero coins
 		k.GetAllDenomMetaData(ctx),
 		k.GetAllSendEnabledEntries(ctx),
 	)
-- 
2.43.0


From 1295f0395ff9810cd150a79a4fe16a49b25e0bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:24 +0000
Subject: [PATCH 26/36] fix: list the balances of every holder exactly once

The balances of all accounts were collected by account, so the coins of an
account with a long address appeared twice, under the long and the short form,
and those of an address without an account record did not appear at all; the
exported supply then was refused at import.
---
 x/bank/keeper/view.go          | 15 +++++----------
 x/evm/keeper/erc20.go          | 15 +++++++++++++--
 x/evm/types/expected_keeper.go |  1 +
 3 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/x/bank/keeper/view.go b/x/bank/keeper/view.go
index c7fdd6f..82af7c4 100644
--- a/x/bank/keeper/view.go
+++ b/x/bank/keeper/view.go
@@ -132,17 +132,12 @@ func (k EVMViewKeeper) IterateAccountBalances(ctx context.Context, addr sdk.AccA
 // denominations that are provided to a callback. If true is returned from the
 // callback, iteration is halted.
 func (k EVMViewKeeper) IterateAllBalances(ctx context.Context, cb func(sdk.AccAddress, sdk.Coin) bool) {
-	k.ak.IterateAccounts(ctx, func(account sdk.AccountI) bool {
-		addr := account.GetAddress()
-		err := k.ek.IterateAccountBalances(ctx, addr, func(coin sdk.Coin) (bool, error) {
-			return cb(addr, coin), nil
-		})
-		if err != nil {
-			panic(err)
-		}
-
-		return false
+	err := k.ek.IterateAllBalances(ctx, func(addr sdk.AccAddress, coin sdk.Coin) (bool, error) {
+		return cb(addr, coin), nil
 	})
+	if err != nil {
+		panic(err)
+	}
 }
 
 // LockedCoins returns all the coins that are not spendable (i.e. locked) for an
diff --git a/x/evm/keeper/erc20.go b/x/evm/keeper/erc20.go
index 7ef9ad7..8794dbb 100644
--- a/x/evm/keeper/erc20.go
+++ b/x/evm/keeper/erc20.go
@@ -246,7 +246,18 @@ func (k ERC20Keeper) IterateAccountBalances(ctx context.Context, addr sdk.AccAdd
 		return err
 	}
 
-	return k.ERC20Stores.Walk(ctx, collections.NewPrefixedPairRange[[]byte, []byte](evmAddr.Bytes()), func(key collections.Pair[[]byte, []byte]) (stop bool, err error) {
+	return k.iterateBalances(ctx, collections.NewPrefixedPairRange[[]byte, []byte](evmAddr.Bytes()), func(_ sdk.AccAddress, coin sdk.Coin) (bool, error) {
+		return cb(coin)
+	})
+}
+
+// IterateAllBalances implements IERC20Keeper.
+func (k ERC20Keeper) IterateAllBalances(ctx context.Context, cb func(sdk.AccAddress, sdk.Coin) (bool, error)) error {
+	return k.iterateBalances(ctx, nil, cb)
+}
+
+func (k ERC20Keeper) iterateBalances(ctx context.Context, rng collections.Ranger[collections.Pair[[]byte, []byte]], cb func(sdk.AccAddress, sdk.Coin) (bool, error)) error {
+	return k.ERC20Stores.Walk(ctx, rng, func(key collections.Pair[[]byte, []byte]) (stop bool, err error) {
 		balance, err := k.balanceOf(ctx, common.BytesToAddress(key.K1()), common.BytesToAddress(key.K2()))
 		if err != nil {
 			balance = math.ZeroInt()
@@ -262,7 +273,7 @@ func (k ERC20Keeper) IterateAccountBalances(ctx context.Context, addr sdk.AccAdd
 			return false, nil
 		}
 
-		return cb(sdk.NewCoin(denom, balance))
+		return cb(key.K1(), sdk.NewCoin(denom, balance))
 	})
 }
 
diff --git a/x/evm/types/expected_keeper.go b/x/evm/types/expected_keeper.go
index 8585095..85138e9 100644
--- a/x/evm/types/expected_keeper.go
+++ b/x/evm/types/expected_keeper.go
@@ -50,6 +50,7 @@ type IERC20Keeper interface {
 	GetPaginatedBalances(ctx context.Context, pageReq *query.PageRequest, addr sdk.AccAddress) (sdk.Coins, *query.PageResponse, error)
 	GetPaginatedSupply(ctx context.Context, pageReq *query.PageRequest) (sdk.Coins, *query.PageResponse, error)
 	IterateAccountBalances(ctx context.Context, addr sdk.AccAddress, cb func(sdk.Coin) (bool, error)) error
+	IterateAllBalances(ctx context.Context, cb func(sdk.AccAddress, sdk.Coin) (bool, error)) error
 	IterateSupply(ctx context.Context, cb func(supply sdk.Coin) (bool, error)) error
 
 	// operations
-- 
2.43.0


From cfd37b2a2b56b1a7b53207cc58aa835b5bf33ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:52 +0000
Subject: [PATCH 27/36] fix: recognise an allowed publisher in every spelling
 of its address

---
 x/evm/keeper/msg_server.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/x/evm/keeper/msg_server.go b/x/evm/keeper/msg_server.go
index af942ea..b16bf4b 100644
--- a/x/evm/keeper/msg_server.go
+++ b/x/evm/keeper/msg_server.go
@@ -1,6 +1,7 @@
 package keeper
 
 import (
+	"bytes"
 	"context"
 	"errors"
 
@@ -70,7 +71,12 @@ func (ms *msgServerImpl) Create(ctx context.Context, msg *types.MsgCreate) (*typ
 	if len(params.AllowedPublishers) != 0 {
 		allowed := false
 		for _, publisher := range params.AllowedPublishers {
-			if msg.Sender == publisher {
+			// an address has more than one spelling
+			publisherAddr, err := ms.ac.StringToBytes(publisher)
+			if err != nil {
+				return nil, err
+			}
+			if bytes.Equal(sender, publisherAddr) {
 				allowed = true
 
 				break
@@ -140,7 +146,12 @@ func (ms *msgServerImpl) Create2(ctx context.Context, msg *types.MsgCreate2) (*t
 	if len(params.AllowedPublishers) != 0 {
 		allowed := false
 		for _, publisher := range params.AllowedPublishers {
-			if msg.Sender == publisher {
+			// an address has more than one spelling
+			publisherAddr, err := ms.ac.StringToBytes(publisher)
+			if err != nil {
+				return nil, err
+			}
+			if bytes.Equal(sender, publisherAddr) {
 				allowed = true
 
 				break
-- 
2.43.0


From 0e95cc50819b602ae0857ef3bbb8d625aeb6e27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:57 +0000
Subject: [PATCH 28/36] fix: eth_call passes the value on to the call

---
 jsonrpc/backend/eth.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/jsonrpc/backend/eth.go b/jsonrpc/backend/eth.go
index ac76657..89e8ba1 100644
--- a/jsonrpc/backend/eth.go
+++ b/jsonrpc/backend/eth.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"math/big"
 
+	"cosmossdk.io/math"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 	"github.com/ethereum/go-ethereum/common"
 	"github.com/ethereum/go-ethereum/common/hexutil"
@@ -81,10 +82,21 @@ func (b *JSONRPCBackend) Call(args rpctypes.TransactionArgs, blockNrOrHash *rpc.
 		contractAddr = args.To.Hex()
 	}
 
+	// convert value to the unit of the fee token
+	params, err := b.app.EVMKeeper.Params.Get(queryCtx)
+	if err != nil {
+		return nil, err
+	}
+	decimals, err := b.app.EVMKeeper.ERC20Keeper().GetDecimals(queryCtx, params.FeeDenom)
+	if err != nil {
+		return nil, err
+	}
+
 	res, err := keeper.NewQueryServer(b.app.EVMKeeper).Call(queryCtx, &types.QueryCallRequest{
 		Sender:       sender,
 		ContractAddr: contractAddr,
 		Input:        hexutil.Encode(args.GetData()),
+		Value:        math.NewIntFromBigInt(types.FromEthersUnit(decimals, args.Value.ToInt())),
 	})
 
 	if err != nil {
-- 
2.43.0


From a70663e0ca6e1a67f4cb5961f0c03e484e8fd557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:57 +0000
Subject: [PATCH 29/36] fix: eth_getBalance uses the fee denom of the requested
 block

---
 jsonrpc/backend/eth.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jsonrpc/backend/eth.go b/jsonrpc/backend/eth.go
index 89e8ba1..e3b96c0 100644
--- a/jsonrpc/backend/eth.go
+++ b/jsonrpc/backend/eth.go
@@ -26,7 +26,14 @@ func (b *JSONRPCBackend) GetBalance(address common.Address, blockNrOrHash rpc.Bl
 		return nil, err
 	}
 
-	feeDenom, decimals, err := b.feeDenomWithDecimals()
+	// use the fee denom of the requested block
+	params, err := b.app.EVMKeeper.Params.Get(queryCtx)
+	if err != nil {
+		return nil, err
+	}
+	feeDenom := params.FeeDenom
+
+	decimals, err := b.app.EVMKeeper.ERC20Keeper().GetDecimals(queryCtx, feeDenom)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 3dc297f1ff81b8c2a2864005be1f61ce5cf42ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:57 +0000
Subject: [PATCH 30/36] fix: eth_feeHistory tells the base fees that the blocks
 have

---
 jsonrpc/backend/feehistory.go | 43 +++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/jsonrpc/backend/feehistory.go b/jsonrpc/backend/feehistory.go
index ee25fff..23d1f8a 100644
--- a/jsonrpc/backend/feehistory.go
+++ b/jsonrpc/backend/feehistory.go
@@ -9,12 +9,10 @@ import (
 	"sync/atomic"
 
 	"github.com/ethereum/go-ethereum/common"
-	"github.com/ethereum/go-ethereum/consensus/misc/eip1559"
 	coretypes "github.com/ethereum/go-ethereum/core/types"
 	"github.com/ethereum/go-ethereum/rpc"
 
 	rpctypes "github.com/initia-labs/minievm/jsonrpc/types"
-	evmtypes "github.com/initia-labs/minievm/x/evm/types"
 )
 
 const (
@@ -45,7 +43,7 @@ type cacheKey struct {
 // processedFees contains the results of a processed block.
 type processedFees struct {
 	reward                       []*big.Int
-	baseFee, nextBaseFee         *big.Int
+	baseFee                      *big.Int
 	gasUsedRatio                 float64
 	blobGasUsedRatio             float64
 	blobBaseFee, nextBlobBaseFee *big.Int
@@ -167,7 +165,7 @@ func (b *JSONRPCBackend) FeeHistory(blocks uint64, unresolvedLastBlock rpc.Block
 		}
 		i := fees.blockNumber - oldestBlock
 		if fees.results.baseFee != nil {
-			reward[i], baseFee[i], baseFee[i+1], gasUsedRatio[i] = fees.results.reward, fees.results.baseFee, fees.results.nextBaseFee, fees.results.gasUsedRatio
+			reward[i], baseFee[i], gasUsedRatio[i] = fees.results.reward, fees.results.baseFee, fees.results.gasUsedRatio
 			blobGasUsedRatio[i], blobBaseFee[i], blobBaseFee[i+1] = fees.results.blobGasUsedRatio, fees.results.blobBaseFee, fees.results.nextBlobBaseFee
 		} else {
 			// getting no block and no error means we are requesting into the future (might happen because of a reorg)
@@ -179,6 +177,9 @@ func (b *JSONRPCBackend) FeeHistory(blocks uint64, unresolvedLastBlock rpc.Block
 	if firstMissing == 0 {
 		return common.Big0, nil, nil, nil, nil, nil, nil
 	}
+	if baseFee[firstMissing], err = b.nextBaseFee(oldestBlock + firstMissing); err != nil {
+		return common.Big0, nil, nil, nil, nil, nil, err
+	}
 	if len(rewardPercentiles) != 0 {
 		reward = reward[:firstMissing]
 	} else {
@@ -222,23 +223,37 @@ func (b *JSONRPCBackend) resolveBlockRange(reqEnd rpc.BlockNumber, blocks uint64
 	return uint64(reqEnd), blocks, nil
 }
 
-// processBlock takes a blockFees structure with the blockNumber, the header and optionally
-// the block field filled in, retrieves the block from the backend if not present yet and
-// fills in the rest of the fields.
-func (b *JSONRPCBackend) processBlock(bf *blockFees, percentiles []float64) {
-	ctx, err := b.app.CreateQueryContext(0, false)
+// nextBaseFee returns the base fee of the given block, or the base fee currently in
+// force if there is no such block yet. The base fee is set by the chain parameters,
+// so it cannot be derived from the gas usage of the preceding block.
+func (b *JSONRPCBackend) nextBaseFee(blockNumber uint64) (*big.Int, error) {
+	header, err := b.GetHeaderByNumber(rpc.BlockNumber(blockNumber))
 	if err != nil {
-		bf.err = err
-		return
+		return nil, err
+	}
+	if header != nil {
+		if header.BaseFee == nil {
+			return new(big.Int), nil
+		}
+		return header.BaseFee, nil
 	}
 
-	config := evmtypes.DefaultChainConfig(ctx)
+	queryCtx, err := b.getQueryCtx()
+	if err != nil {
+		return nil, err
+	}
+
+	return b.app.EVMKeeper.BaseFee(queryCtx)
+}
 
-	// Fill in base fee and next base fee.
+// processBlock takes a blockFees structure with the blockNumber, the header and optionally
+// the block field filled in, retrieves the block from the backend if not present yet and
+// fills in the rest of the fields.
+func (b *JSONRPCBackend) processBlock(bf *blockFees, percentiles []float64) {
+	// Fill in base fee.
 	if bf.results.baseFee = bf.header.BaseFee; bf.results.baseFee == nil {
 		bf.results.baseFee = new(big.Int)
 	}
-	bf.results.nextBaseFee = eip1559.CalcBaseFee(config, bf.header)
 	bf.results.blobBaseFee = new(big.Int)
 	bf.results.nextBlobBaseFee = new(big.Int)
 
-- 
2.43.0


From 372bede7ede675dd398bc5cdfa6bc58b9bc7717b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:57 +0000
Subject: [PATCH 31/36] fix: queries of contracts do not share their messages

---
 x/evm/types/query_cosmos.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/x/evm/types/query_cosmos.go b/x/evm/types/query_cosmos.go
index 86210ec..271d150 100644
--- a/x/evm/types/query_cosmos.go
+++ b/x/evm/types/query_cosmos.go
@@ -1,6 +1,8 @@
 package types
 
 import (
+	"reflect"
+
 	"github.com/cosmos/cosmos-sdk/codec"
 	proto "github.com/cosmos/gogoproto/proto"
 
@@ -12,6 +14,12 @@ type ProtoSet struct {
 	Response proto.Message
 }
 
+// newMessage returns an empty message of the same type as the given one; the
+// messages of a whitelist are shared by all queries and hence only tell types.
+func newMessage(msg proto.Message) proto.Message {
+	return reflect.New(reflect.TypeOf(msg).Elem()).Interface().(proto.Message)
+}
+
 type QueryCosmosWhitelist map[string]ProtoSet
 
 func DefaultQueryCosmosWhitelist() QueryCosmosWhitelist {
@@ -34,6 +42,8 @@ func DefaultQueryCosmosWhitelist() QueryCosmosWhitelist {
 
 // ConvertProtoToJSON unmarshal the given bytes into a proto message and then marshals it to json.
 func ConvertProtoToJSON(cdc codec.Codec, protoResponse proto.Message, bz []byte) ([]byte, error) {
+	protoResponse = newMessage(protoResponse)
+
 	// unmarshal binary into stargate response data structure
 	err := cdc.Unmarshal(bz, protoResponse)
 	if err != nil {
@@ -45,11 +55,12 @@ func ConvertProtoToJSON(cdc codec.Codec, protoResponse proto.Message, bz []byte)
 		return nil, err
 	}
 
-	protoResponse.Reset()
 	return bz, nil
 }
 
 func ConvertJSONToProto(cdc codec.Codec, protoRequest proto.Message, bz []byte) ([]byte, error) {
+	protoRequest = newMessage(protoRequest)
+
 	// unmarshal binary into stargate response data structure
 	err := cdc.UnmarshalJSON(bz, protoRequest)
 	if err != nil {
@@ -61,6 +72,5 @@ func ConvertJSONToProto(cdc codec.Codec, protoRequest proto.Message, bz []byte)
 		return nil, err
 	}
 
-	protoRequest.Reset()
 	return bz, nil
 }
-- 
2.43.0


From 0873672c9a921ad13a06c6df7b248020c1d578ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:02 +0000
Subject: [PATCH 32/36] fix: the supply of a denom without contract is zero

---
 x/evm/keeper/erc20.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x/evm/keeper/erc20.go b/x/evm/keeper/erc20.go
index 8794dbb..08c40ac 100644
--- a/x/evm/keeper/erc20.go
+++ b/x/evm/keeper/erc20.go
@@ -220,7 +220,9 @@ func (k ERC20Keeper) GetPaginatedSupply(ctx context.Context, pageReq *query.Page
 // GetSupply implements IERC20Keeper.
 func (k ERC20Keeper) GetSupply(ctx context.Context, denom string) (math.Int, error) {
 	contractAddr, err := types.DenomToContractAddr(ctx, k, denom)
-	if err != nil {
+	if err != nil && errors.Is(err, collections.ErrNotFound) {
+		return math.ZeroInt(), nil
+	} else if err != nil {
 		return math.ZeroInt(), err
 	}
 
-- 
2.43.0


From 0e31c9c29c8db68346abf7a20a6769493fa5fa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:44:26 +0000
Subject: [PATCH 33/36] fix: the description of a coin does not depend on how
 it is asked for

---
 x/bank/keeper/grpc_query.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/x/bank/keeper/grpc_query.go b/x/bank/keeper/grpc_query.go
index 4b9b414..3c90081 100644
--- a/x/bank/keeper/grpc_query.go
+++ b/x/bank/keeper/grpc_query.go
@@ -208,19 +208,13 @@ func (k BaseKeeper) DenomMetadataByQueryString(c context.Context, req *types.Que
 		return nil, status.Errorf(codes.InvalidArgument, "empty request")
 	}
 
-	if err := sdk.ValidateDenom(req.Denom); err != nil {
-		return nil, status.Error(codes.InvalidArgument, err.Error())
-	}
-
-	ctx := sdk.UnwrapSDKContext(c)
-
-	metadata, found := k.GetDenomMetaData(ctx, req.Denom)
-	if !found {
-		return nil, status.Errorf(codes.NotFound, "client metadata for denom %s", req.Denom)
+	res, err := k.DenomMetadata(c, &types.QueryDenomMetadataRequest{Denom: req.Denom})
+	if err != nil {
+		return nil, err
 	}
 
 	return &types.QueryDenomMetadataByQueryStringResponse{
-		Metadata: metadata,
+		Metadata: res.Metadata,
 	}, nil
 }
 
-- 
2.43.0


From 87b5eeff2ea33e911911762c40a5f61949d24231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:44:26 +0000
Subject: [PATCH 34/36] fix: eth_getTransactionByBlockNumberAndIndex at the
 latest block

---
 jsonrpc/backend/tx.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonrpc/backend/tx.go b/jsonrpc/backend/tx.go
index b24c73d..f15eb7d 100644
--- a/jsonrpc/backend/tx.go
+++ b/jsonrpc/backend/tx.go
@@ -253,12 +253,16 @@ func (b *JSONRPCBackend) GetTransactionByBlockHashAndIndex(hash common.Hash, idx
 
 // GetTransactionByBlockNumberAndIndex returns the transaction at the given block number and index.
 func (b *JSONRPCBackend) GetTransactionByBlockNumberAndIndex(blockNum rpc.BlockNumber, idx hexutil.Uint) (*rpctypes.RPCTransaction, error) {
+	number, err := b.resolveBlockNr(blockNum)
+	if err != nil {
+		return nil, err
+	}
+
 	queryCtx, err := b.getQueryCtx()
 	if err != nil {
 		return nil, err
 	}
 
-	number := uint64(blockNum.Int64())
 	rpcTx, err := b.app.EVMIndexer().TxByBlockAndIndex(queryCtx, number, uint64(idx))
 	if err != nil && errors.Is(err, collections.ErrNotFound) {
 		return nil, nil
-- 
2.43.0


From e8077ced9098612d729caa0e85880fd2f1162e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:44:26 +0000
Subject: [PATCH 35/36] fix: eth_getBlockByHash tells null of a block that is
 not there

---
 jsonrpc/backend/block.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonrpc/backend/block.go b/jsonrpc/backend/block.go
index c792df9..a136da0 100644
--- a/jsonrpc/backend/block.go
+++ b/jsonrpc/backend/block.go
@@ -131,7 +131,10 @@ func (b *JSONRPCBackend) GetBlockByHash(hash common.Hash, fullTx bool) (map[stri
 	}
 
 	blockNumber, err := b.app.EVMIndexer().BlockHashToNumber(queryCtx, hash)
-	if err != nil {
+	if err != nil && errors.Is(err, collections.ErrNotFound) {
+		return nil, nil
+	} else if err != nil {
+		b.logger.Error("failed to get block number by hash", "err", err)
 		return nil, err
 	}
 
-- 
2.43.0


From a4cb77b6a3d47e9f3483902f406fbca3327984cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:44:26 +0000
Subject: [PATCH 36/36] fix: eth_getBlockReceipts is null for an unknown block

---
 jsonrpc/backend/tx.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jsonrpc/backend/tx.go b/jsonrpc/backend/tx.go
index f15eb7d..d4013a3 100644
--- a/jsonrpc/backend/tx.go
+++ b/jsonrpc/backend/tx.go
@@ -414,7 +414,13 @@ func (b *JSONRPCBackend) getBLockReceipts(blockNumber uint64) ([]*coretypes.Rece
 
 func (b *JSONRPCBackend) GetBlockReceipts(ctx context.Context, blockNrOrHash rpc.BlockNumberOrHash) ([]map[string]interface{}, error) {
 	blockNumber, err := b.resolveBlockNrOrHash(blockNrOrHash)
-	if err != nil {
+	if err != nil && errors.Is(err, collections.ErrNotFound) {
+		return nil, nil
+	} else if err != nil {
+		return nil, err
+	}
+
+	if header, err := b.GetHeaderByNumber(rpc.BlockNumber(blockNumber)); err != nil || header == nil {
 		return nil, err
 	}
 
-- 
2.43.0

