package zzverif

// A JSON-RPC backend on a chain, with a stand-in for the consensus node.

import (
	"context"
	"time"

	"cosmossdk.io/log"
	rpcclient "github.com/cometbft/cometbft/rpc/client"
	cmtcore "github.com/cometbft/cometbft/rpc/core/types"
	cmttypes "github.com/cometbft/cometbft/types"
	"github.com/cosmos/cosmos-sdk/client"
	"github.com/cosmos/cosmos-sdk/server"

	"github.com/initia-labs/minievm/jsonrpc/backend"
	rpcconfig "github.com/initia-labs/minievm/jsonrpc/config"
)

// node stands in for the consensus node that the backend talks to.
type node struct {
	client.CometRPC
	rpcclient.MempoolClient
	rpcclient.NetworkClient
	height    func() int64
	broadcast func(tx []byte) (*cmtcore.ResultBroadcastTx, error)
	pool      func() []cmttypes.Tx
}

func (n *node) Status(context.Context) (*cmtcore.ResultStatus, error) {
	return &cmtcore.ResultStatus{SyncInfo: cmtcore.SyncInfo{LatestBlockHeight: n.height()}}, nil
}

func (n *node) BroadcastTxSync(_ context.Context, tx cmttypes.Tx) (*cmtcore.ResultBroadcastTx, error) {
	return n.broadcast(tx)
}

func (n *node) UnconfirmedTxs(_ context.Context, limit *int) (*cmtcore.ResultUnconfirmedTxs, error) {
	txs := n.pool()
	total := len(txs)
	k := 30
	if limit != nil {
		k = *limit
	}
	if len(txs) > k {
		txs = txs[:k]
	}
	return &cmtcore.ResultUnconfirmedTxs{Count: len(txs), Total: total, Txs: txs}, nil
}

func (n *node) NumUnconfirmedTxs(context.Context) (*cmtcore.ResultUnconfirmedTxs, error) {
	return &cmtcore.ResultUnconfirmedTxs{Count: len(n.pool()), Total: len(n.pool())}, nil
}

func newBackend(c *chain, n *node, cap int) *backend.JSONRPCBackend {
	cfg := rpcconfig.DefaultJSONRPCConfig()
	if cap > 0 {
		cfg.QueuedTransactionCap = cap
	}
	return newBackendWith(c, n, cfg)
}

func newBackendTimeout(c *chain, n *node, d time.Duration) *backend.JSONRPCBackend {
	cfg := rpcconfig.DefaultJSONRPCConfig()
	cfg.FilterTimeout = d
	return newBackendWith(c, n, cfg)
}

func newBackendWith(c *chain, n *node, cfg rpcconfig.JSONRPCConfig) *backend.JSONRPCBackend {
	cctx := client.Context{}.WithClient(n).WithTxConfig(c.txCfg).WithChainID(chainID)
	return must(backend.NewJSONRPCBackend(c.app, log.NewNopLogger(), server.NewDefaultContext(), cctx, cfg))
}
