"""Which specification configurations decide which property."""

PLAN = {}


def prop(pid, *parts, **kw):
    PLAN[pid] = dict(parts=list(parts), **kw)


# ---------------------------------------------------------------- EVMFrames

F_INV = ["Conservation", "TokSane", "NoNegative", "SurvivorsOnly", "Authorised", "StaticPure",
         "CleanIdle", "DeadIsNew", "GoneIsGone", "CodeHasNonce"]
F_PROP = ["NonceMono", "QueryPure", "FailRestores"]
F_ALL = {"sstore", "tstore", "tcopy", "log", "sload", "tload", "balance", "codesize", "who", "call", "static",
         "delegate", "value", "create", "create2", "destruct", "tokmint", "toksend", "newtok", "execsend",
         "execforeign", "execkind", "execcall", "revert", "invalid"}
F_KINDS = {"call", "create", "query", "qcreate"}


def frames(ops, ex_ops, kinds=F_KINDS, ex_kinds=frozenset({"call"}), ex_max=4, quick=1200, thorough=20000, ntx=4, depth=5):
    base = {"Owner": "A"}
    return {
        "module": "EVMFrames", "family": "frames",
        "exhaustive": {
            "consts": dict(base, EOAs={"U"}, Base={"A", "B"}, Recs={"R1"}, Keys={1}, Vals={1}, MaxTx=1, MinOps=0, MaxOps=ex_max,
                           MaxDepth=3, MaxBad=1, InitBal=3, Ops=set(ex_ops), TxKinds=set(ex_kinds), Record=False),
            "thorough": {"MaxOps": ex_max + 1},
            "invariants": F_INV, "properties": F_PROP, "view": "View"},
        "simulate": {
            "consts": dict(base, EOAs={"U", "V"}, Base={"A", "B", "C"}, Recs={"R1", "R2"}, Keys={1, 2}, Vals={0, 1, 2, 3}, MaxTx=ntx,
                           MinOps=6, MaxOps=26, MaxDepth=depth, MaxBad=3, InitBal=20, Ops=set(ops), TxKinds=set(kinds), Record=True),
            "invariants": F_INV, "quick_num": quick, "thorough_num": thorough, "procs": 6},
    }


MIX = dict(quick=500, thorough=12000)


def mixed():
    p = frames(F_ALL, [], **MIX)
    del p["exhaustive"]
    return p


prop("E01", frames({"sstore", "sload", "tstore", "log", "call", "static", "delegate", "value", "create", "create2", "toksend", "tokmint",
                    "newtok", "destruct", "balance", "codesize", "revert", "invalid", "execsend"},
                   {"sstore", "log", "call", "delegate", "value", "create", "toksend", "execsend", "revert"}), mixed())
prop("E02", frames({"tstore", "tcopy", "tload", "sload", "call", "static", "delegate", "create", "create2", "execcall", "revert", "invalid", "destruct"},
                   {"tstore", "tcopy", "call", "static", "delegate", "create", "revert"}, ex_max=5), mixed())
prop("E03", frames({"execsend", "execforeign", "execkind", "execcall", "call", "static", "delegate", "value", "create", "newtok", "revert", "invalid",
                    "sstore", "destruct"},
                   {"execsend", "execforeign", "execkind", "execcall", "call", "delegate", "create", "revert"}, ex_max=5), mixed())
prop("E04", frames({"log", "call", "static", "delegate", "value", "create", "create2", "toksend", "tokmint", "newtok", "revert", "invalid", "destruct", "execsend"},
                   {"log", "call", "static", "delegate", "value", "toksend", "create", "revert"}, kinds={"call", "create", "query"}), mixed())
prop("E05", frames({"create", "create2", "destruct", "codesize", "balance", "sstore", "sload", "call", "delegate", "value", "revert", "invalid", "tstore", "tcopy"},
                   {"create", "create2", "destruct", "sstore", "call", "value", "revert"}, kinds={"call", "create"}, ex_kinds={"call", "create"}, ntx=6), mixed())
prop("E06", frames({"call", "value", "balance", "create", "create2", "destruct", "delegate", "static", "execsend", "revert", "invalid", "who"},
                   {"call", "value", "create", "destruct", "execsend", "revert"}, ex_kinds={"call", "create"}), mixed())
prop("E07", frames(F_ALL, {"sstore", "log", "call", "value", "create", "newtok", "execsend", "revert"}, kinds={"query", "qcreate", "call"},
                   ex_kinds={"call", "query", "qcreate"}, ex_max=3), mixed())

# ---------------------------------------------------------------- Ledger

L_INV = ["SupplyIsSum", "NoNegative", "OnlyKnown", "HeldIsListed", "OneToOne", "ListedIsRegistered"]
L_PROP = ["ConStable", "ForeignSupply", "RegStable", "RegOnly"]
L_MODS = {"OP", "TR", "FC", "MN"}
L_BASE = dict(Mods=L_MODS, Minters={"OP", "TR", "MN"}, Burners={"OP", "TR"}, Created0={"stake"})


def ledger(acts, ex_acts, chain={"stake", "ubar"}, customs=frozenset(), tok=3, quick=240, thorough=5000, steps=30, rich=True,
           ex_customs=frozenset(), ex_steps=4):
    return {
        "module": "Ledger", "family": "ledger",
        "exhaustive": {
            "consts": dict(L_BASE, Mods={"OP", "FC"}, Minters={"OP"}, Burners={"OP"}, Users={"U1"}, Chain={"stake", "ubar"}, Customs=set(ex_customs), Amts={1},
                           MaxSteps=ex_steps, MaxTok=2, Acts=set(ex_acts), Rich=False, Record=False),
            "thorough": {"MaxSteps": ex_steps + 1},
            "invariants": L_INV, "properties": L_PROP, "view": "View"},
        "simulate": {
            "consts": dict(L_BASE, Users={"U1", "U2"}, Chain=set(chain), Customs=set(customs), Amts={1, 2, 4}, MaxSteps=steps, MaxTok=tok,
                           Acts=set(acts), Rich=rich, Record=True),
            "invariants": L_INV, "properties": L_PROP, "quick_num": quick, "thorough_num": thorough, "procs": 8},
    }


prop("B01", ledger({"multi", "modsend", "mint", "burn", "erc20", "factory", "tokburn"}, {"multi", "modsend", "mint", "burn", "factory", "erc20"}, chain={"stake", "ubar", "uzed"}, tok=4),
     must_exercise=["mint.true", "burn.true", "burn.false", "tokmint.true", "tokburn.true"])
prop("B02", ledger({"multi", "send", "modsend", "mint", "erc20", "tokburn", "allow", "factory", "custom"}, {"send", "mint", "erc20", "factory", "custom"}, customs={"K1", "K2"}, ex_customs={"K1"}),
     must_exercise=["transfer.true", "transferfrom.true", "burnfrom.true", "deploy.true", "registerstore.true"])
prop("B03", ledger({"send", "multi", "modsend", "mint", "setsend", "factory", "erc20"}, {"send", "multi", "mint", "setsend", "modsend"}, chain={"stake", "ubar", "uzed"}),
     dict(ledger({"send", "multi", "modsend", "mint", "burn", "rules", "delegate", "erc20"}, {"send", "mint", "rules", "modsend", "delegate"}, ex_steps=3, quick=160)),
     must_exercise=["send.true", "send.false", "setsend.true", "setdefault.true", "modtoacc.true", "rule.true", "delegate.true", "undelegate.true",
                    "redirected", "refused"])
prop("B04", ledger({"multi", "mint", "burn", "factory", "custom", "sudo", "owner", "erc20", "send"}, {"mint", "factory", "custom", "owner", "erc20"}, customs={"K1", "K2"}, ex_customs={"K1", "K2"}, chain={"stake", "ubar", "uzed"}, tok=4),
     must_exercise=["mint.true", "sudo.false", "setowner.true", "deploy.true", "newtoken.true"])
prop("B05", ledger({"multi", "custom", "factory", "erc20", "mint", "send"}, {"custom", "factory", "erc20", "mint"}, customs={"K1", "K2"}, ex_customs={"K1", "K2"}),
     must_exercise=["register.true", "register.false", "registerother.false", "registerstore.true", "params.true", "deploy.false", "deploy.true"])

# ---------------------------------------------------------------- TxLifecycle

T_INV = ["Conserved", "NoDebt", "MadeUsed", "MadeOnce", "RefundOnce"]
T_PROP = ["SeqMono", "SeqExact", "FailedClean", "RejectedNothing", "MutNever", "FeesFromPayer"]
T_ALL = {"revert", "invalid", "heavy", "request", "caught", "granter", "mut", "cosmos", "check", "upper", "modes"}


def txlife(feats, ex_feats=None, quick=1200, thorough=16000, prices={0, 1, 3}):
    p = {
        "module": "TxLifecycle", "family": "txlife",
        "simulate": {
            "consts": dict(Rich={"U1", "U2", "LO", "MU"}, Long={"LO"}, Multi={"MU"}, Feats=set(feats), Prices=set(prices), Keys={1, 2}, Vals={0, 1, 2}, Pays={0, 1, 2},
                           Ratios={0, 50, 33, 100}, MaxBlocks=5, MaxTxs=14, Record=True),
            "invariants": T_INV, "properties": T_PROP, "quick_num": quick, "thorough_num": thorough, "procs": 8},
    }
    if ex_feats is not None:
        p["exhaustive"] = {
            "consts": dict(Rich={"U1"}, Long=set(), Multi=set(), Feats=set(ex_feats), Prices={1}, Keys={1}, Vals={1}, Pays={0, 1}, Ratios={50}, MaxBlocks=2, MaxTxs=2, Record=False),
            "thorough": {"MaxTxs": 3},
            "invariants": T_INV, "properties": T_PROP, "view": "View"}
    return p


prop("T01", txlife({"revert", "invalid", "heavy", "request", "cosmos", "check", "upper"}, {"revert", "cosmos"}), txlife(T_ALL, quick=400),
     must_exercise=["eth.ok", "eth.failed", "eth.rejected", "cos.ok", "cos.failed", "cos.rejected", "check.true", "check.false", "msg.create2.ok"])
prop("T02", txlife({"revert", "heavy", "granter", "caught", "cosmos", "check"}, {"revert", "cosmos", "granter"}), txlife(T_ALL, quick=400),
     must_exercise=["eth.ok", "eth.failed", "cos.ok", "cos.failed", "eth.rejected", "granter"])
prop("T03", txlife({"mut", "revert", "cosmos", "check", "modes"}, {"mut", "revert", "cosmos"}), txlife(T_ALL, quick=400),
     must_exercise=["mut." + m for m in ("gas feeup feedown feeother value data aclist nonce cap tip type sigv sigr malleate sender pubkey chain kind nomemo "
                                         "extramemo msgs othermsg to fee memo msg accnum sigseq sigbit mode who").split()] +
                   ["mode." + m for m in ("direct", "amino", "eip191")] + ["members.2.ok", "members.3.ok", "members.1.rejected"])
prop("T05", txlife({"revert", "invalid", "heavy", "request", "caught", "cosmos", "upper", "granter"}, {"revert", "invalid", "cosmos"}), txlife(T_ALL, quick=400),
     must_exercise=["eth.failed", "cos.failed", "quiet", "msg.call.request", "msg.call.heavy", "msg.call.invalid", "msg.create.invalid", "msg.badhex.ok"])

# ---------------------------------------------------------------- TxConvert

prop("T04", {
    "module": "TxConvert", "family": "convert",
    "exhaustive": {
        "consts": dict(Decs={15, 16, 17, 18, 19, 20}, ValM={0, 1, 7, 12, 105}, ValE={7, 8, 9, 10, 11, 12}, CapM={0, 1, 3, 14}, CapE={5, 7, 8, 9, 10, 12},
                       Gases={10, 37, 100}, MaxSteps=1, Record=False),
        "thorough": {"ValM": {0, 1, 7, 12, 105, 999}, "CapM": {0, 1, 3, 14, 333}, "Gases": {1, 10, 37, 100, 999}},
        "invariants": ["ValueExact", "RefusedRight", "FeeCovers"], "properties": ["NonceUsed", "SeenOnlyOk"], "view": "View"},
    "simulate": {
        "consts": dict(Decs={0, 6, 9, 17, 18, 19, 24}, ValM={1, 12, 999, 3004007}, ValE={7, 9, 10, 11, 13, 19, 28, 32, 43}, CapM={1, 7, 15},
                       CapE={1, 4, 5, 7, 9, 10, 12, 15, 22, 40}, Gases={300000, 323457, 500001}, MaxSteps=14, Record=True),
        "properties": ["NonceUsed", "SeenOnlyOk"], "quick_num": 800, "thorough_num": 16000, "procs": 8},
}, must_exercise=["eth.ok", "eth.failed", "eth.refused", "eth.rejected", "gasprice", "chain.unprotected", "chain.other", "chain.blob"] +
    [f"dec{d}.{r}" for d in (0, 6, 9, 17, 18, 19, 24) for r in ("ok", "refused", "rejected")] +
    [f"type.{t}.{o}" for t in ("legacy", "acl", "dyn") for o in ("A", "E", "NEW")] +
    ["mut." + m for m in "valueup valuedown feeup feedown nofee nilvalue typo".split()])

# ---------------------------------------------------------------- Collections

N_INV = ["OneToOne", "TokSane"]
N_PROP = ["MadeStable", "OnlyListed", "BatchDone", "Consent"]
N_ALL = {"class", "mints", "transfers", "burns", "direct"}


def collections(acts, maxlen, steps=30, quick=700):
    return {
        "module": "Collections", "family": "collections",
        "exhaustive": {
            "consts": dict(Ibc={"ibc/A"}, Plain={"cls"}, Own=False, Names={"1", "01"}, Uris={"u"}, Acts=set(acts), MaxLen=2, MaxSteps=3, Record=False),
            "thorough": {"MaxSteps": 4},
            "invariants": N_INV, "properties": N_PROP, "view": "View"},
        "simulate": {
            "consts": dict(Ibc={"ibc/A", "ibc/B"}, Plain={"cls"}, Own=True, Names={"1", "2", "3", "44", "01", "+1", "x", "x ", "X"}, Uris={"u", "v", ""}, Acts=set(acts),
                           MaxLen=maxlen, MaxSteps=steps, Record=True),
            "invariants": N_INV, "properties": N_PROP, "quick_num": quick, "thorough_num": 30000, "procs": 8},
    }


prop("N01", collections(N_ALL, 3),
     must_exercise=[f"{a}.{o}" for a in "mints transfers burns transfer safetransfer burn mint approve".split() for o in ("true", "false")] + ["class.true", "operator.true"])
prop("N02", collections(N_ALL - {"direct"}, 4), collections(N_ALL, 3, quick=300),
     must_exercise=[f"{a}.batch.{o}" for a in "mints transfers burns".split() for o in ("true", "false")])

# ---------------------------------------------------------------- IbcHooks

I_KINDS = {"none", "text", "json", "array", "cbonly", "call", "callcb", "badmsg", "badfield", "badevm", "badaddr", "badinput"}
I_PROP = ["AsIntermediary", "RefusedNothing", "OnlyOwnFunds", "OnlyAllowed", "OnlyAllowance", "OnlyApproval", "PlainIsPlain", "CallbackRight",
          "RefundAlways", "SettledOnce"]


def ibc(acts, kinds=I_KINDS, ex_acts=frozenset({"recv", "nrecv", "send", "settle", "acl"}), ex_kinds=frozenset({"none", "call", "badmsg"}), quick=400, thorough=6000):
    base = dict(MaxOut=2, MaxSteps=3)
    return {
        "module": "IbcHooks", "family": "ibchooks",
        "exhaustive": {
            "consts": dict(base, Contracts={"R", "X", "E"}, Chans={"A"}, Users={"U1"}, Strangers={"F1"}, Amts={1}, Ids={"1"}, Vals={1},
                           Kinds=set(ex_kinds), Acts=set(ex_acts), Record=False),
            "thorough": {"MaxSteps": 4},
            "invariants": ["NoNegative", "NativeKept"], "properties": I_PROP, "view": "View"},
        "simulate": {
            "consts": dict(Contracts={"R", "X", "Z", "L", "Q", "E"}, Chans={"A", "B"}, Users={"U1", "U2"}, Strangers={"F1", "F2", "L1"}, Amts={0, 1, 3, 5},
                           Ids={"1", "2", "3"}, Vals={1, 2, 5}, Kinds=set(kinds), Acts=set(acts), MaxOut=10, MaxSteps=30, Record=True),
            "invariants": ["NoNegative", "NativeKept"], "properties": I_PROP, "quick_num": quick, "thorough_num": thorough, "procs": 4, "depth": 60},
    }


prop("I01", ibc({"recv", "nrecv", "send", "nsend", "settle", "replay", "acl"}),
     must_exercise=[f"{a}.{k}.true" for a in ("recv", "nrecv") for k in ("none", "text", "json", "array", "cbonly", "call", "callcb")] +
     [f"{a}.{k}.false" for a in ("recv", "nrecv") for k in ("call", "badmsg", "badfield", "badevm", "badaddr", "badinput")] +
     [f"{a}.call.{m}.{s}.true" for a in ("recv", "nrecv") for m in ("note", "pull") for s in ("hex", "lower", "bech")])
prop("I02", ibc({"send", "nsend", "settle", "acl", "recv", "nrecv"}, kinds={"none", "call"}, ex_acts={"send", "nsend", "settle", "acl", "recv"}, ex_kinds={"none"}, quick=350),
     must_exercise=[f"settle.{h}.{t}" for h in ("ok", "error", "timeout") for t in ("first", "again")] + ["nsend.true", "send.true"])

# ---------------------------------------------------------------- Indexer, CacheStore

X_ODD = {"cos", "memo", "nokey", "two", "garbage", "novalue", "badaddr", "badhex", "negtip", "negcap", "negvalue", "badtype", "hugetip"}


def indexer(acts, quick, thorough, odd=X_ODD, steps=24, ex=True):
    p = {
        "module": "Indexer", "family": "indexer",
        "simulate": {
            "consts": dict(Users={"U1", "U2"}, Keys={1, 2}, Vals={1, 2, 3}, Pays={0, 1, 2}, Topics={1, 2, 3, 4, 5, 6, 7}, Odd=set(odd), Acts=set(acts),
                           MaxTxs=5, MaxLogs=3, MaxSteps=steps, MaxBlocks=20, Record=True),
            "invariants": ["Committed", "Running", "Inverse"], "properties": ["Durable", "Effects"],
            "quick_num": quick, "thorough_num": thorough, "procs": 8},
    }
    if ex:
        p["exhaustive"] = {
            "consts": dict(Users={"U1"}, Keys={1}, Vals={1}, Pays={0}, Topics={1}, Odd={"cos"}, Acts=set(acts) & {"block", "stop"},
                           MaxTxs=2, MaxLogs=1, MaxSteps=5, MaxBlocks=2, Record=False),
            "thorough": {"MaxSteps": 6, "Pays": {0, 1}},
            "invariants": ["Committed", "Running", "Inverse"], "properties": ["Durable", "Effects"], "view": "View"}
    return p


FILTERLIFE = {
    "module": "FilterLife", "family": "filterlife", "flip_true": True,
    "exhaustive": {
        "consts": dict(Kinds={"blocks", "logs"}, T=3, MaxFilters=2, MaxBlocks=2, MaxSteps=9, Record=False), "thorough": {"MaxSteps": 12},
        "invariants": ["Apart", "News"], "properties": ["Others", "OnceEach"], "view": "View"},
    "simulate": {"consts": dict(Kinds={"blocks", "logs", "pending", "full"}, T=6, MaxFilters=8, MaxBlocks=12, MaxSteps=60, Record=True),
                 "invariants": ["Apart", "News"], "quick_num": 64, "thorough_num": 1200, "procs": 4, "depth": 90},
}

X_KINDS = [f"{k}.{r}" for k in ("call", "create") for r in ("ok", "failed", "rejected")]
prop("X01", indexer({"block"}, 560, 9000),
     must_exercise=X_KINDS + [f"notindexed.{k}" for k in sorted(X_ODD)] + ["type.legacy", "type.acl", "type.dyn", "big", "announced.logs"])
prop("X02", indexer({"block", "stop"}, 240, 6000), {
    "module": "CacheStore", "family": "cachestore",
    "exhaustive": {
        "consts": dict(Keys={1, 2}, Vals={1, 2, 3}, MaxSteps=6, Record=False), "thorough": {"MaxSteps": 9, "Keys": {1, 2, 3}},
        "invariants": ["Coherent"], "properties": ["Kept"], "view": "View"},
    "simulate": {"consts": dict(Keys={1, 2, 3, 4}, Vals={1, 2, 3, 4}, MaxSteps=60, Record=True), "invariants": ["Coherent"], "properties": ["Kept"],
                 "quick_num": 320, "thorough_num": 8000, "procs": 4, "depth": 100},
}, must_exercise=["stop", "absent", "indexed"] + [f"{a}.true" for a in ("get", "has", "list", "back", "set")] + ["restart.false", "write.false", "delete.false"])
prop("J02", indexer({"block", "query"}, 200, 5000, odd={"cos", "memo", "two", "garbage", "badaddr"}), indexer({"block", "query", "stop"}, 60, 1500, ex=False), FILTERLIFE,
     must_exercise=X_KINDS + ["viewed", "query", "poll", "long", "latesttx"] + [f"ask.{k}.{o}" for k in ("call", "create", "gas", "gascreate") for o in ("true", "false")] + [f"{k}.poll.{o}" for k in ("blocks", "logs", "pending", "full") for o in ("true", "false")])


def txpool(senders, cap, gap, mpool, acts, quick, thorough, ex=True):
    p = {
        "module": "TxPool", "family": "txpool", "env": {"ZZ_POOLCAP": str(cap)},
        "simulate": {
            "consts": dict(Senders=senders, Cap=cap, MaxGap=gap, MaxWait=1, MaxPool=mpool, Acts=acts, MaxSteps=40, Record=True),
            "invariants": ["Contiguous", "OneEach"], "quick_num": quick, "thorough_num": thorough, "procs": 8, "depth": 60},
    }
    if ex:
        p["exhaustive"] = {
            "consts": dict(Senders={"A", "B"}, Cap=2, MaxGap=1, MaxWait=1, MaxPool=2, Acts={"submit", "direct", "block"}, MaxSteps=5, Record=False),
            "thorough": {"MaxSteps": 6},
            "invariants": ["InOrder", "OnceOnly", "Contiguous", "OneEach"], "properties": ["NothingDue", "Apart", "Refused"], "view": "View"}
    return p


prop("J01", txpool({"A", "B", "C"}, 8, 3, 6, {"submit", "direct", "block", "storm", "poll"}, 260, 8000),
     txpool({"A", "B", "C", "D"}, 40, 9, 12, {"submit", "block", "storm", "poll", "flood"}, 64, 1600, ex=False),
     must_exercise="submit reply.go reply.lost direct block storm poll flood announced dropped lose end.ok end.low end.rejected end.lost big poor".split())

# ------------------------------------------------------------------ FeeView

V_ACTS = {"block", "change", "read", "submit"}
FEEVIEW = {
    "module": "FeeView", "family": "feeview",
    "exhaustive": {
        "consts": dict(Coins={"D6", "D18"}, Users={"U1"}, MaxTxs=1, CapBlocks=2, CapHeaders=3, Tips={0, 1000}, Acts=V_ACTS, MaxSteps=3, Record=False),
        "thorough": {"MaxTxs": 2},
        "invariants": ["Announced", "Rising", "Offered"], "properties": ["Fixed", "ReadOnly"], "view": "View"},
    "simulate": {
        "consts": dict(Coins={"D0", "D6", "D18"}, Users={"U1", "U2"}, MaxTxs=4, CapBlocks=4, CapHeaders=7, Tips={0, 7, 1000, 2000, 5000, 60000}, Acts=V_ACTS, MaxSteps=40, Record=True),
        "invariants": ["Announced", "Rising", "Offered"], "properties": ["Fixed", "ReadOnly"], "quick_num": 240, "thorough_num": 8000, "procs": 8, "depth": 60},
}
prop("J03", FEEVIEW, must_exercise=["balance.formerly", "base", "reward", "tx.dyn", "tx.legacy", "tx.acl", "bad.true", "history.false", "history.4", "history.5", "submit.full", "submit.half", "submit.false", "price.true", "txs.0", "txs.4"])

# ------------------------------------------------------------------ Views

VIEWS = {
    "module": "Views", "family": "views",
    "exhaustive": {
        "consts": dict(Pairs={"AAA/USD", "BBB/USD"}, Denoms={"ubar"}, MaxAsks=1, MaxStorm=2, Acts={"world", "run"}, MaxSteps=4, Record=False),
        "thorough": {"MaxSteps": 5},
        "invariants": ["RoundTrip", "Pointwise", "Listed", "OneId"], "properties": ["ReadOnly", "Ids", "Kept"], "view": "View"},
    "simulate": {
        "consts": dict(Pairs={"AAA/USD", "BBB/USD", "CCC/AAA"}, Denoms={"ubar", "uzed"}, MaxAsks=6, MaxStorm=6, Acts={"world", "run", "storm"}, MaxSteps=24, Record=True),
        "invariants": ["RoundTrip", "Pointwise", "Listed", "OneId"], "properties": ["ReadOnly", "Ids", "Kept"], "quick_num": 480, "thorough_num": 12000, "procs": 8, "depth": 60},
}
prop("P03", VIEWS, must_exercise=["%s.true" % k for k in "blocked module tocosmos toevm todenom toerc20 price prices pairs".split()]
     + ["%s.false" % k for k in "toevm toerc20 price prices bad unknown".split()]
     + ["how.%s" % h for h in "call static frame poor".split()] + ["storm", "run.tx.true", "run.query.true", "run.query.false", "mint", "price.true", "price.false"])
NOT_APPLICABLE = {}

# ---------------------------------------------------------------- ChainParams

C_PROP = ["ByAuthority", "MetaByAuthority", "RefusedNothing", "UpdateOnlyParams", "PublishersOnly", "NeverLost"]
C_ALL = {"blocks", "look", "update", "create", "pay", "price", "describe"}


def chainparams(acts, ex_acts, quick=320, thorough=8000, jumps={1, 2, 3, 40, 150, 254, 255, 256, 257, 300}, steps=40, ex_steps=5):
    return {
        "module": "ChainParams", "family": "chainparams",
        "exhaustive": {
            "consts": dict(Coins={"stake", "ubar"}, Window=3, Retains={0, 2, 3, 5}, Jumps={1, 3, 5}, Acts=set(ex_acts), MaxSteps=ex_steps, Record=False),
            "thorough": {"MaxSteps": ex_steps + 1},
            "invariants": ["ParamsValid", "Conserved", "WindowSeen", "MetaValid"], "properties": C_PROP, "view": "View"},
        "simulate": {
            "consts": dict(Coins={"stake", "ubar", "K6", "K17"}, Window=256, Retains={0, 1, 255, 256, 257, 300, 1000}, Jumps=set(jumps),
                           Acts=set(acts), MaxSteps=steps, Record=True),
            "invariants": ["ParamsValid", "Conserved"], "properties": C_PROP, "quick_num": quick, "thorough_num": thorough, "procs": 8, "depth": 80},
    }


prop("W01", chainparams({"blocks", "look", "update"}, {"blocks", "look", "update"}, quick=240, ex_steps=5), txlife({"revert", "cosmos"}, quick=64, thorough=1000),
     must_exercise=["blocks.true", "seen", "unseen", "update.AU.true", "call", "nested", "static"])
prop("P01", chainparams(C_ALL, {"update", "pay", "describe"}, jumps={1, 2, 40}, ex_steps=4),
     must_exercise=["update.AU.true", "update.AU.false", "update.U1.false", "update.P.false", "pay.true", "describe.true", "describe.false", "metapages"] +
     [f"update.{d}.true" for d in ("stake", "ubar", "K6", "K17")] + [f"update.{d}.false" for d in ("", "unknown", "evm.none", "evm.revert", "evm.plain", "evm.text", "evm.puppet")])
prop("P02", chainparams({"update", "create", "blocks"}, {"update", "create"}, jumps={1}, ex_steps=4),
     must_exercise=[f"{h}.{w}.{o}" for h in ("create", "create2") for w in ("U1", "U2", "LO", "P", "low", "up") for o in ("true", "false")])
prop("W02", chainparams({"blocks", "look", "update", "price"}, {"blocks", "look", "update", "price"}, jumps={1, 2, 300}, ex_steps=4),
     must_exercise=["blocks.true", "look.true", "price.true", "update.AU.true", "call", "nested", "static"])

# ---------------------------------------------------------------- Deploy

prop("P04", {
    "module": "Deploy", "family": "deploy",
    "exhaustive": {
        "consts": dict(Makers={"U1", "F"}, Progs={"S", "D", "O", "V"}, Salts={1}, Vals={0, 1}, Acts={"make", "pay", "poke", "kill"}, MaxSteps=3, Record=False),
        "thorough": {"MaxSteps": 4},
        "invariants": ["Conserved"], "properties": ["CodeForEver", "OwnPlace", "Stores", "Counts", "RefusedNothing"], "view": "View"},
    "simulate": {
        "consts": dict(Makers={"U1", "U2", "LO", "M", "F"}, Progs={"A", "B", "S", "E", "O", "D", "V", "I", "X", "G", "none", "bad"}, Salts={0, 1, 2}, Vals={0, 1, 2, 9},
                       Acts={"make", "pay", "poke", "kill", "reimport"}, MaxSteps=30, Record=True),
        "invariants": ["Conserved"], "properties": ["CodeForEver", "OwnPlace", "Stores", "Counts", "RefusedNothing"], "quick_num": 240, "thorough_num": 8000, "procs": 8, "depth": 60},
}, must_exercise=[f"{w}.{h}.{o}" for w in ("U1", "U2", "LO", "M", "F") for h in ("create", "create2") for o in ("true", "false")] +
     [f"{p}.{o}" for p in "ABSEOD" for o in ("true", "false")] + [f"{p}.false" for p in ("V", "I", "X", "G", "none", "bad")] +
     ["acl.true", "acl.false", "paybank.true", "paycall.true", "poke.true", "kill.true", "reimport"])

# ---------------------------------------------------------------- AddrForms

A_PROP = ["OwnerForEver", "ByActing", "Loses", "LosesNft", "Arrives"]
A_ACTS = {"send", "pay", "call", "create", "ask", "deploy", "gift", "nft"}


def addrforms(acts, quick=320, thorough=8000, ex_steps=4):
    return {
        "module": "AddrForms", "family": "addrforms",
        "exhaustive": {
            "consts": dict(Accounts={"S1", "L1", "L2", "U1", "K", "LK"}, Ids={"1"}, Acts=set(acts), MaxSteps=ex_steps, Record=False),
            "thorough": {"MaxSteps": ex_steps + 1},
            "invariants": ["OwnersFit", "NoNegative"], "properties": A_PROP, "view": "View"},
        "simulate": {
            "consts": dict(Accounts={"S1", "L1", "L2", "L3", "U1", "M", "LM", "P", "LP", "K", "LK"}, Ids={"1", "2", "3"}, Acts=set(acts), MaxSteps=30, Record=True),
            "invariants": ["OwnersFit", "NoNegative"], "properties": A_PROP, "quick_num": quick, "thorough_num": thorough, "procs": 8, "depth": 60},
    }


prop("A01", addrforms(A_ACTS),
     must_exercise=[f"{a}.{o}" for a in ("send", "pay", "call", "create", "ask", "deploy", "gift", "nftmint", "nftmove") for o in ("true", "false")] +
     [f"{a}.{o}" for a in ("S1", "L1", "L2", "L3", "U1", "LK") for o in ("true", "false")] + ["LM.false", "LP.false"])

# ---------------------------------------------------------------- export and import: each of the models, with the state exported and imported in between

prop("G01",
     ledger({"multi", "send", "modsend", "mint", "burn", "erc20", "factory", "tokburn", "allow", "setsend", "owner", "custom", "reimport"},
            {"send", "mint", "erc20", "custom", "reimport"}, chain={"stake", "ubar", "uzed"}, customs={"K1", "K2"}, ex_customs={"K1"}, tok=4, quick=120, thorough=3000),
     collections(N_ALL | {"reimport"}, 3, quick=160),
     frames(F_ALL, {"sstore", "create", "destruct", "toksend"}, kinds=F_KINDS | {"reimport"}, ex_kinds={"call", "reimport"}, ntx=6, quick=240, thorough=6000),
     txlife({"revert", "request", "cosmos", "check", "upper", "granter", "export"}, quick=200, thorough=4000),
     chainparams(C_ALL | {"reimport"}, {"update", "blocks", "reimport"}, quick=80, thorough=2000, jumps={1, 3, 257, 300}, ex_steps=4),
     addrforms(A_ACTS | {"reimport"}, quick=80, thorough=2000, ex_steps=3),
     must_exercise=["reimport.true", "export"])
