"""What each check runs: mc: model checking runs, gen: scenario generators in TLA+,
trace: the trace specification, thorough: the scale of the thorough tier."""
ADDR = dict(trace="TraceAddr")
KEY = dict(trace="TraceKeys")
TX = dict(trace="TraceTx")
NODE = dict(trace="TraceNode", shards=24)
PROPS = {p: dict(ADDR) for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07")}
PROPS.update({p: dict(KEY) for p in ("C16", "C17", "C18", "C19", "C20")})
PROPS.update({p: dict(TX) for p in ("C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15")})
MCTX = dict(module="MCTx", cfg="MCTx.cfg", thorough="MCTxThorough.cfg")
for p in ("C08", "C09", "C10", "C11", "C12", "C13", "C14"):
    PROPS[p]["mc"] = [MCTX]
for p in ("C11", "C12"):
    PROPS[p]["gen"] = [dict(module="GenTx")]
PROPS["C15"]["mc"] = [dict(module="BuilderHeap", cfg="MCHeap.cfg", thorough="MCHeapThorough.cfg")]
PROPS["C15"]["gen"] = [dict(module="GenHeap", simulate=45, depth=16)]
PROPS["C21"] = dict(trace="TraceProto")
PROPS.update({p: dict(NODE) for p in ("C22", "C23", "C24", "C25")})
NC = dict(module="NodeClient", env={"EMIT": "1"}, expand=True)
for p, c in (("C22", "GenNodeAll.cfg"), ("C23", "GenUtxos.cfg"), ("C24", "GenSubmit.cfg"), ("C25", "GenQueries.cfg")):
    PROPS[p]["mc"] = [dict(module="NodeClient", cfg="MCNode.cfg", thorough="MCNodeThorough.cfg")]
    PROPS[p]["gen"] = [dict(NC, cfg=c)]
PROPS["C25"]["gen"][0]["thorough"] = "GenQueriesThorough.cfg"

def gen(p, module, cfg, thorough=None, **kw):
    PROPS[p].setdefault("gen", []).append(dict(module=module, cfg=cfg, thorough=thorough or cfg, env={"EMIT": "1"}, **kw))


# runs that check invariants and emit what they explore as scenarios
for p in ("C01", "C02"):
    gen(p, "MCAddr", "MCAddr.cfg", "MCAddrThorough.cfg")
gen("C03", "MCAddr", "MCAddrText.cfg", "MCAddrTextThorough.cfg")
gen("C03", "MCAddr", "MCAddrTextB.cfg", "MCAddrTextB.cfg")
gen("C04", "MCAddr", "MCAddrBytes.cfg", "MCAddrBytesThorough.cfg")
for p in ("C03", "C04", "C06"):
    gen(p, "GenByron", "GenByron.cfg", "GenByronThorough.cfg")
gen("C05", "MCNat", "MCNat.cfg", "MCNatThorough.cfg")
gen("C05", "MCNat", "MCNatLong.cfg")
gen("C07", "AddrHeap", "AddrHeap.cfg", "AddrHeapThorough.cfg", expand=True)
gen("C16", "MCKeys", "MCKeysSign.cfg", "MCKeysThorough.cfg")
gen("C17", "MCKeys", "MCKeys.cfg", "MCKeysThorough.cfg")
gen("C20", "MCCurve", "MCCurveA.cfg")
gen("C20", "MCCurve", "MCCurveMul.cfg", "MCCurveMulThorough.cfg")
gen("C21", "GenProto", "GenProto.cfg")
for p in ("C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15"):
    c = "GenHist" + ("C11" if p == "C12" else p)
    gen(p, "GenHist", c + ".cfg", c + "Thorough.cfg")

# goroutines at work together: the driver is built with the race detector
PROPS["C26"] = dict(race=True, areas=dict(tx=("TraceTx", ["C08", "C09", "C10", "C12", "C14", "C15"]), addr=("TraceAddr", ["C02", "C06", "C07", "C01"]), proto=("TraceProto", ["C21"]),
                                          key=("TraceKeys", ["C16", "C17", "C18", "C19"]), node=("TraceNode", ["C23", "C24"])), shards=3,
                     mc=[dict(module="Conc", cfg="Conc.cfg", thorough="ConcThorough.cfg")])

# payments from seed to ledger
PROPS["C27"] = dict(trace="TraceWallet", shards=16, mc=[dict(module="MCWallet", cfg="MCWallet.cfg", thorough="MCWalletThorough.cfg")])
gen("C27", "MCWallet", "GenWalletA.cfg", "GenWalletAThorough.cfg")
gen("C27", "MCWallet", "GenWalletB.cfg", "GenWalletBThorough.cfg")
gen("C27", "MCWallet", "GenWalletC.cfg", "GenWalletCThorough.cfg")
