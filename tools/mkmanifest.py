"""Writes MANIFEST.json from the list of checks."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ADDR = "TLA+ specification of CIP-19 addresses (Address.tla) model-checked with TLC; TLC- and driver-generated scenarios replayed into the library, recorded traces validated by TLC"
TX = "TLA+ specification of transaction assembly (Tx.tla, Builder.tla) model-checked with TLC; generated call histories replayed into the library, recorded traces validated by TLC"
KEY = "TLA+ specification of Ed25519 and BIP32-Ed25519 (Ed25519.tla, Keys.tla) checked with TLC; generated scenarios replayed into the library, recorded traces validated by TLC"
PROTO = "TLA+ specification of JSON and the parameter file (JsonText.tla, Protocol.tla); generated files loaded by the library, recorded traces validated by TLC"
NODE = "TLA+ specification of the node clients and their backends (Node.tla, NodeClient.tla) model-checked with TLC; generated sessions replayed against stand-in backends, recorded traces validated by TLC"
T = {"C0%d" % i: ADDR for i in range(1, 8)}
T.update({"C08": TX, "C09": TX})
T.update({"C%d" % i: TX for i in range(10, 16)})
T.update({"C%d" % i: KEY for i in range(16, 21)})
T["C21"] = PROTO
T.update({"C%d" % i: NODE for i in range(22, 26)})
T["C26"] = "TLA+ model of concurrent calls (Conc.tla) model-checked with TLC; concurrent sessions executed with and without the race detector, the trace of every goroutine validated by TLC as if it were alone"
T["C27"] = "TLA+ specification of the ledger and of payments (Ledger.tla, MCWallet.tla) model-checked with TLC; TLC- and driver-generated payment histories executed against stand-in backends that keep a ledger, recorded traces validated by TLC"
NOTE = {
    "C0": "Exhaustive for the specification within its bounds (MC*.tla); for the library, every generated trace is decided exactly, byte for byte, by the specification. Inputs outside the generated scenarios are not covered. Trusted: TLC, the primitives in spec/java (hashes, modular arithmetic; self-tested against published vectors), the driver.",
}
checks = []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)["id"]
    checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                   "evidence_file": "evidence/%s.json" % p, "technique": T[p], "level": "model_checking", "level_note": NOTE["C0"]})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [],
           "notes": "No hooks: the checks drive the public API. spec/ is the specification (TLA+), driver/ executes scenarios, check.py runs a check; see DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
