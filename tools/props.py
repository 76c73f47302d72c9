"""The properties: what they say, and which harness entries decide them."""
ASSUMPTIONS = [
    "A transaction that fails or panics leaves no trace (the chain's guarantee); the harness chain reverts it.",
    "Messages, events and storage keep their production shapes; the symbolic build replaces only cosmwasm-std's JSON codec by a self-describing binary one of the same data model and its 256-bit arithmetic by solver-native operations (harness/patched). Every counterexample and a sample of explored paths are replayed against the unpatched build.",
    "rustc 1.77.2's LLVM IR at opt-level 1 for x86_64 stands for the wasm build; contract code has no target-specific parts.",
    "Addresses are distinct lower-case strings; the address validator accepts them all.",
    "Times stay below 2^33 seconds so that nanosecond timestamps fit 64 bits.",
]
PROPS = {}


def P(id, title, statement, over, quant, why, files, mech, entries, bounds, code, assumptions=(), budget=None, level_note=None):
    PROPS[id] = dict(
        title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
        entries=entries, bounds=bounds, code=code, assumptions=list(assumptions), budget=budget or {}, level_note=level_note,
    )


def E(crate, name, covers="", quick=None, thorough=None, **kw):
    return dict(crate=crate, name=name, covers=covers.split(), params=dict(quick=quick or {}, thorough=thorough or {}), **kw)


from propdefs import *  # noqa: E402,F401,F403
