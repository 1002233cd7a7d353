"""What the verdicts rest on."""
GENERAL = [
    'the symbolic executor and verification-condition generator in /verif/e57v (ir.py, sym.py, loops.py, intx.py) and z3 are correct',
    "clang 18's translation of the library's sources to LLVM IR is correct; the passes sroa, early-cse and simplifycfg preserve meaning",
    'memory allocation succeeds; distinct objects do not overlap; contracts in models.py for the C++ runtime and libstdc++ hold',
    'text of exception messages and diagnostic output is not modelled',
    'machine integers are exact (bit-vectors; the integer translation carries every wrap-around); floating point is either exact IEEE or uninterpreted as each unit states',
]


def base(res):
    con = sorted({c for r in res for c in r.get('contracts', [])})
    return ['z3 (python3-vt)', 'clang++-18 / opt-18', '/verif/e57v verification-condition generator'] + ['assumed contract: ' + c[:160] for c in con]
