"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
T = "contracts on the real functions, discharged by symbolic execution of /repo's source with symbolic sizes (normal forms, z3)"
NOTE = {
    "C01": "finite tables: every obligation evaluated on the tables the real code builds, by exhaustive case distinction",
    "C02": "finite tables: every obligation evaluated on the tables the real code builds, by exhaustive case distinction",
    "C03": "all sizes (symbolic) and all groups; axis placements of rank up to 6 sampled by seed in the quick tier",
    "C04": "all sizes (symbolic), groups and (acting, domain) pairs; axis placements sampled by seed in the quick tier",
    "C05": "all sizes and entries (symbolic), all pairs and group axis positions of rank up to 6",
    "C06": "all shapes (symbolic) of rank up to 7, all axis pairs",
    "C07": "all kernel, channel and filter sizes and entries (symbolic), all groups, subgroups and layer kinds",
    "C08": "all sizes and entries (symbolic); the Keras convolution itself is an assumed contract",
    "C09": "all sizes and entries (symbolic); ungrouped convolutions (groups > 1 is a known finding); strides along several independent axes at once in the thorough tier",
    "C10": "all sizes and entries (symbolic); the Keras convolution itself is an assumed contract",
    "C11": "all sizes and entries (symbolic); the Keras pooling itself is an assumed contract",
    "C12": "all sizes and entries (symbolic), but for same_equiv padding with an odd built-in total, a known finding",
    "C13": "all sizes and entries (symbolic)",
    "C14": "all sizes, kernel sizes and dilations (symbolic), strides by their parity; several strided axes at once in the thorough tier",
    "C15": "all sizes and kernel sizes (symbolic), strides by their parity; any padding string (symbolic)",
    "C16": "all sizes (symbolic)",
    "C17": "frame condition of one call, with exceptions injected at every call to the backend",
    "C18": "all sizes and entries (symbolic); options sampled by seed in the quick tier",
    "C19": "all sizes and entries (symbolic); options sampled by seed in the quick tier",
    "C20": "layers are uninterpreted functions; all sizes and entries (symbolic); configurations sampled by seed in the quick tier",
    "C21": "all sizes and entries (symbolic), every registered name and convenience constructor",
    "C22": "all sizes and entries (symbolic)",
}
checks = [
    {"property": p, "quick_cmd": f"./check {p} --tier quick", "thorough_cmd": f"./check {p} --tier thorough", "evidence_file": f"evidence/{p}.json",
     "technique": T, "level": "proof", "level_note": n}
    for p, n in NOTE.items()
]
NA = {
    "C23": "concurrency: contracts over single calls cannot express interleavings of threads, and there is no permission-based verifier for Python here",
    "C24": "floating-point rounding: the contracts are over real numbers; the rounding of the backend's convolution is outside of the code under contract",
    "C25": "the TensorFlow and PyTorch backends are not installed; the contracts are stated against one assumed contract of the Keras operations",
}
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()]}
m["hooks"] = {"guard": "GVC_NONE", "enable": "no hooks: the verifier executes /repo's source as it is", "source_commits": []}
with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
