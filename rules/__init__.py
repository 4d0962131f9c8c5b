REGISTRY = {
    "C01": ("combinators", "c01"), "C02": ("combinators", "c02"), "C03": ("combinators", "c03"), "C04": ("combinators", "c04"),
    "C08": ("signatures", "c08"), "C12": ("settle", "c12"), "C13": ("errors", "c13"), "C14": ("blocking", "c14"), "C15": ("channels", "c15"), "C16": ("provider", "c16"),
    "C17": ("provider", "c17"),
    "C24": ("automation", "c24"), "C23": ("automation", "c23"), "C25": ("automation", "c25"), "C26": ("automation", "c26"), "C28": ("events", "c28"), "C27": ("settings", "c27"), "C39": ("answers", "c39"), "C36": ("features", "c36"),
    "C30": ("naming", "c30"), "C35": ("entry", "c35"), "C34": ("mocked", "c34"), "C33": ("rootstack", "c33"), "C29": ("dependencies", "c29"), "C37": ("hierarchy", "c37"), "C31": ("hierarchy", "c31"), "C32": ("hierarchy", "c32"),
    "C21": ("config", "c21"), "C22": ("config", "c22"),
    "C20": ("untouched", "c20"),
    "C18": ("dynamic", "c18"), "C19": ("dynamic", "c19"),
    "C10": ("options", "c10"), "C11": ("merging", "c11"),
    "C40": ("inbound", "c40"), "C05": ("outbound", "c05"), "C06": ("inbound", "c06"), "C07": ("inbound", "c07"), "C09": ("outbound", "c09"), "C38": ("outbound", "c38"),
}
NOT_APPLICABLE = {}
AI = "interprocedural path-sensitive abstract interpretation of the SDK source"
_N = {
    "C01": AI + " (secretness future of each combinator's result as a dataflow fact)",
    "C02": AI + " (dependency-set future as a taint fact)",
    "C03": AI + " (knownness future; callback call sites guarded by it)",
    "C04": AI + " (value-in-place tracking of opaque atoms)",
    "C05": AI + " (taint: plaintext of a secret input must sit under the envelope in the captured request)",
    "C06": AI + " (taint from the answer's secret envelopes to output flags)",
    "C07": AI + " (unknown marker as a typestate of the value, both directions)",
    "C08": "cross-language constant extraction (Go, TypeScript, Python sources) plus abstract interpretation of encoder against decoder",
    "C12": AI + " with exceptional edges injected at each raising function (settle-exactly-once typestate of futures)",
    "C13": AI + " with exceptional edges; task escape/await tracking, plus an AST rule over every task creation",
    "C14": "effect analysis over the interpreted call paths (blocking stub calls only under a worker-thread frame) plus a syntactic caller closure",
    "C15": "call-site query over the syntax tree with import resolution and constant propagation of the options argument",
    "C16": AI + " over histories of two requests; lock-region and escape check of module state",
    "C19": AI + " (effect analysis: every outside attribute assigned must be restored on every exit, incl. exceptional)",
    "C20": AI + " (ownership/effect analysis: no write to an object the caller owns)",
    "C26": AI + " with exceptional edges at each acquisition (acquire/release typestate)",
    "C24": AI + " against a command recorder; flag table read from the CLI's Go sources",
    "C28": "Go struct/JSON-tag extraction as oracle plus abstract interpretation of the decoders",
    "C39": "Go struct/JSON-tag extraction as oracle plus abstract interpretation of the decoders",
    "C35": AI + " of the executable script; flags and exit constants read from the Go host",
}
_L = "Sound up to the modelled Python subset, library models and bounded shapes listed in the evidence; analysis limits become undecided obligations, never alarms."
NOTES = {i: (_N.get(i, AI), _L) for i in REGISTRY}
