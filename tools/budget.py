"""Runs and seconds per build variant, and what makes a run non-trivial."""
_W = "Each run draws %s for up to %d simulated threads, a schedule and faults from one seed; non-trivial: %s."
_TWO = "at least two threads with two or more operations each, or four operations in total"
_FOUR = "at least four operations in total"
RULE = {
    "C01": _W % ("programs of handle operations", 4, _TWO),
    "C02": _W % ("programs of handle operations", 4, _TWO),
    "C03": _W % ("programs of handle operations", 4, _TWO),
    "C04": _W % ("programs of builder operations", 3, _FOUR),
    "C05": _W % ("programs of byte queue operations", 3, _FOUR),
    "C06": _W % ("programs of string queue operations", 3, _FOUR),
    "C07": _W % ("programs of queue iterations, drains and splits", 2, _FOUR),
    "C08": _W % ("programs of reads", 2, _FOUR),
    "C09": _W % ("programs of writes, extensions and formatting", 2, _FOUR),
    "C10": _W % ("programs of body polls and changes", 2, _FOUR),
    "C11": _W % ("programs of direct fills of builders", 3, _FOUR),
    "C12": _W % ("programs of interning operations", 4, _TWO),
    "C13": _W % ("programs of handle, queue and builder operations", 4, _FOUR),
    "C14": _W % ("programs of handle, queue and builder operations with faulty caller code", 4, _FOUR),
    "C15": _W % ("programs of handle operations", 4, _TWO),
    "C16": _W % ("programs of deserialising and serialising", 2, _FOUR),
    "C17": _W % ("programs of handle operations", 4, _TWO),
    "C18": _W % ("streams, pieces they arrive in and parsers", 4, "at least three fields parsed in total"),
    "C20": _W % ("streams of records, pieces they arrive in and ways to take them apart", 6, "a stream of more than eight bytes"),
    "C21": _W % ("contents, table operations and comparisons", 3, "at least six operations in total"),
    "C24": _W % ("supplies, draws and uses of what was drawn", 3, "at least four operations in total"),
    "C23": _W % ("values, formats and sinks", 3, "at least five operations in total"),
}
RUNS = {"C10": 30000}
BUDGET = {p: {"quick": (RUNS.get(p, 60000), 45), "thorough": (100000000, 300)} for p in RULE}
# Variants besides debug and release: "small" is the library without its `alloc` feature (its own workloads),
# "safe" the one with `bytes_1_safe` (the same workloads; SharedBytes becomes Bytes by copying).
EXTRA = {p: ("small",) for p in ("C05", "C06", "C07", "C08", "C10", "C14", "C16", "C17")}
EXTRA["C15"] = ("safe",)
EXTRA_BUDGET = {"quick": (15000, 20), "thorough": (100000000, 60)}
