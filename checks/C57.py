TECHNIQUE = "abstract interpretation (Frama-C Eva) of writing followed by parsing, for trees built through the interface and for parsed documents, and of the writers over a destination that refuses a write at any one point"
NOTE = "strings without quote and backslash characters in trees built by hand (the parser keeps escapes as spelled)"
def run(c):
    c.ai(min_ctx=7)
    c.ai("C28.c", only=["ctx_write_flat", "ctx_write_nest", "ctx_write_deep"])
    c.ai("C29.c", only=["ctx_write", "ctx_ragged", "ctx_wfail"])
    c.ai("C30.c", only=["ctx_write", "ctx_write_none"])
    c.ai("C32.c", only=["ctx_print", "ctx_hand"])
