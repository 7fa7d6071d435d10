TECHNIQUE = "abstract interpretation (Frama-C Eva) over two allocators that know their own blocks: after every operation, failing or not, exactly its result is held, each block goes back once and to where it came from"
NOTE = "one refused request or one failing system call at a time, on small documents"
WHERE = {"C40": ["ctx_fail"], "C08": ["ctx_refused"], "C10": ["ctx_refused"], "C27": ["ctx_any_str"], "C33": ["ctx_fail_string"], "C34": ["ctx_all_fail"]}
def run(c):
    c.ai(min_ctx=24)
    for f, only in WHERE.items():
        c.ai(f + ".c", only=only)
