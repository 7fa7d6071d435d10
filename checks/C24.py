TECHNIQUE = "abstract interpretation (Frama-C/Eva) of the tar writer, reader and extractor over an in-memory archive and a modelled OS, with failures injected at every call"
def run(c):
    c.ai(min_ctx=20)
