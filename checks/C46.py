TECHNIQUE = "abstract interpretation (Frama-C/Eva) of the random ranges from arbitrary generator states and of the generator against its definition"
def run(c):
    c.ai(min_ctx=8)
