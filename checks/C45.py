TECHNIQUE = "abstract interpretation (Frama-C/Eva) of the bit, byte-order and alignment helpers against their definition, every bit and byte position"
def run(c):
    c.ai(min_ctx=10)
