TECHNIQUE = "abstract interpretation (Frama-C/Eva) of the base64 encoder and decoder against the alphabet's definition on exact-size blocks"
def run(c):
    c.ai(min_ctx=9)
