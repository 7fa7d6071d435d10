NOTE = "every short text over the number alphabet, boundary values and long digit runs against a grammar-driven reference; reals are compared within 1e-12 relative"
def run(c):
    c.ai(min_ctx=20)
