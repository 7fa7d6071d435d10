TECHNIQUE = "abstract interpretation (Frama-C/Eva) of the sort, search, shuffle and reverse routines over enumerated key patterns on exact-size arrays"
def run(c):
    c.ai(min_ctx=18)
