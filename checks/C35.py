TECHNIQUE = "abstract interpretation (Frama-C/Eva) of the hash functions against bitwise definitions: every table entry, every length up to 40, block boundaries; bounds for unknown bytes; interval analysis of the delayed reduction of Adler-32 for any content"
def run(c):
    # a counter that runs below zero at the end of its loop is no lost sum
    c.ai(min_ctx=12, ignore=lambda a, r: a["kind"].startswith("unsigned") and "0 \u2264" in a["prop"])
