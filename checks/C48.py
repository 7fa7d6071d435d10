def run(c):
    c.ai(min_ctx=8)
