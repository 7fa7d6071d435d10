NOTE = "texts are templates with up to 3 (thorough: 4) enumerated characters; nesting depth, and with it stack use, is not bounded by the parser and not claimed"
def run(c):
    c.ai(min_ctx=24)
