NOTE = "patterns up to 3-5 pieces against texts up to 4 bytes are enumerated; recursion and backtracking cost are not bounded by the check"
def run(c):
    c.ai(min_ctx=30)
