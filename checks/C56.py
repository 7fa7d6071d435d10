TECHNIQUE = "abstract interpretation (Frama-C Eva) of the formatting routine over every directive, length modifier, width, precision and justification with arguments at the edges of their types, against an oracle that spells the argument"
NOTE = "floats on values whose decimal expansion is exact; the sign and zero flags together and the precision of integers are outside the claim"
def run(c):
    c.ai(min_ctx=25)
    c.ai("C18.c", only=["ctx_literal", "ctx_string", "ctx_string_null", "ctx_precision", "ctx_width", "ctx_repeat", "ctx_int_text", "ctx_neg_text", "ctx_long_text", "ctx_order", "ctx_order64", "ctx_float_text"])
