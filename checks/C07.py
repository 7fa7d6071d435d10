TECHNIQUE = "abstract interpretation (Frama-C Eva) of every allocating operation with the n-th request refused, for every n"
NOTE = "one refused request per operation; assertions documented for exhausted pools and stacks are not failures"
WHERE = {"C05": ["ctx_resize_api", "ctx_alloc_copy"], "C08": ["ctx_refused", "ctx_init_refused"], "C09": ["ctx_ring_refused", "ctx_ring_get_array_refused", "ctx_buffer_refused"], "C10": ["ctx_refused", "ctx_init_refused"],
         "C12": ["ctx_strdup"], "C20": ["ctx_alloc_fail"], "C21": ["ctx_open_modes", "ctx_write_contents"], "C24": ["ctx_pack_dir", "ctx_extract_failures"], "C27": ["ctx_any_str"],
         "C29": ["ctx_fail", "ctx_wfail"], "C30": ["ctx_fail", "ctx_init"], "C31": ["ctx_fail"], "C33": ["ctx_fail_init", "ctx_fail_string"], "C34": ["ctx_grow", "ctx_all_fail"],
         "C40": ["ctx_fail"], "C48": ["ctx_read_contents", "ctx_read_lines", "ctx_full_name", "ctx_dirlist", "ctx_dirinfo_fail", "ctx_refresh"], "C53": ["ctx_env", "ctx_command_str"]}
def run(c):
    c.ai(min_ctx=17)
    for f, only in WHERE.items(): c.ai(f + ".c", only=only)
